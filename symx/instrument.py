"""AST instrumentation of the code under test and the run-time hooks it calls."""
import ast
import enum
import importlib.abc
import importlib.machinery
import inspect
import json
import os
import re
import sys
import types

import z3

from . import engine as E
from .engine import SymBool, SymNum, SymStr, has_sym, deep_conc, and_, or_, not_

SYM = (SymBool, SymNum, SymStr)
FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
MISSING = object()

ENTERED = set()  # functions of the code under test that were executed symbolically

# ---------------------------------------------------------------------------
# hooks
NO_WRAP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "cast", "TypeVar"}


def _key(d, k):
    """Find the entry of dict/set `d` that `k` denotes on this path; MISSING when there is none."""
    tk = type(k)
    if tk is SymStr:
        for kk in list(d):
            if isinstance(kk, str):
                if kk is k or bool(k == kk):
                    return kk
        return MISSING
    if tk is SymNum or tk is SymBool:
        for kk in list(d):
            if isinstance(kk, (int, float)) and bool(k == kk):
                return kk
        return MISSING
    if isinstance(k, str):
        # a native key against symbolic keys
        if dict.__contains__(d, k) if isinstance(d, dict) else k in _native(d):
            return k
        for kk in list(d):
            if type(kk) is SymStr and bool(kk == k):
                return kk
    return MISSING


def _native(d):
    return d


def _symkeys(d):
    for kk in d:
        if type(kk) is SymStr:
            return True
    return False


def _dictlike(c):
    t = type(c)
    return t is dict or t is set or t is frozenset or (isinstance(c, dict) and not hasattr(c, "_symx_model"))


def h_in(x, c):
    tc = type(c)
    tx = type(x)
    if tc is SymStr:
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return c.contains(x)
    if tx is SymStr:
        if isinstance(c, str):
            return SymBool(z3.Contains(E.z3_str_const(c), x.t))
        if tc in (list, tuple):
            return or_(*[_eqb(x, y) for y in c])
        if tc in (set, frozenset, dict) or isinstance(c, dict):
            return or_(*[_eqb(x, y) for y in c])
        return x in c
    if tx is SymNum or tx is SymBool:
        if tc in (list, tuple, set, frozenset, dict):
            return or_(*[_eqb(x, y) for y in c])
    if (tc is dict or tc is set) and isinstance(x, str) and _symkeys(c):
        if x in c:
            return True
        return or_(*[_eqb(x, y) for y in c if type(y) is SymStr])
    return x in c


def _eqb(x, y):
    if x is y:
        return True
    r = x == y
    return False if r is NotImplemented else r


def h_notin(x, c):
    return not_(h_in(x, c))


def h_getitem(c, k):
    if type(c) is dict or (isinstance(c, dict) and type(c).__getitem__ is dict.__getitem__):
        if type(k) in SYM or (isinstance(k, str) and not dict.__contains__(c, k) and _symkeys(c)):
            kk = _key(c, k)
            if kk is MISSING:
                return c[k] if hasattr(type(c), "__missing__") else _raise(KeyError(k))
            return dict.__getitem__(c, kk)
        return c[k]
    if type(k) is SymNum and isinstance(c, (list, tuple, str)):
        return c[E.CUR.concretise_all(k)]
    if isinstance(c, str) and type(c) is not SymStr and type(k) is slice and has_sym((k.start, k.stop)):
        return SymStr(E.z3_str_const(c))[k]
    return c[k]


def _raise(e):
    raise e


def h_setitem(c, k, v):
    if type(c) is dict and (type(k) is SymStr or (isinstance(k, str) and k not in c and _symkeys(c))):
        kk = _key(c, k)
        c[k if kk is MISSING else kk] = v
        return
    if type(c) is dict and type(k) in (SymNum, SymBool):
        kk = _key(c, k)
        c[k if kk is MISSING else kk] = v
        return
    c[k] = v


def h_delitem(c, k):
    if isinstance(c, dict) and (type(k) is SymStr or (isinstance(k, str) and _symkeys(c))):
        kk = _key(c, k)
        if kk is MISSING:
            raise KeyError(k)
        del c[kk]
        return
    del c[k]


def h_fstr(*parts):
    out = None
    acc = ""
    for p in parts:
        if type(p) is str:
            acc += p
            continue
        v, conv, spec = p
        s = _fmt(v, conv, spec)
        if type(s) is SymStr:
            out = (out + acc + s) if out is not None else (acc + s if acc else s)
            acc = ""
        else:
            acc += s
    if out is None:
        return acc
    return out + acc if acc else out


def _fmt(v, conv, spec):
    if type(v) is SymStr and conv != "r" and not spec:
        return v
    if conv == "r":
        return format(repr(v), spec)
    if conv == "s":
        v = m_str(v)
        return v if type(v) is SymStr and not spec else format(v, spec)
    if type(v) is SymNum:
        return m_str(v)
    if isinstance(v, BaseException) and not spec:
        s = m_str(v)
        return s
    return format(v, spec)


def h_mod(a, b):
    if isinstance(a, str):
        if type(a) is SymStr or has_sym(b):
            if type(a) is not SymStr:
                r = _percent(a, b)
                if r is not None:
                    return r
            return deep_conc(a) % deep_conc(b)
    return a % b


def _percent(a, b):
    parts = a.split("%s")
    args = b if isinstance(b, tuple) else (b,)
    if len(parts) - 1 != len(args) or any("%" in p for p in parts):
        return None
    out = parts[0]
    for p, x in zip(parts[1:], args):
        out = out + m_str(x) + p
    return out


def h_and(a, bf):
    # `a and b` where only the truth value is used is still evaluated python-style
    if type(a) is SymBool:
        return bf() if bool(a) else a
    return a and bf()


# ---- models of builtins ----------------------------------------------------
def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymStr:
            return x
        if t is SymBool:
            return "True" if bool(x) else "False"
        if t is SymNum:
            if x.isfloat:
                s = SymStr(z3.Concat(z3.IntToStr(x.t), z3.StringVal(".0")))
            else:
                s = None
            if bool(x >= 0):
                return s or SymStr(z3.IntToStr(x.t))
            n = z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.t))
            return SymStr(z3.Concat(n, z3.StringVal(".0")) if x.isfloat else n)
        if isinstance(x, BaseException) and has_sym(x.args, 1) and type(x).__str__ in (
            Exception.__str__, BaseException.__str__, ValueError.__str__,
        ):
            if len(x.args) == 1:
                return m_str(x.args[0])
            return str(deep_conc(tuple(x.args)))
        f = type(x).__str__
        if type(f) is FunctionType and len(a) == 1 and not k:
            r = f(x)
            return r if type(r) is SymStr else str(x) if not isinstance(r, str) else r
    return str(*a, **k)


def m_bool(*a):
    if a and type(a[0]) in SYM:
        x = a[0]
        if type(x) is SymBool:
            return x
        if type(x) is SymStr:
            return SymBool(x.t != z3.StringVal(""))
        return SymBool(x.t != 0)
    return bool(*a)


def m_int(*a, **k):
    if a and type(a[0]) in SYM:
        x = a[0]
        if type(x) is SymNum:
            return SymNum(x.t)
        if type(x) is SymStr and len(a) == 1:
            return x.to_int()
        if type(x) is SymBool:
            return SymNum(z3.If(x.t, 1, 0))
        return int(deep_conc(x), *a[1:])
    return int(*a, **k)


def m_float(*a):
    if a and type(a[0]) in SYM:
        x = a[0]
        if type(x) is SymNum:
            return SymNum(x.t, True)
        if type(x) is SymStr:
            return x.to_float()
        return float(deep_conc(x))
    return float(*a)


def m_len(x):
    if type(x) is SymStr:
        return x.length()
    return len(x)


def m_type(*a):
    if len(a) == 1 and type(a[0]) in SYM:
        return a[0].__class__
    return type(*a)


def m_repr(x):
    if type(x) in SYM:
        return repr(deep_conc(x)) if type(x) is not SymNum or x.isfloat else m_str(x)
    return repr(x)


def m_format(v, spec=""):
    return _fmt(v, None, spec)


def m_any(it):
    xs = []
    for x in it:
        if type(x) is SymBool:
            xs.append(x)
        elif x:
            return True if not xs else or_(*xs, True)
    return or_(*xs) if xs else False


def m_all(it):
    xs = []
    for x in it:
        if type(x) is SymBool:
            xs.append(x)
        elif not x:
            return False
    return and_(*xs) if xs else True


def m_dict(*a, **k):
    out = {}
    for x in a:
        if hasattr(x, "keys"):
            for kk in x.keys():
                h_setitem(out, kk, x[kk])
        else:
            for kk, v in x:
                h_setitem(out, kk, v)
    out.update(k)
    return out


def m_dict_plain(*a, **k):
    if any(type(x) is not dict or _symkeys(x) for x in a):
        if a and not isinstance(a[0], dict):
            a = (list(a[0]) if not hasattr(a[0], "keys") else a[0],) + a[1:]
        return m_dict(*a, **k)
    return dict(*a, **k)


def m_set(*a):
    if not a:
        return set()
    xs = list(a[0])
    if any(type(x) is SymStr for x in xs):
        out = set()
        for x in xs:
            if _key(out, x) is MISSING:
                out.add(x)
        return out
    return set(xs)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def h_is(x, c):
    """x is True / x is False"""
    if type(x) is SymBool:
        return x if c else not_(x)
    return x is c


def h_isnot(x, c):
    return not_(h_is(x, c))


def m_isinstance(x, c):
    return isinstance(x, c)


def m_setattr(o, n, v):
    return setattr(o, deep_conc(n), v)


def m_getattr(o, n, *d):
    return getattr(o, deep_conc(n), *d)


def m_hasattr(o, n):
    return hasattr(o, deep_conc(n))


def m_json_dumps(obj, *a, **k):
    if has_sym(obj, 6):
        return json.dumps(deep_conc_deep(obj), *a, **k)
    return json.dumps(obj, *a, **k)


def deep_conc_deep(x):
    t = type(x)
    if t in SYM:
        return E.CUR.concretise(x, "json")
    if isinstance(x, tuple):
        return tuple(deep_conc_deep(y) for y in x)
    if isinstance(x, list):
        return [deep_conc_deep(y) for y in x]
    if isinstance(x, dict):
        return {deep_conc_deep(k): deep_conc_deep(v) for k, v in x.items()}
    return x


def m_fspath(x):
    return x if type(x) is SymStr else os.fspath(x)


def m_str_join(self, it):
    parts = list(it)
    if any(type(p) is SymStr for p in parts):
        return SymStr(E.z3_str_const(self)).join(parts)
    return self.join(parts)


MODELS = {
    str: m_str, bool: m_bool, int: m_int, float: m_float, len: m_len, type: m_type, repr: m_repr,
    format: m_format, any: m_any, all: m_all, dict: m_dict_plain, set: m_set, sum: m_sum,
    setattr: m_setattr, getattr: m_getattr, hasattr: m_hasattr, json.dumps: m_json_dumps,
    os.fspath: m_fspath,
}


def call_dict_method(d, name, args, kw):
    if name in ("get", "pop", "setdefault") and args:
        k = args[0]
        if type(k) in SYM or (isinstance(k, str) and k not in d and _symkeys(d)):
            kk = _key(d, k)
            if kk is MISSING:
                if name == "get":
                    return args[1] if len(args) > 1 else None
                if name == "pop":
                    if len(args) > 1:
                        return args[1]
                    raise KeyError(k)
                d[k] = args[1] if len(args) > 1 else None
                return d[k]
            return getattr(d, name)(kk, *args[1:], **kw)
    elif name == "update" and args:
        src = args[0]
        if isinstance(src, dict) and (_symkeys(src) or _symkeys(d)):
            for k in src:
                h_setitem(d, k, src[k])
            d.update(**kw)
            return None
    elif name == "__contains__":
        return h_in(args[0], d)
    return getattr(d, name)(*args, **kw)


def call_set_method(s, name, args, kw):
    if args and name in ("add", "discard", "remove") and (type(args[0]) is SymStr or
                                                          (isinstance(args[0], str) and _symkeys(s))):
        k = _key(s, args[0])
        if name == "add":
            if k is MISSING:
                s.add(args[0])
            return None
        if k is MISSING:
            if name == "remove":
                raise KeyError(args[0])
            return None
        return getattr(s, name)(k)
    if args and name in ("update", "union") and (
        _symkeys(s) or any(has_sym(list(a), 1) for a in args if isinstance(a, (list, tuple, set, frozenset)))
    ):
        out = s if name == "update" else set(s)
        for a in args:
            for x in list(a):
                if _key(out, x) is MISSING:
                    out.add(x)
        return None if name == "update" else out
    return getattr(s, name)(*args, **kw)


CMethodType = type(re.compile("").search)
STUBS = {}  # function object -> replacement (listed in evidence)


def h_call(f, *args, **kw):
    t = type(f)
    if t is FunctionType or t is MethodType:
        if STUBS:
            try:
                r = STUBS.get(f)
            except TypeError:
                r = None
            if r is not None:
                return r(*args, **kw)
        if f is json.dumps:
            return m_json_dumps(*args, **kw)
        return f(*args, **kw)
    if t is CMethodType and type(f.__self__) is re.Pattern:
        if args and type(args[0]) is SymStr:
            return _re_call(f.__self__, f.__name__, args, kw)
        return f(*args, **kw)
    if t is type or t is BuiltinType:
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if t is BuiltinType:
            try:
                r = STUBS.get(f) if STUBS else None
            except TypeError:
                r = None
            if r is not None:
                return r(*args, **kw)
            self = f.__self__
            ts = type(self)
            if ts is str:
                if f.__name__ == "join":
                    return m_str_join(self, *args)
                if (args or kw) and (has_sym(args, 2) or has_sym(kw, 1)):
                    if f.__name__ in ("startswith", "endswith", "find", "index", "replace", "split", "partition",
                                      "__contains__", "__eq__"):
                        return getattr(SymStr(E.z3_str_const(self)), f.__name__)(*args, **kw)
                    if f.__name__ == "format":
                        return _str_format(self, args, kw)
                    return f(*deep_conc(args), **deep_conc(kw))
                return f(*args, **kw)
            if ts is dict:
                return call_dict_method(self, f.__name__, args, kw)
            if ts is set:
                return call_set_method(self, f.__name__, args, kw)
            if ts is re.Pattern and args and type(args[0]) is SymStr:
                return _re_call(self, f.__name__, args, kw)
        return f(*args, **kw)
    if isinstance(f, enum.EnumMeta) and len(args) == 1 and type(args[0]) in SYM:
        for member in f:
            if isinstance(member.value, str) == isinstance(args[0], str) and bool(args[0] == member.value):
                return member
        raise ValueError("%s is not a valid %s" % (args[0], f.__name__))
    return f(*args, **kw)


class SymMatch:
    """Truthy result of a successful symbolic regex test (groups are not modelled)."""

    def __init__(self, s):
        self.s = s

    def group(self, *a):
        raise E.EngineLimit("regex group on symbolic string")


def _re_call(pat, name, args, kw):
    if name in ("search", "match", "fullmatch") and len(args) == 1:
        r = regex_to_z3(pat.pattern, name)
        if r is not None:
            return SymMatch(args[0]) if E.CUR.branch(z3.InRe(args[0].t, r)) else None
    return getattr(pat, name)(*deep_conc(args), **deep_conc(kw))


def regex_to_z3(pattern, mode):
    """Translate the (small) regex subset used by the SDK; None when not supported."""
    import re._parser as sp

    any_ = z3.AllChar(z3.ReSort(z3.StringSort())) if hasattr(z3, "AllChar") else z3.Range(" ", "~")
    anys = z3.Star(any_)
    nonl = z3.Diff(any_, z3.Re("\n")) if hasattr(z3, "Diff") else any_

    def seq(items):
        out = []
        for op, av in items:
            n = str(op)
            if n == "LITERAL":
                out.append(z3.Re(E.z3_str_const(chr(av))))
            elif n == "ANY":
                out.append(nonl)
            elif n == "MAX_REPEAT" or n == "MIN_REPEAT":
                lo, hi, sub = av
                e = seq(sub)
                if e is None:
                    return None
                if lo == 0 and hi == sp.MAXREPEAT:
                    out.append(z3.Star(e))
                elif lo == 1 and hi == sp.MAXREPEAT:
                    out.append(z3.Plus(e))
                elif hi == sp.MAXREPEAT:
                    out.append(z3.Concat(z3.Loop(e, lo, lo), z3.Star(e)))
                else:
                    out.append(z3.Loop(e, lo, hi))
            elif n == "SUBPATTERN":
                e = seq(av[3])
                if e is None:
                    return None
                out.append(e)
            elif n == "BRANCH":
                es = [seq(b) for b in av[1]]
                if any(e is None for e in es):
                    return None
                out.append(z3.Union(*es))
            elif n == "IN":
                es = []
                for o2, a2 in av:
                    if str(o2) == "LITERAL":
                        es.append(z3.Re(E.z3_str_const(chr(a2))))
                    elif str(o2) == "RANGE":
                        es.append(z3.Range(chr(a2[0]), chr(a2[1])))
                    elif str(o2) == "CATEGORY" and str(a2) == "CATEGORY_DIGIT":
                        es.append(z3.Range("0", "9"))
                    else:
                        return None
                out.append(es[0] if len(es) == 1 else z3.Union(*es))
            else:
                return None
        if not out:
            return z3.Re("")
        return out[0] if len(out) == 1 else z3.Concat(*out)

    try:
        tree = list(sp.parse(pattern))
    except Exception:
        return None
    pre, post = mode == "search", mode != "fullmatch"
    if tree and str(tree[0][0]) == "AT" and str(tree[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        tree, pre = tree[1:], False
    if tree and str(tree[-1][0]) == "AT" and str(tree[-1][1]) in ("AT_END", "AT_END_STRING"):
        tree, post = tree[:-1], False
    body = seq(tree)
    if body is None:
        return None
    parts = ([anys] if pre else []) + [body] + ([anys] if post else [])
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _str_format(s, args, kw):
    if s.count("{}") == len(args) and s.count("{") == len(args) and not kw:
        parts = s.split("{}")
        out = parts[0]
        for p, x in zip(parts[1:], args):
            out = out + m_str(x) + p
        return out
    return s.format(*deep_conc(args), **deep_conc(kw))


def h_dict(*pairs):
    """dict display; pairs are (key, value) or (None-marker, mapping)."""
    out = {}
    for k, v in pairs:
        if k is MISSING:
            for kk in v.keys() if hasattr(v, "keys") else v:
                h_setitem(out, kk, v[kk])
        else:
            h_setitem(out, k, v)
    return out


def h_enter(name):
    ENTERED.add(name)


HOOKS = {
    "__sx_call__": h_call, "__sx_in__": h_in, "__sx_notin__": h_notin, "__sx_is__": h_is, "__sx_isnot__": h_isnot, "__sx_getitem__": h_getitem,
    "__sx_setitem__": h_setitem, "__sx_delitem__": h_delitem, "__sx_fstr__": h_fstr, "__sx_mod__": h_mod,
    "__sx_enter__": h_enter, "__sx_dict__": h_dict, "__sx_missing__": MISSING, "__sx_not__": not_,
}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # never touch annotations
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        if all(isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) or
               isinstance(st, ast.Return) and (st.value is None or isinstance(st.value, ast.Constant)) for st in body):
            self.stack.pop()  # (the code of empty functions is compared by the code under test)
            return node
        ent = ast.Expr(_name_call("__sx_enter__", [ast.Constant(self.mod + "." + ".".join(self.stack))]))
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str) else 0
        body.insert(at, ent)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        # bases / keywords / decorators stay native
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        return node

    def visit_Call(self, node):
        f = node.func
        name = f.id if isinstance(f, ast.Name) else None
        self.generic_visit(node)
        if name in NO_WRAP:
            return node
        return ast.Call(
            func=ast.Name("__sx_call__", ast.Load()), args=[node.func] + node.args, keywords=node.keywords
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return _name_call(fn, [node.left, node.comparators[0]])
        if (len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot))
                and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value in (True, False)
                and isinstance(node.comparators[0].value, bool)):
            fn = "__sx_is__" if isinstance(node.ops[0], ast.Is) else "__sx_isnot__"
            return _name_call(fn, [node.left, node.comparators[0]])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _name_call("__sx_not__", [node.operand])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _name_call("__sx_getitem__", [node.value, _slice(node.slice)])
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(
                _name_call("__sx_setitem_r__", [node.value, self.visit(t.value), _slice(self.visit(t.slice))])
            )
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(
                    ast.Expr(_name_call("__sx_delitem__", [self.visit(t.value), _slice(self.visit(t.slice))]))
                )
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {115: "s", 114: "r", 97: "a"}.get(v.conversion)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return _name_call("__sx_fstr__", parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _name_call("__sx_mod__", [node.left, node.right])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            kk = ast.Name("__sx_missing__", ast.Load()) if k is None else k
            pairs.append(ast.Tuple([kk, v], ast.Load()))
        return _name_call("__sx_dict__", pairs)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        # {k: v for ...}  ->  dict_model((k, v) for ...)   (async comprehensions stay native)
        if any(g.is_async for g in node.generators) or _has_await(node):
            return node
        gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return _name_call("__sx_call__", [ast.Name("__sx_dictb__", ast.Load()), gen])


def _has_await(node):
    return any(isinstance(n, (ast.Await, ast.AsyncFor)) for n in ast.walk(node))


def h_setitem_r(v, c, k):
    h_setitem(c, k, v)


HOOKS["__sx_setitem_r__"] = h_setitem_r
HOOKS["__sx_dictb__"] = m_dict_plain


def _slice(s):
    if isinstance(s, ast.Slice):
        return _name_call("__sx_slice__", [s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                                           s.step or ast.Constant(None)])
    return s


HOOKS["__sx_slice__"] = slice


def _name_call(fn, args):
    return ast.Call(func=ast.Name(fn, ast.Load()), args=args, keywords=[])


def instrument_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = instrument_source(src, self.path, self.name)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Finds `pulumi.*` in the repository and loads it instrumented."""

    def __init__(self, root, models):
        self.root = root
        self.models = models  # modname -> module object

    def find_spec(self, name, path=None, target=None):
        if name != "pulumi" and not name.startswith("pulumi."):
            return None
        if name in self.models:
            m = self.models[name]
            return importlib.machinery.ModuleSpec(name, _ModelLoader(m), is_package=hasattr(m, "__path__"))
        if name.startswith("pulumi.runtime.proto"):
            return importlib.machinery.PathFinder.find_spec(name, path)
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        p = base + ".py"
        if os.path.exists(p):
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p, False), origin=p)
            spec.has_location = True
            return spec
        return None


class _ModelLoader(importlib.abc.Loader):
    def __init__(self, m):
        self.m = m

    def create_module(self, spec):
        return self.m

    def exec_module(self, module):
        pass
