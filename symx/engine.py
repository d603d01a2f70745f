"""symx -- a small symbolic executor for the Python sources of the SDK under test.

The code under test runs inside CPython, but on proxy values (SymBool / SymNum / SymStr) that carry z3
terms.  Whenever the program needs a concrete truth value of a proxy, the executor asks z3 which
outcomes the path condition admits and explores every feasible one (depth first, by re-execution of the
decision prefix).  `Path.check` discharges `path condition AND NOT property` to z3.
"""
import time

import z3
import z3.z3 as _z3z3

_z3z3.Z3_DEBUG = False


class PathAbort(BaseException):
    """Raised to leave a path (assumption infeasible, resource limit)."""


class EngineLimit(Exception):
    pass


VARTERMS = {}


def NICE(t):
    """Preference for readable strings in reported assignments."""
    i = t.get_id()
    r = _NICE.get(i)
    if r is None:
        r = _NICE[i] = (t, z3.InRe(t, z3.Star(z3.Range(" ", "~"))))
    return r[1]


_NICE = {}
CUR = None  # the current Path (None outside symbolic runs)

STATS_KEYS = (
    "queries", "cache_hits", "sat", "unsat", "unknown", "branches", "concretised", "assertions_smt", "assertions_const",
)


def z3_str_value(v):
    """Decode a z3 string value to a python str."""
    s = v.as_string()
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] == "u":
            if i + 2 < len(s) and s[i + 2] == "{":
                j = s.index("}", i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append(chr(int(s[i + 2:i + 6], 16)))
            i += 6
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def z3_str_const(s):
    """A z3 constant of a python str (escapes handled)."""
    enc = "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)
    return z3.StringVal(enc)


class Var:
    __slots__ = ("name", "kind", "term", "meta")

    def __init__(self, name, kind, term, meta=None):
        self.name, self.kind, self.term, self.meta = name, kind, term, meta


class Cache:
    """Query cache shared by all paths of a process (terms are hash-consed by z3, so ids identify them)."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.keep = {}  # ast id -> ast (keeps ids valid)
        self.vars = {}  # ast id -> frozenset of variable names
        self.sat = {}  # (frozenset of constraint ids) -> (result, {var: value term})

    def varset(self, t):
        i = t.get_id()
        v = self.vars.get(i)
        if v is None:
            self.keep[i] = t
            if t.num_args() == 0:
                v = frozenset((t.decl().name(),)) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
            else:
                v = frozenset().union(*[self.varset(c) for c in t.children()])
            self.vars[i] = v
        return v


CACHE = Cache()


class Path:
    """One execution of a harness along one decision sequence."""

    symbolic = True

    def __init__(self, prefix, stats, limits):
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # decisions taken
        self.siblings = []  # unexplored prefixes discovered on this path
        self.vars = {}
        self.names = {}
        self.known = {}  # ast id -> (term, bool)
        self.cons = {}  # path condition: ast id -> (term, varset)
        self.byvar = {}  # variable -> set of constraint ids
        self.stats = stats
        self.limits = limits
        self.aborted = None
        self.notes = set()
        self.labels = []  # labels reached (in order)
        self.cex = []  # (label, values, info)
        self.observations = []
        self.smt_time = 0.0
        self.t0 = time.time()
        if len(CACHE.sat) > 200000 or len(CACHE.keep) > 400000:
            CACHE.clear()

    # ---- solver plumbing -------------------------------------------------
    def _closure(self, vs, seed=()):
        """Ids of the path constraints that (transitively) share variables with `vs`."""
        todo, seen, ids = list(vs), set(vs), set(seed)
        while todo:
            v = todo.pop()
            for i in self.byvar.get(v, ()):
                if i not in ids:
                    ids.add(i)
                    for w in self.cons[i][1]:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
        return ids

    def _solve(self, terms):
        """Satisfiability of a conjunction: (result, {var: value})."""
        key = frozenset(t.get_id() for t in terms)
        r = CACHE.sat.get(key)
        if r is not None:
            self.stats["cache_hits"] += 1
            return r
        for t in terms:
            CACHE.keep[t.get_id()] = t
        s = z3.Solver()
        s.set("timeout", self.limits.get("query_ms", 10000))
        t = time.time()
        s.add(*terms)
        r = s.check()
        k = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        self.smt_time += time.time() - t
        self.stats["queries"] += 1
        self.stats[k] += 1
        mv = None
        if k == "sat":
            m = s.model()
            mv = {d.name(): m[d] for d in m.decls() if d.arity() == 0}
        r = (k, mv)
        if k == "unknown":
            self.notes.add("solver-unknown")
        else:
            CACHE.sat[key] = r
        return r

    def query(self, term):
        """Is `path condition AND term` satisfiable?  (only the relevant part of the path condition is sent)"""
        vs = CACHE.varset(term)
        ids = self._closure(vs)
        return self._solve([self.cons[i][0] for i in ids] + [term])

    def _add(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return
        i = term.get_id()
        if i in self.cons:
            return
        vs = CACHE.varset(term)
        self.cons[i] = (term, vs)
        for v in vs:
            self.byvar.setdefault(v, set()).add(i)

    def _check(self, term):
        return self.query(z3.simplify(term))[0]

    def _model_value(self, term):
        """A value of `term` in some model of the path condition (None when there is none)."""
        vs = CACHE.varset(term)
        ids = self._closure(vs)
        r, mv = self._solve([self.cons[i][0] for i in ids]) if ids else ("sat", {})
        if r != "sat":
            return None
        return self._eval(term, mv)

    @staticmethod
    def _eval(term, mv):
        subs = []
        for v in CACHE.varset(term):
            t = VARTERMS.get(v)
            if t is None:
                continue
            val = mv.get(v)
            if val is None:
                val = z3.BoolVal(False) if z3.is_bool(t) else z3.IntVal(0) if z3.is_int(t) else z3.StringVal("")
            subs.append((t, val))
        return z3.simplify(z3.substitute(term, *subs) if subs else term)

    def abort(self, why):
        self.aborted = why
        raise PathAbort(why)

    def values(self, extra=None):
        """An assignment of all harness variables satisfying the path condition (and `extra`)."""
        out = {}
        mv = {}
        done = set()
        if extra is not None:
            CACHE.varset(extra)
        for name, v in self.vars.items():
            if v.kind == "choice" or name in done:
                continue
            ids = self._closure([name])
            grp = {name}
            for i in ids:
                grp |= self.cons[i][1]
            terms = [self.cons[i][0] for i in ids]
            if extra is not None and (CACHE.varset(extra) & grp):
                ids = self._closure(CACHE.varset(extra))
                grp = set(CACHE.varset(extra))
                for i in ids:
                    grp |= self.cons[i][1]
                terms = [self.cons[i][0] for i in ids] + [extra]
            nice = [NICE(VARTERMS[g]) for g in sorted(grp) if g in self.vars and self.vars[g].kind == "str"]
            r, m = self._solve(terms + nice) if (terms or nice) else ("sat", {})
            if r != "sat" and nice:
                r, m = self._solve(terms) if terms else ("sat", {})
            if r != "sat":
                return None
            mv.update({g: m.get(g) for g in grp})
            done |= grp
        for name, v in self.vars.items():
            if v.kind == "choice":
                out[name] = v.meta  # decided
                continue
            t = mv.get(name)
            if v.kind == "bool":
                out[name] = bool(t is not None and z3.is_true(t))
            elif v.kind == "int":
                out[name] = t.as_long() if t is not None else v.meta[0]
            elif v.kind == "str":
                out[name] = z3_str_value(t) if t is not None else ""
        return out

    # ---- variables -------------------------------------------------------
    def _fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def bool(self, name="b"):
        n = self._fresh(name)
        t = VARTERMS.get(n)
        if t is None:
            t = VARTERMS[n] = z3.Bool(n)
        self.vars[n] = Var(n, "bool", t)
        return SymBool(t)

    def int(self, name="i", lo=0, hi=7):
        n = self._fresh(name)
        t = VARTERMS.get(n)
        if t is None or not z3.is_int(t):
            t = VARTERMS[n] = z3.Int(n)
        self.vars[n] = Var(n, "int", t, (lo, hi))
        self._add(z3.And(t >= lo, t <= hi))
        return SymNum(t)

    def str(self, name="s", maxlen=8, minlen=0, chars=None):
        """A symbolic string, minlen <= len <= maxlen, any characters (or only the ranges given)."""
        n = self._fresh(name)
        t = VARTERMS.get(n)
        if t is None or not z3.is_string(t):
            t = VARTERMS[n] = z3.String(n)
        self.vars[n] = Var(n, "str", t)
        self._add(z3.Length(t) <= maxlen)
        if minlen:
            self._add(z3.Length(t) >= minlen)
        if chars:
            if isinstance(chars, str):
                chars = [(c, c) for c in chars]
            parts = [z3.Range(a, b) if a != b else z3.Re(z3_str_const(a)) for a, b in chars]
            rc = parts[0] if len(parts) == 1 else z3.Union(*parts)
            self._add(z3.InRe(t, z3.Star(rc)))
        return SymStr(t)

    def choice(self, name, options):
        """Nondeterministic choice (a fresh bounded integer variable, decided eagerly)."""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        n = self._fresh(name)
        if len(opts) == 1:
            self.vars[n] = Var(n, "choice", None, 0)
            return opts[0]
        if self.aborted:
            raise PathAbort(self.aborted)
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            if not isinstance(i, int) or isinstance(i, bool) or not 0 <= i < len(opts):
                self.notes.add("divergence")
                self.abort("divergence")
        else:
            i = 0
            base = tuple(self.trail)
            for j in range(len(opts) - 1, 0, -1):
                self.siblings.append(base + (j,))
        self.pos += 1
        self.trail.append(i)
        self.stats["branches"] += 1
        self.vars[n] = Var(n, "choice", None, i)
        return opts[i]

    # ---- branching -------------------------------------------------------
    def branch(self, term):
        """Concrete truth value of `term` on this path; forks when both are feasible."""
        if self.aborted:
            raise PathAbort(self.aborted)
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        k = self.known.get(term.get_id())
        if k is not None:
            return k[1]
        if self.pos < len(self.prefix):
            take = self.prefix[self.pos]
            if not isinstance(take, bool):
                self.notes.add("divergence")
                self.abort("divergence")
            self.pos += 1
        else:
            self.stats["branches"] += 1
            if len(self.trail) > self.limits.get("max_decisions", 400):
                self.notes.add("decision-limit")
                self.abort("decision-limit")
            rt, _ = self.query(term)
            take = rt != "unsat"
            if take:
                nt = z3.simplify(z3.Not(term))
                r, _ = self.query(nt)
            else:
                r = "unsat"
            if r == "unsat":
                # forced: the path condition implies it
                self.known[term.get_id()] = (term, take)
                self._forced(term, take)
                self.pos += 1
                self.trail.append(take)
                return take
            self.siblings.append(tuple(self.trail) + (not take,))
            self.pos += 1
        self.trail.append(take)
        self.known[term.get_id()] = (term, take)
        nt = z3.simplify(z3.Not(term))
        self.known[nt.get_id()] = (nt, not take)
        self._add(term if take else z3.Not(term))
        return take

    def _forced(self, term, take):
        nt = z3.simplify(z3.Not(term))
        self.known[nt.get_id()] = (nt, not take)

    def concretise(self, val, why="concretised"):
        """Pick one model value of a proxy and pin it (drops other values: recorded)."""
        if self.aborted:
            raise PathAbort(self.aborted)
        if isinstance(val, SymBool):
            return self.branch(val.t)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not (isinstance(d, tuple) and d[0] == "v"):
                self.notes.add("divergence")
                self.abort("divergence")
            v = d[1]
        else:
            m = self._model_value(val.t)
            if m is None:
                self.abort("no-model")
            v = self._pyval(val, m)
        self.pos += 1
        self.trail.append(("v", v))
        self.stats["concretised"] += 1
        self.notes.add("concretised:" + why)
        self._add(val.t == self._zval(v))
        return v

    @staticmethod
    def _pyval(val, t):
        if isinstance(val, str):
            return z3_str_value(t)
        n = t.as_long()
        return float(n) if val.isfloat else n

    @staticmethod
    def _zval(v):
        return z3_str_const(v) if isinstance(v, str) else z3.IntVal(int(v))

    def concretise_all(self, val, limit=64):
        """Fork over every value of a (bounded) proxy."""
        for _ in range(limit):
            if self.aborted:
                raise PathAbort(self.aborted)
            st = z3.simplify(val.t)
            if z3.is_int_value(st) or z3.is_string_value(st):
                return self._pyval(val, st)
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if not (isinstance(d, tuple) and d[0] == "e"):
                    self.notes.add("divergence")
                    self.abort("divergence")
                _, v, take = d
            else:
                m = self._model_value(val.t)
                if m is None:
                    self.abort("no-model")
                v = self._pyval(val, m)
                take = True
                if self._check(val.t != self._zval(v)) != "unsat":
                    self.siblings.append(tuple(self.trail) + (("e", v, False),))
            self.pos += 1
            self.trail.append(("e", v, take))
            self.stats["branches"] += 1
            if take:
                self._add(val.t == self._zval(v))
                return v
            self._add(val.t != self._zval(v))
        return self.concretise(val)

    # ---- specification primitives ---------------------------------------
    def assume(self, cond):
        if isinstance(cond, SymBool):
            if self.aborted:
                raise PathAbort(self.aborted)
            if self._check(cond.t) == "unsat":
                self.abort("assume")
            self._add(cond.t)
        elif not cond:
            self.abort("assume")

    def check(self, cond, label, info=None):
        """Assert `cond` for every value on this path."""
        if self.aborted:
            raise PathAbort(self.aborted)
        self.labels.append(label)
        if isinstance(cond, SymBool):
            t = z3.simplify(cond.t)
            if z3.is_true(t):
                self.stats["assertions_smt"] += 1
                return True
            self.stats["assertions_smt"] += 1
            nt = z3.simplify(z3.Not(t))
            r = "sat" if z3.is_false(t) else self.query(nt)[0]
            if r == "unsat":
                return True
            if r == "unknown":
                self.notes.add("assert-unknown:" + label)
                return True
            vals = self.values(None if z3.is_false(t) else nt)
            if vals is not None:
                self.cex.append((label, vals, _short(info)))
            # continue under the assumption that it held, if possible
            if not z3.is_false(t):
                if self._check(t) == "sat":
                    self._add(t)
                else:
                    self.abort("check-failed")
            return False
        self.stats["assertions_const"] += 1
        if cond:
            return True
        vals = self.values()
        if vals is not None:
            self.cex.append((label, vals, _short(info)))
        return False

    def observe(self, label, value):
        pass

    # ---- logic -----------------------------------------------------------
    def and_(self, *xs):
        return and_(*xs)

    def or_(self, *xs):
        return or_(*xs)

    def not_(self, x):
        return not_(x)

    def implies(self, a, b):
        return or_(not_(a), b)

    def iff(self, a, b):
        return iff(a, b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
                return SymBool(z3.If(c.t, lift_bool(a), lift_bool(b)))
            return a if self.branch(c.t) else b
        return a if c else b

    def eq(self, a, b):
        return deep_eq(a, b)

    def match(self, x, pattern):
        """Whether the whole string x matches the (simple) regular expression."""
        import re

        if type(x) is SymStr:
            from .instrument import regex_to_z3

            return SymBool(z3.InRe(x.t, regex_to_z3(pattern, "fullmatch")))
        return re.fullmatch(pattern, x) is not None

    def to_int(self, x):
        """The value of a string of digits."""
        return SymNum(z3.StrToInt(x.t)) if type(x) is SymStr else int(x)

    def concrete(self, x):
        """Force to a concrete truth value (forks)."""
        return bool(x)


def _short(info):
    try:
        s = repr(info() if callable(info) else info)
    except BaseException as e:  # noqa
        s = "<info failed: %r>" % (type(e),)
    return s[:600]


# --------------------------------------------------------------------------
# boolean helpers
def lift_bool(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def _isSB(x):
    return type(x) is SymBool


def and_(*xs):
    ts = []
    for x in xs:
        if _isSB(x):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(z3.And(*ts) if len(ts) > 1 else ts[0])


def or_(*xs):
    ts = []
    for x in xs:
        if _isSB(x):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return SymBool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def not_(x):
    if _isSB(x):
        return SymBool(z3.Not(x.t))
    return not x


def iff(a, b):
    if _isSB(a) or _isSB(b):
        return SymBool(lift_bool(a) == lift_bool(b))
    return bool(a) == bool(b)


class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool,)):
            return iff(self, o)
        if isinstance(o, (int, float)) and type(o) in (int, float):
            if o == 1:
                return self
            if o == 0:
                return not_(self)
            return False
        if type(o) is SymNum:
            return SymBool(z3.If(self.t, 1, 0) == o.t)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __invert__(self):
        return ~bool(self)

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, lift_bool(o)))

    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) - o

    def __rsub__(self, o):
        return o - SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __lt__(self, o):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) < o

    def __gt__(self, o):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) > o

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")


class SymNum(Sym):
    """Integer-valued number; isfloat says which python class it presents."""

    __slots__ = ("t", "isfloat")

    def __init__(self, t, isfloat=False):
        self.t = t
        self.isfloat = isfloat

    @property
    def __class__(self):
        return float if self.isfloat else int

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def _o(self, o):
        if type(o) is SymNum:
            return o.t
        if type(o) is SymBool:
            return z3.If(o.t, 1, 0)
        if type(o) in (int, bool):
            return z3.IntVal(int(o))
        if type(o) is float and o == int(o):
            return z3.IntVal(int(o))
        return None

    def __eq__(self, o):
        t = self._o(o)
        if t is None:
            if type(o) is float:
                return False
            return NotImplemented
        return SymBool(self.t == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _cmp(self, o, f):
        if type(o) is float and o != int(o):
            return SymBool(f(z3.ToReal(self.t), z3.RealVal(o)))
        t = self._o(o)
        return NotImplemented if t is None else SymBool(f(self.t, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SymNum(f(self.t, t), self.isfloat or (isinstance(o, float)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * CUR.concretise_all(self)
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymNum(-self.t, self.isfloat)

    def __hash__(self):
        return hash(CUR.concretise_all(self))

    def __index__(self):
        return int(CUR.concretise_all(self))

    def __int__(self):
        return int(CUR.concretise_all(self))

    def __float__(self):
        return float(CUR.concretise_all(self))

    def is_integer(self):
        return True

    def __repr__(self):
        return "<symnum>"

    def __format__(self, spec):
        return "<symnum>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


SH = 77777


def _parts(t):
    """A string term as a list of python strings and terms (constants merged)."""
    t = z3.simplify(t)
    todo, out = [t], []
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
            todo.extend(reversed(x.children()))
            continue
        if z3.is_string_value(x):
            x = z3_str_value(x)
            if out and type(out[-1]) is str:
                out[-1] += x
                continue
        out.append(x)
    return out


def _lenof(parts):
    v = _mkstr(parts)
    return len(v) if type(v) is str else SymNum(z3.simplify(z3.Length(v.t)))


def _apart(parts, sep):
    """Can `sep` only occur within the constant parts?  (No other part may contain any of its characters, and constants
    with only possibly empty parts between them must not form it.)"""
    left, gap = None, False
    for x in parts:
        if type(x) is str:
            if gap and left[-1] in sep and x[0] in sep:
                return False
            left, gap = x, False
            continue
        for c in dict.fromkeys(sep):
            if CUR.query(z3.simplify(z3.Contains(x, z3_str_const(c))))[0] != "unsat":
                return False
        if left is not None and CUR.query(z3.simplify(z3.Length(x) == 0))[0] != "unsat":
            gap = True
        else:
            left = None
    return True


def _mkstr(parts):
    parts = [x for x in parts if type(x) is not str or x]
    if not parts:
        return ""
    if len(parts) == 1 and type(parts[0]) is str:
        return parts[0]
    ts = [z3_str_const(x) if type(x) is str else x for x in parts]
    return SymStr(z3.Concat(*ts) if len(ts) > 1 else ts[0])


def _constint(x):
    if type(x) is SymNum:
        t = z3.simplify(x.t)
        return t.as_long() if z3.is_int_value(t) else None
    return int(x)


def _num_regexes():
    """What int() and float() accept among ASCII strings."""
    R, opt, star, plus, cat, alt = z3.Range, z3.Option, z3.Star, z3.Plus, z3.Concat, z3.Union
    ws = star(alt(z3.Re(" "), R("\t", "\r")))
    d = R("0", "9")
    ds = cat(d, star(cat(opt(z3.Re("_")), d)))
    sign = opt(alt(z3.Re("+"), z3.Re("-")))
    ci = lambda w: cat(*[alt(z3.Re(c), z3.Re(c.upper())) for c in w])  # noqa
    dot = z3.Re(".")
    exp = opt(cat(alt(z3.Re("e"), z3.Re("E")), sign, ds))
    body = alt(cat(alt(cat(ds, opt(cat(dot, opt(ds)))), cat(dot, ds)), exp), ci("inf"), ci("infinity"), ci("nan"))
    return cat(ws, sign, ds, ws), cat(ws, sign, body, ws), star(R("\x00", "\x7f"))


PY_INT, PY_FLOAT, ASCII = _num_regexes()


class SymStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return str

    def __bool__(self):
        return CUR.branch(self.t != z3.StringVal(""))

    def _o(self, o):
        if type(o) is SymStr:
            return o.t
        if isinstance(o, str):
            return z3_str_const(o)
        return None

    def __eq__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SymBool(self.t == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return SH

    def __add__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SymStr(z3.Concat(self.t, t))

    def __radd__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SymStr(z3.Concat(t, self.t))

    def __lt__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else SymBool(self.t < t)

    def __le__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else SymBool(self.t <= t)

    def __gt__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else SymBool(t < self.t)

    def __ge__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else SymBool(t <= self.t)

    def __contains__(self, o):  # native `in` (uninstrumented code)
        return bool(self.contains(o))

    def contains(self, o):
        return SymBool(z3.Contains(self.t, self._o(o)))

    def length(self):
        return SymNum(z3.Length(self.t))

    def __len__(self):
        return CUR.concretise_all(self.length())

    def __iter__(self):
        n = len(self)
        for i in range(n):
            yield SymStr(z3.SubString(self.t, i, 1))

    def __getitem__(self, k):
        L = z3.Length(self.t)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return self.conc()[k]
            a = 0 if k.start is None else _constint(k.start)
            b = None if k.stop is None else _constint(k.stop)
            if a is not None and a >= 0 and (k.stop is None or b is not None):
                ps = _parts(self.t)
                h = ps[0] if type(ps[0]) is str else ""
                if b is not None and 0 <= b <= len(h):
                    return h[a:b]
                if a <= len(h):
                    if b is None:
                        return _mkstr([h[a:]] + ps[1:] if h else ps)
                    if b < 0 and len(ps) > 1 and type(ps[-1]) is str and len(ps[-1]) >= -b:
                        return _mkstr(([h[a:]] + ps[1:-1] if h else ps[:-1]) + [ps[-1][:b]])

            def pos(x, d):
                if x is None:
                    return d
                x = x.t if type(x) is SymNum else z3.IntVal(int(x))
                x = z3.If(x < 0, z3.If(x + L < 0, 0, x + L), z3.If(x > L, L, x))
                return x

            a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, L)
            return SymStr(z3.If(b > a, z3.SubString(self.t, a, b - a), z3.StringVal("")))
        i = k.t if type(k) is SymNum else z3.IntVal(int(k))
        i = z3.If(i < 0, i + L, i)
        if not CUR.branch(z3.And(i >= 0, i < L)):
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self.t, i, 1))

    def conc(self):
        return CUR.concretise(self, "str")

    def startswith(self, p, *a):
        if a:
            return self.conc().startswith(deep_conc(p), *a)
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        return SymBool(z3.PrefixOf(self._o(p), self.t))

    def endswith(self, p, *a):
        if a:
            return self.conc().endswith(deep_conc(p), *a)
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        return SymBool(z3.SuffixOf(self._o(p), self.t))

    def find(self, s, start=0, *a):
        if a:
            return self.conc().find(deep_conc(s), start, *a)
        if type(s) is str and type(start) is int and start == 0:
            ps = _parts(self.t)
            p0 = ps[0]
            if type(p0) is str and s in p0:
                return p0.find(s)
            at = [k for k, x in enumerate(ps) if type(x) is str and s and s in x]
            if at and _apart(ps, s):
                return _lenof(ps[:at[0]]) + ps[at[0]].find(s)
        return SymNum(z3.IndexOf(self.t, self._o(s), start.t if type(start) is SymNum else z3.IntVal(start)))

    def index(self, s, *a):
        r = self.find(s, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, s, *a):
        if a or (isinstance(s, str) and type(s) is not SymStr and s == ""):
            return self.conc().rfind(deep_conc(s), *deep_conc(list(a)))
        pre, t = "", self.t
        if type(s) is str:
            # search a constant prefix concretely
            parts = _parts(t)
            if type(parts[-1]) is str and s in parts[-1]:
                n = parts[-1].rfind(s)
                return SymNum(z3.simplify(z3.Length(self.t) - (len(parts[-1]) - n)))
            at = [k for k, x in enumerate(parts) if type(x) is str and s in x]
            if at and _apart(parts, s):
                k = at[-1]
                return _lenof(parts[:k]) + parts[k].rfind(s)
            if type(parts[0]) is str:
                pre = parts.pop(0)
            if not parts:
                return -1
            keep = pre[max(0, len(pre) - (len(s) - 1)):] if len(s) > 1 else ""
            t = _mkstr([keep] + parts).t
            off = len(pre) - len(keep)
        else:
            off = 0
        ts = self._o(s)
        if not CUR.branch(z3.Contains(t, ts)):
            return pre.rfind(s) if pre else -1
        # one fork per further (possibly overlapping) occurrence, bounded by the string's length bound
        i = z3.IndexOf(t, ts, z3.IntVal(0))
        for _ in range(40):
            j = z3.IndexOf(t, ts, i + 1)
            if not CUR.branch(j >= 0):
                return SymNum(z3.simplify(i + off))
            i = z3.simplify(j)
        raise EngineLimit("rfind")

    def rindex(self, s, *a):
        r = self.rfind(s, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def replace(self, a, b, n=-1):
        if n == 1:
            return SymStr(z3.Replace(self.t, self._o(a), self._o(b)))
        out = []
        rest = self
        k = 0
        ta = self._o(a)
        if isinstance(a, str) and a == "":
            return self.conc().replace("", b, n)
        # unroll: one fork per occurrence (bounded by the string's length bound)
        while n < 0 or k < n:
            if not CUR.branch(z3.Contains(rest.t, ta)):
                break
            i = z3.IndexOf(rest.t, ta, z3.IntVal(0))
            out.append(z3.SubString(rest.t, 0, i))
            out.append(self._o(b))
            la = z3.Length(ta)
            rest = SymStr(z3.simplify(z3.SubString(rest.t, i + la, z3.Length(rest.t) - i - la)))
            k += 1
        out.append(rest.t)
        return SymStr(z3.Concat(*out) if len(out) > 1 else out[0])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc().split(None, maxsplit)
        out = []
        rest = self
        ts = self._o(sep)
        while maxsplit < 0 or len(out) < maxsplit:
            if type(sep) is str and sep:
                # separators in a constant prefix
                if type(rest) is str:
                    return out + rest.split(sep, maxsplit if maxsplit < 0 else maxsplit - len(out))
                ps = _parts(rest.t)
                if type(ps[0]) is str and sep in ps[0]:
                    h, _, ps[0] = ps[0].partition(sep)
                    out.append(h)
                    rest = _mkstr(ps)
                    continue
                if any(type(x) is str and sep in x for x in ps) and _apart(ps, sep):
                    cur = []
                    for x in ps:
                        if type(x) is not str:
                            cur.append(x)
                            continue
                        bits = x.split(sep, maxsplit if maxsplit < 0 else maxsplit - len(out))
                        for b in bits[:-1]:
                            out.append(_mkstr(cur + [b]))
                            cur = []
                        cur.append(bits[-1])
                    return out + [_mkstr(cur)]
            if not CUR.branch(z3.Contains(rest.t, ts)):
                break
            i = z3.IndexOf(rest.t, ts, z3.IntVal(0))
            out.append(SymStr(z3.SubString(rest.t, 0, i)))
            ls = z3.Length(ts)
            rest = SymStr(z3.simplify(z3.SubString(rest.t, i + ls, z3.Length(rest.t) - i - ls)))
        out.append(rest)
        return out

    def partition(self, sep):
        ts = self._o(sep)
        if not CUR.branch(z3.Contains(self.t, ts)):
            return (self, "", "")
        i = z3.IndexOf(self.t, ts, z3.IntVal(0))
        ls = z3.Length(ts)
        return (SymStr(z3.SubString(self.t, 0, i)), sep,
                SymStr(z3.SubString(self.t, i + ls, z3.Length(self.t) - i - ls)))

    def join(self, it):
        parts = list(it)
        out = []
        for i, p in enumerate(parts):
            if not isinstance(p, str):
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(p).__name__))
            if i:
                out.append(self.t)
            out.append(self._o(p))
        if not out:
            return ""
        return SymStr(z3.Concat(*out) if len(out) > 1 else out[0])

    def isdigit(self):
        return SymBool(z3.InRe(self.t, z3.Plus(z3.Range("0", "9"))))

    isnumeric = isdecimal = isdigit

    def to_int(self):
        t = self.t
        if CUR.branch(z3.InRe(t, z3.Plus(z3.Range("0", "9")))):
            return SymNum(z3.StrToInt(t))
        neg = z3.InRe(t, z3.Concat(z3.Re("-"), z3.Plus(z3.Range("0", "9"))))
        if CUR.branch(neg):
            return SymNum(-z3.StrToInt(z3.SubString(t, 1, z3.Length(t) - 1)))
        if CUR.branch(z3.InRe(t, PY_INT)):
            return int(CUR.concretise_all(self))
        if CUR.branch(z3.InRe(t, ASCII)):
            raise ValueError("invalid literal for int() with base 10")
        return int(self.conc())

    def to_float(self):
        t = self.t
        if CUR.branch(z3.InRe(t, z3.Plus(z3.Range("0", "9")))):
            return SymNum(z3.StrToInt(t), True)
        if CUR.branch(z3.InRe(t, PY_FLOAT)):
            return float(CUR.concretise_all(self))
        if CUR.branch(z3.InRe(t, ASCII)):
            raise ValueError("could not convert string to float")
        return float(self.conc())

    def _case(self, up):
        n = len(self)
        parts = []
        for i in range(n):
            c = z3.StrToCode(z3.SubString(self.t, i, 1))
            if up:
                c2 = z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
            else:
                c2 = z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
            parts.append(z3.StrFromCode(c2))
        if not parts:
            return ""
        return SymStr(z3.Concat(*parts) if n > 1 else parts[0])

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        cs = chars if isinstance(chars, str) and chars is not None else " \t\n\r"
        s = self
        for _ in range(64):
            if not (bool(s) and or_(*[s.startswith(c) for c in cs])):
                break
            s = s[1:]
        return s

    def rstrip(self, chars=None):
        cs = chars if isinstance(chars, str) and chars is not None else " \t\n\r"
        s = self
        for _ in range(64):
            if not (bool(s) and or_(*[s.endswith(c) for c in cs])):
                break
            s = s[:-1]
        return s

    def encode(self, *a):
        return self.conc().encode(*a)

    def format(self, *a, **k):
        return self.conc().format(*a, **k)

    def __mod__(self, o):
        return self.conc() % o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(str, name)  # AttributeError like str
        return lambda *a, **k: f(self.conc(), *deep_conc(a), **deep_conc(k))

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return "<symstr %s>" % (str(self.t)[:40],)

    def __format__(self, spec):
        return "<symstr>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, Sym) if False else type(x) in (SymBool, SymNum, SymStr)


def deep_conc(x):
    t = type(x)
    if t in (SymBool, SymNum, SymStr):
        return CUR.concretise(x, "builtin")
    if t is tuple:
        return tuple(deep_conc(y) for y in x)
    if t is list:
        return [deep_conc(y) for y in x]
    if t is dict:
        return {deep_conc(k): deep_conc(v) for k, v in x.items()}
    return x


def has_sym(x, depth=3):
    t = type(x)
    if t in (SymBool, SymNum, SymStr):
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_eq(a, b, depth=0):
    """Structural equality as a (possibly symbolic) boolean; distinguishes bool/number/str/None kinds."""
    ta, tb = type(a), type(b)
    if ta in (SymBool, SymNum, SymStr) or tb in (SymBool, SymNum, SymStr):
        ka, kb = _kind(a), _kind(b)
        if ka != kb:
            return False
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        bk = list(b.items())
        for k, v in a.items():
            alts = []
            for k2, v2 in bk:
                e = deep_eq(k, k2)
                if e is False:
                    continue
                alts.append(and_(e, deep_eq(v, v2, depth + 1)))
            cs.append(or_(*alts))
        return and_(*cs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return and_(*[deep_eq(x, y, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        def sub(x, y):
            return and_(*[or_(*[deep_eq(p, q) for q in y]) for p in x])
        return and_(sub(a, b), sub(b, a))
    if _kind(a) != _kind(b):
        return False
    r = a == b
    return bool(r)


def _kind(x):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, (int, float)):
        return "num"
    if isinstance(x, str):
        return "str"
    return "obj"
