"""Combining inputs: all / from_input / concat / secret / unsecret over nested inputs."""
import collections

from .lib import *

ANCHORS = ("pulumi.output.Output.from_input", "pulumi.output.Output.all", "pulumi.output.Output.concat",
           "pulumi.output.Output.secret", "pulumi.output.Output.unsecret", "pulumi.output._gather_from_dict",
           "pulumi.output.Output.is_secret", "pulumi.output.Output.future")
BOUNDS = ("input trees of depth <= 3 (leaf: symbolic string <=3, None, unknown; output with symbolic known/secret flags "
          "and 0-1 dependency; awaitable; coroutine; list of <=2; dict of <=2; subclasses of list and dict; input class with <=2 properties), "
          "combined by all(positional), all(named), from_input, concat, secret, unsecret; symbolic preview flag; all "
          "completion orders of up to 6 outstanding component futures; failing parts")
OUTSIDE = "wider/deeper trees; dict keys that are not strings (the SDK's own typing excludes them)"


class Tree:
    """Builds an input and its reference meaning (value, known, secret-lower, secret-upper, deps)."""

    def __init__(self, sx, loop, D, kinds, depth, ext=(), failing=False, leaves=None, cls=None,
                 keysets=None):
        self.keysets = keysets
        self.sx, self.loop, self.D, self.kinds, self.ext = sx, loop, D, kinds, ext
        self.n = 0
        self.toks = 0
        self.failing, self.failed = failing, False
        self.leaves = leaves or ["str", "none", "unk"]
        self.cls = cls
        self.depth = depth
        self.opaque = False  # an input class instance with an unknown property has no value in a preview

    def leaf(self, nm):
        from pulumi.output import UNKNOWN

        k = self.sx.choice(nm + ".leaf", self.leaves)
        if k == "str":
            return self.sx.str(nm + ".s", 3)
        if k == "num":
            return self.sx.int(nm + ".i", 0, 3)
        if k == "bool":
            return self.sx.bool(nm + ".b")
        if k == "none":
            return None
        if k == "empty":
            return []
        if k == "emptyd":
            return {}
        return UNKNOWN

    def keys(self, nm, n):
        return self.sx.choice(nm + ".keys", self.keysets)[:n] if self.keysets else ("b", "a")[:n]

    def build(self, nm, depth=None, kinds=None):
        """-> (input, thunk evaluating the reference meaning)"""
        sx = self.sx
        depth = self.depth if depth is None else depth
        ks = (kinds or self.kinds) if depth > 0 else ["leaf"]
        k = sx.choice(nm + ".kind", ks)
        if k == "leaf":
            v = self.leaf(nm)
            return v, ("leaf", v)
        if k == "output":
            K, S = sx.bool(nm + ".K"), sx.bool(nm + ".S")
            d = sx.choice(nm + ".deps", [0, 1])
            deps = set()
            if d:
                deps = {Tok(self.toks)}
                self.toks += 1
            fail = self.failing and sx.choice(nm + ".fail", [False, True])
            if fail:
                self.failed = True
                o = mk_output(self.loop, None, K, S, deps, exc=Boom(nm), ext=self.ext)
                return o, ("fail",)
            iv, im = self.build(nm + ".o", depth - 1)
            o = mk_output(self.loop, iv, K, S, deps, ext=self.ext)
            return o, ("out", has_unknown_raw(iv), im, K, S, deps)
        if k in ("await", "coro"):
            iv, im = self.build(nm + ".a", depth - 1)
            fail = self.failing and sx.choice(nm + ".fail", [False, True])
            if fail:
                self.failed = True
            if k == "await":
                f = fut(self.loop, iv, Boom(nm) if fail else None, ext=nm if self.ext else None)
                return quiet(f), ("fail",) if fail else im

            async def c():
                if fail:
                    raise Boom(nm)
                return iv

            return c(), ("fail",) if fail else im
        if k in ("list1", "list2"):
            ps = [self.build("%s.%d" % (nm, i), depth - 1) for i in range(int(k[-1]))]
            return [p[0] for p in ps], ("list", [p[1] for p in ps])
        if k == "sublist":
            v, m = self.build(nm + ".e", depth - 1)
            return type("Listed", (list,), {})([v]), ("list", [m])
        if k == "subdict":
            v, m = self.build(nm + ".e", depth - 1)
            return collections.OrderedDict(k=v), ("dict", {"k": m})
        if k in ("dict1", "dict2"):
            keys = self.keys(nm, int(k[-1]))
            ps = {key: self.build("%s.%s" % (nm, key), depth - 1) for key in keys}
            return {key: p[0] for key, p in ps.items()}, ("dict", {key: p[1] for key, p in ps.items()})
        if k == "input":
            ps = {key: self.build("%s.%s" % (nm, key), depth - 1) for key in ("first_value", "second")}
            return self.cls(**{key: p[0] for key, p in ps.items()}), ("input", {key: p[1] for key, p in ps.items()})
        raise AssertionError(k)

    def mean(self, m):
        """(value, known, secret lower bound, secret upper bound, deps lower, deps upper, known/value decided?)"""
        from pulumi.output import UNKNOWN

        sx = self.sx
        if m[0] == "leaf":
            return dict(v=m[1], k=not has_unknown(m[1]), s=False, S=False, d=set(), ok=True)
        if m[0] == "out":
            _, raw_unk, im, K, S, deps = m
            inner = self.mean(im)
            if not raw_unk and sx.concrete(sx.and_(self.D, sx.not_(K))):
                # value not known in this preview: its contents are never looked at
                return dict(v=UNKNOWN, k=False, s=S, S=sx.or_(S, inner["S"]), d=set(deps),
                            dmax=deps | inner.get("dmax", inner["d"]), ok=True)
            k = inner["k"]
            # an update never sees an unknown flag on a present value
            ok = inner["ok"] if raw_unk else sx.and_(inner["ok"], sx.or_(K, self.D))
            return dict(v=inner["v"], k=k, s=sx.or_(S, inner["s"]), S=sx.or_(S, inner["S"]),
                        d=deps | inner["d"], dmax=deps | inner.get("dmax", inner["d"]), ok=ok)
        items = m[1]
        ms = [self.mean(x) for x in (items.values() if isinstance(items, dict) else items)]
        r = dict(k=sx.and_(*[x["k"] for x in ms]), s=sx.or_(*[x["s"] for x in ms]), S=sx.or_(*[x["S"] for x in ms]),
                 d=set().union(*[x["d"] for x in ms]), dmax=set().union(*[x.get("dmax", x["d"]) for x in ms]),
                 ok=sx.and_(*[x["ok"] for x in ms]))
        if m[0] == "list":
            r["v"] = [x["v"] for x in ms]
        elif m[0] == "dict":
            r["v"] = dict(zip(items, [x["v"] for x in ms]))
        else:
            r["v"] = ("input", dict(zip(items, [x["v"] for x in ms])))
            if any(has_unknown(x["v"]) for x in ms):
                # unknowns are only meaningful in a preview
                r["ok"] = sx.and_(r["ok"], self.D)
                self.opaque = True
        return r


def has_unknown_raw(v):
    """Is an unknown visible in the value without awaiting anything?"""
    return has_unknown(v)


def match(sx, tree, got, exp):
    """got (a plain value) equals the reference value (which marks input class instances)."""
    if isinstance(exp, tuple) and exp and exp[0] == "input":
        if type(got) is not tree.cls:
            return False
        d = exp[1]
        return sx.and_(*[match(sx, tree, getattr(got, k), v) for k, v in d.items()])
    if isinstance(exp, dict):
        if not isinstance(got, dict) or list(got) != list(exp):
            return False
        return sx.and_(*[match(sx, tree, got[k], v) for k, v in exp.items()])
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return False
        return sx.and_(*[match(sx, tree, a, b) for a, b in zip(got, exp)])
    return same(sx, got, exp)


def mk_cls():
    import pulumi

    @pulumi.input_type
    class Args:
        def __init__(self, first_value=None, second=None):
            if first_value is not None:
                pulumi.set(self, "first_value", first_value)
            if second is not None:
                pulumi.set(self, "second", second)

        @property
        @pulumi.getter(name="firstValue")
        def first_value(self):
            return pulumi.get(self, "first_value")

        @property
        @pulumi.getter
        def second(self):
            return pulumi.get(self, "second")

    return Args


def check(sx, tree, got, exp, secret="or"):
    D = tree.D
    sx.check(got.exc is None, "no-exception", lambda: got.exc)
    if secret == "or":
        sx.check(sx.implies(exp["s"], got.secret), "secret-if-any-part-secret", lambda: (got, exp))
        sx.check(sx.implies(got.secret, exp["S"]), "not-secret-if-no-part-secret", lambda: (got, exp))
    else:
        sx.check(sx.iff(got.secret, secret), "secret-forced", lambda: got)
    sx.check(sx.implies(exp["ok"], sx.iff(got.known, exp["k"])), "known-iff-all-parts-known", lambda: (got, exp))
    sx.check(exp["d"] <= got.deps, "deps-contain-union", lambda: (got.deps, exp["d"]))
    sx.check(got.deps <= exp.get("dmax", exp["d"]), "deps-only-union", lambda: (got.deps, exp["d"]))
    if not tree.opaque or sx.concrete(exp["k"]):
        sx.check(match(sx, tree, got.value, exp["v"]), "value", lambda: (got.value, exp["v"]))


def run(sx, main, preempt=0):
    _, exc, loop = run_loop(sx, main, preempt=preempt)
    if isinstance(exc, Hang):
        sx.check(False, "never-hangs", lambda: loop.fired)
    elif exc is not None:
        raise exc


def combine_cell(sx, ops, kinds, depth, n=1, ext=(), failing=False, leaves=None, inner_kinds=None, preempt=0,
                 keysets=None, names=("k1", "k0", "a")):
    from pulumi import Output

    D = sx.bool("dry_run")
    configure(dry_run=D)
    cls = mk_cls() if "input" in kinds else None

    async def main(loop):
        t = Tree(sx, loop, D, inner_kinds or kinds, depth, ext, failing, leaves, cls, keysets)
        op = sx.choice("op", ops)
        parts = [t.build("p%d" % i, kinds=kinds) for i in range(n)]
        xs, ms = [p[0] for p in parts], [p[1] for p in parts]
        sec = "or"
        if op == "all":
            r, m = Output.all(*xs), ("list", ms)
        elif op == "allkw":
            ks = sx.choice("names", keysets) if keysets else names
            r, m = Output.all(**dict(zip(ks, xs))), ("dict", dict(zip(ks, ms)))
        elif op == "all-same":
            r, m = Output.all(xs[0], xs[0], xs[0]), ("list", [ms[0]] * 3)
        elif op == "from_input":
            r, m = Output.from_input(xs[0]), ms[0]
        elif op == "secret":
            r, m, sec = Output.secret(xs[0]), ms[0], True
        elif op == "unsecret":
            r, m, sec = Output.unsecret(Output.from_input(xs[0])), ms[0], False
        elif op == "unsecret-secret":
            r, m, sec = Output.unsecret(Output.secret(xs[0])), ms[0], False
        elif op == "secret-unsecret":
            r, m, sec = Output.secret(Output.unsecret(Output.from_input(xs[0]))), ms[0], True
        elif op == "all-secret":
            r, m, sec = Output.all(*[Output.secret(x) for x in xs]), ("list", ms), True
        else:
            raise AssertionError(op)
        got = await observe(r)
        if t.failed:
            # a failing part that is reachable makes the whole fail: it never yields a value
            sx.check(isinstance(got.exc, Boom) or got.exc is None, "failure-kind", lambda: got.exc)
            if got.exc is None:
                sx.check(not definitely_failed(sx, t, m), "failure-propagates", lambda: got)
            return
        check(sx, t, got, t.mean(m), sec)

    run(sx, main, preempt)


def definitely_failed(sx, t, m):
    """A failing part not hidden behind an output that is unknown in this preview."""
    if m[0] == "fail":
        return True
    if m[0] == "leaf":
        return False
    if m[0] == "out":
        if not m[1] and sx.concrete(sx.and_(t.D, sx.not_(m[3]))):
            return False
        return definitely_failed(sx, t, m[2])
    return any(definitely_failed(sx, t, x) for x in (m[1].values() if isinstance(m[1], dict) else m[1]))


def concat_cell(sx, n=3):
    from pulumi import Output

    D = sx.bool("dry_run")
    configure(dry_run=D)

    async def main(loop):
        xs, exp, known, sec, deps = [], "", True, False, set()
        for i in range(n):
            k = sx.choice("k%d" % i, ["str", "output", "await"])
            s = sx.str("s%d" % i, 2)
            exp = exp + s
            if k == "output":
                K, S = sx.bool("K%d" % i), sx.bool("S%d" % i)
                known, sec = sx.and_(known, K), sx.or_(sec, S)
                tk = Tok(i)
                deps.add(tk)
                xs.append(mk_output(loop, s, K, S, [tk]))
            elif k == "await":
                xs.append(fut(loop, s))
            else:
                xs.append(s)
        got = await observe(Output.concat(*xs))
        sx.check(got.exc is None, "concat-no-exception", lambda: got.exc)
        sx.check(sx.iff(got.secret, sec), "concat-secret", lambda: got)
        sx.check(got.deps == deps, "concat-deps", lambda: got)
        sx.check(sx.implies(D, sx.iff(got.known, known)), "concat-known", lambda: got)
        if sx.concrete(sx.or_(sx.not_(D), known)):
            sx.check(sx.eq(got.value, exp), "concat-value", lambda: (got.value, exp))

    run(sx, main)


def mixed_cell(sx):
    """Positional and named inputs cannot be mixed; no inputs at all is the known empty list."""
    from pulumi import Output

    configure(dry_run=sx.bool("D"))

    async def main(loop):
        a, b = sx.str("a", 2), sx.str("b", 2)
        n = sx.choice("n", [1, 2])
        try:
            Output.all(*([a] * n), k=b)
            ok = False
        except ValueError:
            ok = True
        sx.check(ok, "mixed-rejected")
        got = await observe(Output.all())
        sx.check(got.exc is None and got.value == [] and got.known and not got.secret and not got.deps, "all-empty",
                 lambda: got)

    run(sx, main)


def wide_cell(sx, n, ops, ext=False):
    """Many parts: any one of them decides, wherever it is."""
    from pulumi import Output
    from pulumi.output import UNKNOWN

    D = sx.concrete(sx.bool("D"))
    configure(dry_run=D)

    async def main(loop):
        op = sx.choice("op", ops)
        toks = [Tok(i) for i in range(n + 2)]
        # what is special, and where
        what = sx.choice("what", ["nothing", "secret", "unknown", "unknown-value", "dep", "shared-deps", "fails", "two"])
        at = sx.int("at", 0, n - 1)
        at = [i for i in range(n) if sx.concrete(sx.eq(at, i))][0]
        exc = Boom("part")
        form = sx.choice("form", ["output", "nested", "mixed"])
        xs, deps, vals = [], set(), []
        for i in range(n):
            on = i == at
            v = "v%d" % i
            if form == "mixed" and not on and i % 2:
                xs.append(v if i % 4 == 1 else fut(loop, v))
                vals.append(v)
                continue
            ds = [toks[i]] if what == "dep" and (on or i == 0) else [toks[0], toks[n + 1], toks[i]][:2 + on] if what == "shared-deps" else []
            deps.update(ds)
            unk = on and what.startswith("unknown")
            o = mk_output(loop, None if on and what == "fails" else (UNKNOWN if what == "unknown-value" else None) if unk and D else v,
                          not (on and what == "unknown"), on and what in ("secret", "two") or what == "two" and i == (at + 2) % n, ds,
                          exc=exc if on and what == "fails" else None)
            xs.append({"k": [o]} if form == "nested" else o)
            vals.append({"k": [v]} if form == "nested" else v)
        if op == "all":
            got, exp = Output.all(*xs), vals
        elif op == "allkw":
            got, exp = Output.all(**{"k%d" % i: x for i, x in enumerate(xs)}), {"k%d" % i: x for i, x in enumerate(vals)}
        elif op == "list":
            got, exp = Output.from_input(xs), vals
        else:
            got, exp = Output.from_input({"k%d" % i: x for i, x in enumerate(xs)}), {"k%d" % i: x for i, x in enumerate(vals)}
        g = await observe(got)
        if what == "fails":
            sx.check(g.exc is exc, "fails-if-a-part-fails", lambda: g)
            return
        sx.check(g.exc is None, "no-exception", lambda: g.exc)
        sx.check(g.secret is (what in ("secret", "two")), "secret-iff-a-part-is", lambda: (what, at, g))
        sx.check(g.deps == deps, "all-dependencies", lambda: (deps, g.deps))
        if D:
            sx.check(g.known is not what.startswith("unknown"), "known-iff-all-parts-known", lambda: (what, at, g))
        if not (D and what.startswith("unknown")):
            sx.check(g.value == exp, "value", lambda: (exp, g.value))

    run(sx, main)


def wide_flags(sx, n, ops):
    """Many outputs, each of which may be secret or not known."""
    from pulumi import Output

    D = sx.concrete(sx.bool("D"))
    configure(dry_run=D)

    async def main(loop):
        op = sx.choice("op", ops)
        S, K = [sx.bool("s%d" % i) for i in range(n)], [sx.bool("k%d" % i) for i in range(n)]
        toks = [Tok(i) for i in range(n)]
        xs = [mk_output(loop, "v%d" % i, K[i], S[i], [toks[i]]) for i in range(n)]
        got = {"all": lambda: Output.all(*xs), "allkw": lambda: Output.all(**{"k%d" % i: x for i, x in enumerate(xs)}),
               "list": lambda: Output.from_input([xs[:1], xs[1:]]), "concat": lambda: Output.concat(*xs)}[op]()
        g = await observe(got)
        sx.check(g.exc is None, "no-exception", lambda: g.exc)
        sx.check(sx.iff(g.secret, sx.or_(*S)), "secret-iff-a-part-is", lambda: g)
        sx.check(g.deps == set(toks), "all-dependencies", lambda: g.deps)
        if D:
            sx.check(sx.iff(g.known, sx.and_(*K)), "known-iff-all-parts-known", lambda: g)

    run(sx, main)


K_ALL = ["leaf", "output", "await", "coro", "list1", "list2", "dict1", "dict2", "input"]
KEYS = [("b", "a", "c"), ("items", "args", "kwargs"), ("_x", "__y", "id"), ("z", "a-b", "")]
E4 = ("val", "known", "sec", "res")
CELLS = [
    Cell("flat-pair", combine_cell, dict(ops=["all", "allkw"], kinds=["leaf", "output", "await"], depth=1, n=2),
         weight=2),
    Cell("flat-triple", combine_cell, dict(ops=["all", "allkw"], kinds=["leaf", "output"], depth=1, n=3,
                                           leaves=["str"])),
    Cell("nested", combine_cell, dict(ops=["from_input", "secret", "unsecret"], kinds=K_ALL, depth=2,
                                      inner_kinds=["leaf", "output", "list1", "dict2", "await"],
                                      leaves=["str", "unk"]), weight=3),
    Cell("nested-all", combine_cell, dict(ops=["all-secret"], kinds=K_ALL, depth=1, leaves=["str", "none"])),
    Cell("secret-compose", combine_cell, dict(ops=["unsecret-secret", "secret-unsecret"], kinds=K_ALL, depth=1,
                                              leaves=["str", "unk"])),
    Cell("leaves", combine_cell, dict(ops=["from_input", "all", "secret"], kinds=["leaf", "output"], depth=1,
                                      leaves=["str", "num", "bool", "none", "empty", "emptyd", "unk"])),
    Cell("deep", combine_cell, dict(ops=["from_input"], kinds=["output", "list1", "dict1", "await"], depth=4,
                                    leaves=["str", "unk"]), weight=3),
    Cell("orders-output", combine_cell, dict(ops=["all", "secret"], kinds=["output"], depth=1, ext=E4, n=1,
                                             leaves=["str", "unk"]), weight=2),
    Cell("orders-pair", combine_cell, dict(ops=["all"], kinds=["output"], depth=1, ext=("val", "known", "sec"), n=2,
                                           leaves=["str"]), weight=3, tiers=("thorough",)),
    Cell("orders-pair2", combine_cell, dict(ops=["all"], kinds=["output"], depth=1, ext=("val", "sec"), n=2,
                                            leaves=["str"]), weight=3),
    Cell("failing", combine_cell, dict(ops=["all", "from_input"], kinds=["output", "await", "coro", "list2"], depth=2,
                                       failing=True, leaves=["str"]), weight=2),
    Cell("keys", combine_cell, dict(ops=["from_input", "secret"], kinds=["dict2"], inner_kinds=["leaf", "output", "dict2"],
                                    depth=2, leaves=["str"], keysets=KEYS), weight=2),
    Cell("keys-all", combine_cell, dict(ops=["allkw"], kinds=["leaf", "output"], n=3, depth=1, leaves=["str", "empty"],
                                        keysets=KEYS)),
    Cell("shared-part", combine_cell, dict(ops=["all-same"], kinds=["output", "list2", "dict2"], depth=2,
                                           inner_kinds=["leaf", "output"], leaves=["str", "unk"])),
    Cell("subclasses", combine_cell, dict(ops=["from_input", "secret", "all"], kinds=["sublist", "subdict", "output"], depth=3, leaves=["str"])),
    Cell("concat", concat_cell),
    Cell("mixed", mixed_cell),
    Cell("wide", wide_cell, dict(n=9, ops=["all", "allkw", "list", "dict"])),
    Cell("wide-flags", wide_flags, dict(n=7, ops=["all", "allkw", "list", "concat"])),
    Cell("wide-20", wide_cell, dict(n=20, ops=["all", "dict"]), tiers=("thorough",)),
]
