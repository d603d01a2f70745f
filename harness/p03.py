"""Serialization of inputs for the engine: secrecy, unknowns, dependencies, resource references, assets."""
from .lib import *

ANCHORS = ("pulumi.runtime.rpc.serialize_propert", "pulumi.runtime.rpc.isLegalProtobufValue",
           "pulumi.runtime.settings.monitor_supports", "pulumi.runtime.rpc._get_list_element_type")
BOUNDS = ("input trees of depth <= 3 (symbolic strings <=3, numbers, booleans, None, unknown, lists/dicts of <=2, "
          "awaitables, coroutines, outputs with symbolic known/secret flags and <=1 dependency, custom and component "
          "resources with symbolic urn/known id, six asset and archive kinds); all 8 combinations of engine feature "
          "support; all completion orders of <=6 outstanding futures including feature probes; two concurrent "
          "serializations of one shared output")
OUTSIDE = "wider/deeper trees; tuple/sequence subclasses other than list"

KEYS = ["_id", "_", "id", "urn", "a__b", "aB", "", "value", "secret", "__provider", "__defaults", SIG + "x", "0"]
FEATS = ("secrets", "resourceReferences", "outputValues")


class Gen:
    def __init__(self, sx, loop, feats, kinds, leaves, ext=(), resext=()):
        self.sx, self.loop, self.feats, self.kinds, self.leaves, self.ext = sx, loop, feats, kinds, leaves, ext
        self.resext = resext
        self.n = 0
        self.urns = []  # (custom resource, urn)

    def newres(self, nm, custom=True):
        self.n += 1
        u = "urn:r%d" % self.n
        r = mk_resource(self.loop, u, custom, "id%d" % self.n if custom else None, ext=self.resext)
        self.urns.append((r, u))
        return r, u

    def build(self, nm, depth, kinds=None):
        """-> (input, meaning)"""
        sx = self.sx
        k = sx.choice(nm + ".kind", (kinds or self.kinds) if depth > 0 else ["leaf"])
        if k == "leaf":
            from pulumi.output import UNKNOWN

            lk = sx.choice(nm + ".leaf", self.leaves)
            v = {"str": lambda: sx.str(nm + ".s", 3), "num": lambda: sx.int(nm + ".i", 0, 3), "none": lambda: None,
                 "bool": lambda: sx.bool(nm + ".b"), "unk": lambda: UNKNOWN, "float": lambda: 1.5,
                 "empty": lambda: [], "emptyd": lambda: {}}[lk]()
            return v, ("unk",) if lk == "unk" else ("list", []) if lk == "empty" else ("dict", {}) \
                if lk == "emptyd" else ("leaf", v)
        if k == "output":
            K, S = sx.bool(nm + ".K"), sx.bool(nm + ".S")
            deps = [self.newres(nm + ".d")] if sx.choice(nm + ".deps", [0, 1]) else []
            iv, im = self.build(nm + ".o", depth - 1)
            o = mk_output(self.loop, iv, K, S, [d[0] for d in deps], ext=self.ext)
            return o, ("out", has_unknown(iv), im, K, S, deps)
        if k in ("await", "coro"):
            iv, im = self.build(nm + ".a", depth - 1)
            if k == "await":
                return fut(self.loop, iv, ext=nm if self.ext else None), im

            async def c():
                return iv

            return c(), im
        if k in ("list1", "list2"):
            ps = [self.build("%s.%d" % (nm, i), depth - 1) for i in range(int(k[-1]))]
            return [p[0] for p in ps], ("list", [p[1] for p in ps])
        if k in ("dict1", "dict2"):
            ps = {key: self.build("%s.%s" % (nm, key), depth - 1) for key in ("a", "b_c")[:int(k[-1])]}
            return {key: p[0] for key, p in ps.items()}, ("dict", {key: p[1] for key, p in ps.items()})
        if k == "keys":
            key = sx.choice(nm + ".key", KEYS)
            v, m = self.build("%s.%s" % (nm, key), depth - 1)
            return {"z": "z", key: v}, ("dict", {"z": ("leaf", "z"), key: m})
        if k in ("custom", "component"):
            self.n += 1
            u = sx.str(nm + ".urn", 4, 1)
            kid = sx.bool(nm + ".idknown") if k == "custom" else None
            rid = sx.str(nm + ".id", 3, 1)
            r = mk_resource(self.loop, u, k == "custom", rid, kid, ext=self.resext)
            if k == "custom":
                self.urns.append((r, u))
            return r, ("res", r, u, kid, rid)
        if k == "asset":
            import pulumi

            a = sx.choice(nm + ".asset", ["file", "string", "remote"])
            s = sx.str(nm + ".s", 3)
            v = {"file": pulumi.FileAsset, "string": pulumi.StringAsset, "remote": pulumi.RemoteAsset}[a](s)
            return v, ("sig", ASSET, {"file": "path", "string": "text", "remote": "uri"}[a], ("leaf", s))
        if k == "archive":
            import pulumi

            a = sx.choice(nm + ".arch", ["file", "remote", "assets"])
            s = sx.str(nm + ".s", 3)
            if a == "assets":
                v = pulumi.AssetArchive({"x_y": pulumi.StringAsset(s), "n": pulumi.AssetArchive({})})
                return v, ("sig", ARCHIVE, "assets", ("dict", {
                    "x_y": ("sig", ASSET, "text", ("leaf", s)), "n": ("sig", ARCHIVE, "assets", ("dict", {}))}))
            v = {"file": pulumi.FileArchive, "remote": pulumi.RemoteArchive}[a](s)
            return v, ("sig", ARCHIVE, {"file": "path", "remote": "uri"}[a], ("leaf", s))
        raise AssertionError(k)

    def ser(self, m, kov, deps, tr=None):
        """Reference serialization; collects dependencies in `deps`."""
        sx, t = self.sx, m[0]
        if t == "leaf":
            return m[1]
        if t == "unk":
            return UNKNOWN_WIRE
        if t == "list":
            return [self.ser(x, kov, deps, tr) for x in m[1]]
        if t == "dict":
            return {(tr(k) if tr else k): self.ser(x, kov, deps, tr) for k, x in m[1].items()}
        if t == "sig":
            return {SIG: m[1], m[2]: self.ser(m[3], False, deps, tr)}
        if t == "res":
            _, r, u, kid, rid = m
            deps.add(r)
            i = None
            if kid is not None:
                i = rid if sx.concrete(kid) else UNKNOWN_WIRE
            if self.feats["resourceReferences"]:
                d = {SIG: RESOURCE, "urn": u}
                if kid is not None:
                    d["id"] = i
                return d
            return i if kid is not None else u
        if t == "out":
            _, raw_unk, im, K, S, ds = m
            mine = {d[0] for d in ds}
            if raw_unk:
                inner, known = None, False
            else:
                inner, known = self.ser(im, False, mine, tr), sx.concrete(K)
            deps |= mine
            if kov and self.feats["outputValues"]:
                o = {SIG: OUTPUT}
                if known:
                    o["value"] = inner
                if sx.concrete(S):
                    o["secret"] = True
                # a component without children stands for nothing
                urns = [(r, u) for r, u in self.urns if r in mine]
                if urns:
                    o["dependencies"] = ("urns", urns)
                return o
            if not known:
                return UNKNOWN_WIRE
            if self.feats["secrets"] and sx.concrete(S):
                return {SIG: SECRET, "value": inner}
            return inner
        raise AssertionError(t)


def eq(sx, got, exp):
    got = plain(got)
    if isinstance(exp, tuple) and exp[0] == "urns":
        us = [u for r, u in exp[1]]
        if not isinstance(got, list) or len(got) != len(us):
            return False
        if all(type(u) is str for u in us):
            return got == sorted(us)
        return sx.and_(*[sx.or_(*[sx.eq(g, u) for g in got]) for u in us])
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(got) != set(exp):
            return False
        return sx.and_(*[eq(sx, got[k], v) for k, v in exp.items()])
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return False
        return sx.and_(*[eq(sx, a, b) for a, b in zip(got, exp)])
    return wire_eq(sx, got, exp)


def feature_monitor(sx, which=FEATS, fixed=None):
    feats = {}
    for f in FEATS:
        if fixed is not None and f in fixed:
            feats[f] = fixed[f]
        else:
            feats[f] = sx.concrete(sx.bool("feat." + f)) if f in which else False
    return feats, Monitor(feats)


def prop_cell(sx, kinds, depth, leaves, kovs=(False,), which=FEATS, fixed=None, ext=(), resext=(), top=None, pre=True):
    """One property through serialize_property."""
    from pulumi.runtime import rpc

    feats, mon = feature_monitor(sx, which, fixed)
    D = sx.bool("dry_run")
    configure(dry_run=D, monitor=mon)
    kov = sx.choice("kov", list(kovs))

    async def main(loop):
        if pre:  # probe features up front so that only the harness' own futures are unordered
            from pulumi.runtime import settings

            for f in FEATS:
                await settings.monitor_supports_feature(f)
        g = Gen(sx, loop, feats, kinds, leaves, ext, resext)
        v, m = g.build("v", depth, top)
        deps = []
        got = await rpc.serialize_property(v, deps, None, keep_output_values=kov)
        ed = set()
        exp = g.ser(m, kov, ed)
        sx.check(eq(sx, got, exp), "serialized-value", lambda: (plain(got), exp))
        sx.check(ed <= set(deps), "all-dependencies-collected", lambda: (deps, ed))
        sx.check(set(deps) <= ed, "no-foreign-dependencies", lambda: (deps, ed))
        for f in FEATS:
            n = len([1 for _, r in mon.requests if r.id == f])
            sx.check(n <= 1 or not pre, "feature-probed-once", lambda: mon.requests)

    run(sx, main)


def props_cell(sx, kinds, depth, leaves, n=2, kovs=(False,), transform=False, names=None,
               which=("secrets",)):
    """A whole property bag: None dropped at top level, per-property dependencies, translation of names."""
    from pulumi.runtime import rpc

    feats, mon = feature_monitor(sx, which=which, fixed={
        "resourceReferences": True, "outputValues": True, **({} if which else {"secrets": True})})
    configure(dry_run=sx.bool("dry_run"), monitor=mon)
    tr = (lambda k: {"b_c": "bC", "p_1": "p1"}.get(k, k)) if transform else None
    kov = sx.choice("kov", list(kovs))

    async def main(loop):
        g = Gen(sx, loop, feats, kinds, leaves)
        bag, ms = {}, {}
        for i in range(n):
            nm = sx.choice("name", names) if names and i == 0 else "p_%d" % i
            bag[nm], ms[nm] = g.build("p%d" % i, depth)
        pd = {}
        got = plain(await rpc.serialize_properties(bag, pd, tr, keep_output_values=kov))
        for k, m in ms.items():
            ed = set()
            exp = g.ser(m, kov, ed, tr)
            tk = tr(k) if tr else k
            if exp is None:
                sx.check(tk not in got and k not in got, "none-property-omitted", lambda: got)
                sx.check(tk not in pd, "none-property-has-no-deps", lambda: pd)
                continue
            sx.check(tk in got, "property-present", lambda: (got, tk))
            sx.check(eq(sx, got.get(tk), exp), "property-value", lambda: (got, exp))
            sx.check(set(pd.get(tk, ())) == ed and tk in pd, "property-dependencies", lambda: (pd, ed))
        sx.check(len(got) <= n and set(got) == set(pd), "no-extra-properties", lambda: got)

    run(sx, main)


def illegal_cell(sx):
    """Values that cannot be represented are refused, never silently dropped or coerced."""
    from pulumi.runtime import rpc
    import enum

    feats, mon = feature_monitor(sx)
    configure(dry_run=False, monitor=mon)
    E = enum.Enum("E", {"A": 1})
    bad = {"tuple": (1, 2), "set": {1}, "bytes": b"x", "object": object(), "range": range(2), "complex": 1j,
           "enum": E.A, "bytearray": bytearray(b"x"), "type": int, "function": len}

    async def main(loop):
        b = bad[sx.choice("bad", list(bad))]
        where = sx.choice("where", ["top", "list", "dict", "output", "await", "prop"])
        s = sx.str("s", 2)
        v = {"top": lambda: b, "list": lambda: [s, b], "dict": lambda: {"k": s, "b": b},
             "output": lambda: mk_output(loop, [b], True, sx.bool("S")), "await": lambda: fut(loop, b),
             "prop": lambda: b}[where]()
        try:
            if where == "prop":
                r = await rpc.serialize_properties({"x": v}, {})
            else:
                r = await rpc.serialize_property(v, [])
            ok = False
        except ValueError:
            ok = True
        sx.check(ok, "illegal-value-rejected", lambda: r)

    run(sx, main)


def fail_cell(sx):
    """A failing part makes serialization fail (never a partial payload)."""
    from pulumi.runtime import rpc

    feats, mon = feature_monitor(sx)
    configure(dry_run=sx.bool("D"), monitor=mon)

    async def main(loop):
        how = sx.choice("how", ["await", "output", "coro", "urn"])
        if how == "await":
            b = quiet(fut(loop, None, Boom(), ext="f"))
        elif how == "output":
            b = mk_output(loop, None, True, False, [], exc=Boom(), ext=("val",))
        elif how == "coro":
            async def c():
                raise Boom()

            b = c()
        else:
            b = mk_resource(loop, None)
            b.__dict__["urn"] = mk_output(loop, None, True, False, [b], exc=Boom())
            b.__dict__["id"] = mk_output(loop, None, True, False, [b], exc=Boom())
        where = sx.choice("where", ["top", "list", "dict", "output"])
        v = {"top": lambda: b, "list": lambda: ["x", b], "dict": lambda: {"a": b},
             "output": lambda: mk_output(loop, [b])}[where]()
        try:
            r = await rpc.serialize_properties({"x": v, "y": "ok"}, {}, keep_output_values=sx.choice("kov",
                                                                                                  [False, True]))
            ok = False
        except Boom:
            ok = True
        sx.check(ok, "failure-propagates", lambda: plain(r))

    run(sx, main)


def shared_cell(sx, kov=(True, False)):
    """Concurrent serializations of outputs derived from one another do not disturb each other's dependencies."""
    import asyncio

    from pulumi.runtime import rpc

    feats, mon = feature_monitor(sx, which=(), fixed={"secrets": True, "resourceReferences": True,
                                                      "outputValues": True})
    configure(dry_run=sx.bool("D"), monitor=mon)

    async def main(loop):
        from pulumi.runtime import settings

        for f in FEATS:
            await settings.monitor_supports_feature(f)
        s = sx.str("s", 2)
        r1 = mk_resource(loop, "urn:1", True, "id1", ext=("val",))
        r2 = mk_resource(loop, "urn:2", True, "id2")
        nested = mk_output(loop, s, True, sx.bool("S"), [r2], ext=("res",))
        o = mk_output(loop, s, True, False, [r1])
        inner = sx.choice("inner", ["output", "resource", "plain"])
        val = {"output": nested, "resource": r2, "plain": s}[inner]
        p = o.apply(lambda v: {"k": val})

        async def one(x, kv):
            d = []
            got = await rpc.serialize_property(x, d, None, keep_output_values=kv)
            return plain(got), set(d)

        rs = await asyncio.gather(one(p, kov[0]), one(p, kov[1]), one(o, kov[0]), return_exceptions=True)
        for x in rs:
            if isinstance(x, Exception):
                sx.check(False, "concurrent-serialization-succeeds", lambda: repr(x))
                return
        ep = {r1, r2} if inner != "plain" else {r1}
        sx.check(rs[0][1] == ep and rs[1][1] == ep, "concurrent-deps", lambda: rs)
        again = await one(o, kov[1])
        sx.check(rs[2][1] == {r1} and again[1] == {r1}, "no-spurious-dependencies", lambda: (rs, again))
        if kov[0]:
            sx.check(rs[2][0].get("dependencies") == ["urn:1"], "no-spurious-output-dependencies", lambda: rs)

    run(sx, main)


def wide_cell(sx, n):
    """Long lists and large maps, with outputs that depend on many resources: position and number make no difference."""
    from pulumi.runtime import rpc

    kov = sx.choice("kov", [False, True])
    feats, mon = feature_monitor(sx, fixed={"resourceReferences": True})
    configure(dry_run=sx.concrete(sx.bool("D")), monitor=mon)

    async def main(loop):
        at = sx.int("at", 0, n - 1)
        at = [i for i in range(n) if sx.concrete(sx.eq(at, i))][0]
        K, S, s = sx.concrete(sx.bool("K")), sx.concrete(sx.bool("S")), sx.str("s", 2)
        rs = [mk_resource(loop, "urn:%02d" % i, True, "id%d" % i) for i in range(n + 2)]
        form = sx.choice("form", ["list", "dict", "output-list"])
        nd = sx.choice("ndeps", [n + 2, 0])
        ed = set(rs[:nd])
        o = mk_output(loop, s if K else None, K, S, rs[:nd])
        items = [o if i == at else mk_output(loop, i, True, False, [rs[i]]) if i % 3 == 0 else rs[i] if i % 3 == 1 else "v%d" % i for i in range(n)]
        ed.update(rs[i] for i in range(n) if i != at and i % 3 < 2)
        keep = kov and feats["outputValues"]

        def out(v, known, secret, urns):
            if keep and form != "output-list":
                d = {SIG: OUTPUT}
                if known:
                    d["value"] = v
                if secret:
                    d["secret"] = True
                if urns:
                    d["dependencies"] = urns
                return d
            return UNKNOWN_WIRE if not known else {SIG: SECRET, "value": v} if secret and feats["secrets"] else v

        exp = [out(s, K, S, ["urn:%02d" % j for j in range(nd)]) if i == at else out(i, True, False, ["urn:%02d" % i]) if i % 3 == 0
               else {SIG: RESOURCE, "urn": "urn:%02d" % i, "id": "id%d" % i} if i % 3 == 1 else "v%d" % i for i in range(n)]
        value = items
        if form == "dict":
            value, exp = {"k%d" % i: x for i, x in enumerate(items)}, {"k%d" % i: x for i, x in enumerate(exp)}
        elif form == "output-list":
            # (the list itself is the value of an output, of which the parts are serialized as they are)
            value = mk_output(loop, items, True, False, [])
            if keep:
                exp = {SIG: OUTPUT, "value": exp, "dependencies": sorted("urn:%02d" % j for j in range(n + 2) if rs[j] in ed)}
        deps = []
        got = await rpc.serialize_property(value, deps, None, keep_output_values=kov)
        sx.check(eq(sx, got, exp), "serialized-value", lambda: (plain(got), exp))
        sx.check(set(deps) == ed, "all-dependencies-collected", lambda: (deps, ed))

    run(sx, main)


L1 = ["str", "num", "none", "bool", "unk", "float", "empty", "emptyd"]
CELLS = [
    Cell("leaves", prop_cell, dict(kinds=["leaf", "output", "await", "coro"], depth=2, leaves=L1,
                                   kovs=(False, True))),
    Cell("nested", prop_cell, dict(kinds=["leaf", "output", "list2", "dict2", "await"], depth=2,
                                   leaves=["str", "unk", "none"], kovs=(False, True), which=("secrets",
                                                                                              "outputValues")),
         weight=3),
    Cell("deep", prop_cell, dict(kinds=["output", "list1", "dict1"], depth=3, leaves=["str", "unk"],
                                 kovs=(False, True), which=("secrets", "outputValues")), weight=2),
    Cell("deep4", prop_cell, dict(kinds=["output", "list1", "dict1", "await"], depth=4, leaves=["str", "unk"],
                                  kovs=(False, True), which=("secrets", "outputValues")), weight=4,
         tiers=("thorough",)),
    Cell("resources", prop_cell, dict(kinds=["custom", "component", "output", "list1", "dict1", "await"], depth=2,
                                      leaves=["str"], kovs=(False, True)), weight=2),
    Cell("assets", prop_cell, dict(kinds=["asset", "archive", "output", "list1", "dict1"], depth=2, leaves=["str"],
                                   kovs=(False, True), which=("secrets", "outputValues"))),
    Cell("orders", prop_cell, dict(kinds=["output"], depth=1, leaves=["str", "unk"], kovs=(False, True),
                                   ext=("val", "known", "sec", "res"), which=("secrets", "outputValues")), weight=2),
    Cell("orders-features", prop_cell, dict(kinds=["output", "list2"], depth=2, leaves=["str"], kovs=(False, True),
                                            which=("secrets", "outputValues"), pre=False)),
    Cell("orders-resource", prop_cell, dict(kinds=["custom", "output"], depth=2, leaves=["str"], kovs=(True,),
                                            resext=("val",), which=(), fixed={"outputValues": True,
                                                                              "resourceReferences": True}),
         weight=2),
    Cell("bag", props_cell, dict(kinds=["leaf", "output", "dict1"], depth=2, leaves=["str", "none"], n=2,
                                 transform=True), weight=2),
    Cell("bag-falsy", props_cell, dict(kinds=["leaf", "output"], depth=1, leaves=["num", "bool", "empty", "emptyd", "none"], n=2)),
    Cell("bag-keep-outputs", props_cell, dict(kinds=["leaf", "output", "custom"], depth=1,
                                              leaves=["str", "none", "unk"], n=2, kovs=(True,))),
    Cell("keys", prop_cell, dict(kinds=["keys", "output"], depth=2, leaves=["str", "none"], kovs=(False, True),
                                 top=["keys", "output"], which=("secrets",), fixed={"outputValues": True})),
    Cell("bag-odd-names", props_cell, dict(kinds=["leaf", "output", "keys"], depth=1, leaves=["str", "unk"], n=1,
                                           kovs=(False, True), names=KEYS, which=())),
    Cell("illegal", illegal_cell),
    Cell("failing", fail_cell),
    Cell("shared", shared_cell),
    Cell("wide", wide_cell, dict(n=10)),
    Cell("shared-both-keep", shared_cell, dict(kov=(True, True))),
]
