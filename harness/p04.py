"""Deserialization of engine values and the serialize/deserialize round trip."""
from .lib import *
from .p03 import Gen, feature_monitor, FEATS

ANCHORS = ("pulumi.runtime.rpc.deserialize", "pulumi.runtime.rpc.is_rpc_secret", "pulumi.runtime.rpc.wrap_rpc_secret",
           "pulumi.runtime.rpc.unwrap_rpc_secret")
BOUNDS = ("wire trees of depth <= 3 over: symbolic string (<=3), number, boolean, null, unknown sentinel, list/object of "
          "<=2 (including internal keys), secret wrapper, asset/archive wrappers, resource reference (custom/component/"
          "provider, with and without id, unknown id, registered or not), output value wrapper; symbolic preview flag "
          "and keep-unknowns flag; round trip of input trees of depth <= 3")
OUTSIDE = "keep-unknowns outside a preview for values nested in wrappers (the engine never sends unknowns in an update)"


KEYS = ["_id", "_", "id", "urn", "a__b", "a_b", "aB", "", "value", "secret", "items", "x__", "__provider", "__internal"]


class WGen:
    def __init__(self, sx, kinds, leaves=("str", "unk", "null"), res=None):
        self.sx, self.kinds, self.leaves = sx, kinds, leaves
        self.odd = False  # an unknown nested in a wrapper that does not carry the keep-unknowns flag

    def build(self, nm, depth, kinds=None):
        """-> wire value (plain tree)"""
        sx = self.sx
        k = sx.choice(nm + ".kind", (kinds or self.kinds) if depth > 0 else ["leaf"])
        if k == "leaf":
            lk = sx.choice(nm + ".leaf", list(self.leaves))
            return {"str": lambda: sx.str(nm + ".s", 3), "num": lambda: sx.int(nm + ".i", 0, 3),
                    "null": lambda: None, "bool": lambda: sx.bool(nm + ".b"), "unk": lambda: UNKNOWN_WIRE}[lk]()
        if k in ("list1", "list2"):
            return [self.build("%s.%d" % (nm, i), depth - 1) for i in range(int(k[-1]))]
        if k in ("dict1", "dict2"):
            return {key: self.build("%s.%s" % (nm, key), depth - 1) for key in ("a", "b")[:int(k[-1])]}
        if k in ("wlist", "wdict"):
            n = 9
            at = sx.int(nm + ".at", 0, n - 1)
            at = [i for i in range(n) if sx.concrete(sx.eq(at, i))][0]
            # another part is a secret now and then
            also = sx.choice(nm + ".also", [None, 0, n - 1])
            xs = [self.build("%s.x" % nm, depth - 1) if i == at else {SIG: SECRET, "value": "s%d" % i} if i == also else "v%d" % i for i in range(n)]
            return xs if k == "wlist" else {"k%d" % i: x for i, x in enumerate(xs)}
        if k == "keys":
            key = sx.choice(nm + ".key", KEYS)
            return {key: self.build("%s.%s" % (nm, key), depth - 1), "z": "z"}
        if k == "dicti":
            return {"a": self.build(nm + ".a", depth - 1), "__defaults": [], "__provider": sx.str(nm + ".prov", 2, 1),
                    "__x": {SIG: SECRET, "value": "hidden"}}
        if k == "secret":
            return {SIG: SECRET, "value": self.build(nm + ".v", depth - 1)}
        if k == "asset":
            f = sx.choice(nm + ".f", ["path", "text", "uri"])
            return {SIG: ASSET, f: sx.str(nm + ".s", 3)}
        if k == "archive":
            f = sx.choice(nm + ".f", ["path", "assets", "uri"])
            if f == "assets":
                return {SIG: ARCHIVE, "assets": {"x": {SIG: ASSET, "text": sx.str(nm + ".s", 3)}}}
            return {SIG: ARCHIVE, f: sx.str(nm + ".s", 3)}
        if k == "resource":
            w = {SIG: RESOURCE, "urn": "urn:pulumi:stack::project::pkg:mod:Typ::" + sx.str(nm + ".name", 2, 1,
                                                                                         chars="ab")}
            h = sx.choice(nm + ".id", ["none", "known", "empty", "unknown"])
            if h != "none":
                w["id"] = {"known": sx.str(nm + ".rid", 3, 1), "empty": "", "unknown": UNKNOWN_WIRE}[h]
            return w
        if k == "outval":
            w = {SIG: OUTPUT}
            h = sx.choice(nm + ".known", [True, False])
            if h:
                w["value"] = self.build(nm + ".v", depth - 1, ["leaf", "list1", "dict1"])
            s = sx.choice(nm + ".secret", ["absent", "false", "true"])
            if s != "absent":
                w["secret"] = s == "true"
            d = sx.choice(nm + ".deps", [0, 1, 2])
            if d:
                w["dependencies"] = ["urn:d%d" % i for i in range(d)]
            return w
        raise AssertionError(k)


class SecretV:
    def __init__(self, v):
        self.v = v


class UnkV:
    pass


class AnyV:
    """Not determined by the property (unknown in a wrapper while asked to keep unknowns outside a preview)."""


class AssetV:
    def __init__(self, kind, f, v):
        self.kind, self.f, self.v = kind, f, v


class OutV:
    def __init__(self, v, known, secret, deps):
        self.v, self.known, self.secret, self.deps = v, known, secret, deps


def ref(sx, w, D, keep, nested=False, internal=False, top=False):
    """Reference meaning of a wire value.  D, keep: concrete booleans."""
    if isinstance(w, list):
        vs = [ref(sx, x, D, keep, nested) for x in w]
        if any(isinstance(v, SecretV) for v in vs):
            return SecretV([v.v if isinstance(v, SecretV) else v for v in vs])
        return vs
    if isinstance(w, dict):
        s = w.get(SIG)
        if s == SECRET:
            v = ref(sx, w["value"], D, keep, True)
            return v if isinstance(v, SecretV) else SecretV(v)
        if s in (ASSET, ARCHIVE):
            f = [k for k in w if k != SIG][0]
            v = w[f]
            return AssetV(s, f, ref(sx, v, D, keep, True) if f == "assets" else v)
        if s == RESOURCE:
            if "id" in w:
                return ref(sx, UNKNOWN_WIRE if w["id"] == "" else w["id"], D, keep, nested)
            return w["urn"]
        if s == OUTPUT:
            known = "value" in w
            v = ref(sx, w["value"], D, keep, True) if known else None
            return OutV(v, known, w.get("secret") is True, list(w.get("dependencies") or []))
        out = {}
        for k, x in w.items():
            if k.startswith("__") and k != "__provider" and not (internal and top):
                continue
            v = ref(sx, x, D, keep, nested)
            if v is not None:
                out[k] = v
        if not top and any(isinstance(v, SecretV) for v in out.values()):
            return SecretV({k: v.v if isinstance(v, SecretV) else v for k, v in out.items()})
        return out
    if w is UNKNOWN_WIRE or (type(w) is str and w == UNKNOWN_WIRE):
        if D:
            return UnkV()
        if keep:
            return UnkV() if not nested else AnyV()
        return None
    return w


def has(v, T):
    if isinstance(v, T):
        return True
    if isinstance(v, (SecretV, AssetV, OutV)):
        return has(v.v, T)
    if isinstance(v, dict):
        return any(has(x, T) for x in v.values())
    if isinstance(v, list):
        return any(has(x, T) for x in v)
    return False


async def match(sx, got, exp):
    import pulumi
    from pulumi.output import Unknown

    if isinstance(exp, SecretV):
        if not (isinstance(got, dict) and SIG in got and got[SIG] == SECRET and set(got) == {SIG, "value"}):
            return False
        return await match(sx, got["value"], exp.v)
    if isinstance(exp, UnkV):
        return isinstance(got, Unknown)
    if isinstance(exp, AssetV):
        C = {(ASSET, "path"): pulumi.FileAsset, (ASSET, "text"): pulumi.StringAsset, (ASSET, "uri"): pulumi.RemoteAsset,
             (ARCHIVE, "assets"): pulumi.AssetArchive, (ARCHIVE, "path"): pulumi.FileArchive,
             (ARCHIVE, "uri"): pulumi.RemoteArchive}[exp.kind, exp.f]
        if type(got) is not C:
            return False
        return await match(sx, getattr(got, exp.f), exp.v)
    if isinstance(exp, OutV):
        if not isinstance(got, pulumi.Output):
            return False
        s = await observe(got)
        urns = set()
        for r in s.deps or ():
            urns.add(await r.urn.future())
        v = exp.v
        sec = exp.secret
        if isinstance(v, SecretV):
            v, sec = v.v, True
        known = exp.known and not has(v, UnkV)
        ok = s.exc is None and urns == set(exp.deps)
        if not ok:
            return False
        return sx.and_(sx.iff(s.known, known), sx.iff(s.secret, sec),
                       (await match(sx, s.value, v)) if exp.known else True)
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(got) != set(exp):
            return False
        return sx.and_(*[await match(sx, got[k], v) for k, v in exp.items()])
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return False
        return sx.and_(*[await match(sx, a, b) for a, b in zip(got, exp)])
    if isinstance(got, (dict, list, pulumi.Output, Unknown)):
        return False
    return wire_eq(sx, got, exp)


def de_cell(sx, kinds, depth, leaves=("str", "unk", "null"), keeps=(None,), internals=(None,), n=1, top=None):
    from pulumi.runtime import rpc

    D = sx.concrete(sx.bool("dry_run"))
    configure(dry_run=D)
    keep, internal = sx.choice("keep", list(keeps)), sx.choice("internal", list(internals))

    async def main(loop):
        g = WGen(sx, kinds, leaves)
        w = {"p%d" % i: g.build("p%d" % i, depth, top) for i in range(n)}
        if internals != (None,):
            w["__self__"] = sx.str("self", 2)
            w["__provider"] = "prov"
        got = rpc.deserialize_properties(struct(w), keep, internal)
        exp = ref(sx, w, D, bool(keep), internal=bool(internal), top=True)
        if has(exp, AnyV):
            return
        sx.check(await match(sx, got, exp), "deserialized", lambda: (w, got))

    run(sx, main)


def module_cell(sx):
    """A reference to a resource of a registered package is rehydrated from its urn."""
    from pulumi.runtime import rpc

    configure(dry_run=sx.bool("D"))
    calls = []

    class Mod(rpc.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            calls.append(("mod", name, typ, urn))
            return "REHYDRATED"

    class Pkg(rpc.ResourcePackage):
        def version(self):
            return None

        def construct_provider(self, name, typ, urn):
            calls.append(("pkg", name, typ, urn))
            return "REHYDRATED"

    rpc.register_resource_module("pkg", "mod", Mod())
    rpc.register_resource_package("pkg", Pkg())

    async def main(loop):
        k = sx.choice("typ", ["pkg:mod:Typ", "pulumi:providers:pkg", "pkg:other:Typ", "other:mod:Typ",
                              "pulumi:providers:other"])
        par = sx.choice("parent", ["", "a:b:C$", "pkg:mod:Typ$a:b:C$"])
        nm = sx.str("name", 3, 1, chars="ab-X")
        urn = "urn:pulumi:stack::project::" + par + k + "::" + nm
        w = {SIG: RESOURCE, "urn": urn, "id": "the-id"}
        ver = sx.choice("version", [None, "", "1.2.3"])
        if ver is not None:
            w["packageVersion"] = ver
        got = rpc.deserialize_property(struct(w))
        if k in ("pkg:mod:Typ", "pulumi:providers:pkg"):
            sx.check(got == "REHYDRATED" and len(calls) == 1, "rehydrated", lambda: (got, calls))
            what, name, typ, u = calls[0]
            sx.check(what == ("mod" if k == "pkg:mod:Typ" else "pkg"), "right-factory", lambda: calls)
            sx.check(sx.and_(sx.eq(name, nm), sx.eq(u, urn)), "name-and-urn", lambda: calls)
            sx.check(sx.eq(typ, k), "type", lambda: calls)
        else:
            sx.check(not calls and got == "the-id", "falls-back-to-id", lambda: (got, calls))

    run(sx, main)


def bad_cell(sx):
    """Malformed wrappers are an error, never silently taken as data."""
    from pulumi.runtime import rpc

    configure(dry_run=sx.bool("D"))

    async def main(loop):
        k = sx.choice("k", ["sig", "asset", "archive"])
        sig = sx.str("sig", 4)
        w = {"sig": {SIG: sig, "value": "x"}, "asset": {SIG: ASSET, "zzz": "x"},
             "archive": {SIG: ARCHIVE, "zzz": "x"}}[k]
        try:
            r = rpc.deserialize_property(struct(w))
            ok = False
        except AssertionError:
            ok = True
        sx.check(ok, "malformed-rejected", lambda: r)

    run(sx, main)


def sem(sx, m, D):
    """Meaning of an input after a trip through the engine: (value, secret)."""
    t = m[0]
    if t == "leaf":
        return m[1]
    if t == "unk":
        return UnkV() if D else None
    if t == "out":
        _, raw, im, K, S, _ = m
        if raw or not sx.concrete(K):
            return UnkV() if D else None
        v = sem(sx, im, D)
        if sx.concrete(S):
            return v if isinstance(v, SecretV) else SecretV(v)
        return v
    if t == "list":
        vs = [sem(sx, x, D) for x in m[1]]
        if any(isinstance(v, SecretV) for v in vs):
            return SecretV([v.v if isinstance(v, SecretV) else v for v in vs])
        return vs
    if t == "dict":
        vs = {k: sem(sx, x, D) for k, x in m[1].items()}
        vs = {k: v for k, v in vs.items() if v is not None}
        if any(isinstance(v, SecretV) for v in vs.values()):
            return SecretV({k: v.v if isinstance(v, SecretV) else v for k, v in vs.items()})
        return vs
    if t == "sig":
        return AssetV(m[1], m[2], sem(sx, m[3], D))
    raise AssertionError(t)


def trip_cell(sx, kinds, depth, leaves):
    """What the engine echoes back is what was sent: values, nesting, secrecy."""
    from pulumi.runtime import rpc

    feats, mon = feature_monitor(sx, which=(), fixed={"secrets": True, "resourceReferences": True})
    D = sx.concrete(sx.bool("dry_run"))
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        g = Gen(sx, loop, feats, kinds, leaves)
        v, m = g.build("v", depth)
        w = await rpc.serialize_properties({"p": v}, {})
        got = rpc.deserialize_properties(w)
        exp = sem(sx, m, D)
        if exp is None:
            sx.check(got == {}, "trip-none", lambda: got)
        else:
            sx.check("p" in got, "trip-present", lambda: got)
            sx.check(await match(sx, got.get("p"), exp), "trip-value", lambda: (got, m))

    run(sx, main)


def trip_outputs_cell(sx, kinds, depth, leaves):
    """Outputs passed to a component provider arrive with value, secrecy, knownness and dependencies intact."""
    from pulumi.runtime import rpc
    import pulumi

    feats, mon = feature_monitor(sx, which=(), fixed={"secrets": True, "resourceReferences": True,
                                                      "outputValues": True})
    D = sx.concrete(sx.bool("dry_run"))
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        g = Gen(sx, loop, feats, kinds, leaves)
        v, m = g.build("v", depth, ["output"])
        w = await rpc.serialize_properties({"p": v}, {}, keep_output_values=True)
        got = rpc.deserialize_properties(w, keep_unknowns=True)
        o = got.get("p")
        sx.check(isinstance(o, pulumi.Output), "arrives-as-output", lambda: got)
        s = await observe(o)
        _, raw, im, K, S, deps = m
        urns = set()
        for r in s.deps:
            urns.add(await r.urn.future())
        ed = set()
        g.ser(m, True, ed)
        sx.check(urns == {u for r, u in g.urns if r in ed}, "arrives-with-dependencies", lambda: (urns, ed))
        known = not raw and sx.concrete(K)
        inner = sem(sx, im, True) if known else None
        sec = sx.concrete(S)
        if isinstance(inner, SecretV):
            inner, sec = inner.v, True
        if has(inner, UnkV):
            if not D:
                return
            known = False
        sx.check(sx.iff(s.secret, sec), "arrives-with-secrecy", lambda: (s, m))
        sx.check(sx.iff(s.known, known), "arrives-with-knownness", lambda: (s, m))
        if known:
            sx.check(await match(sx, s.value, inner), "arrives-with-value", lambda: (s.value, m))

    run(sx, main)


W = ["leaf", "list1", "list2", "dict2", "secret", "dicti"]
CELLS = [
    Cell("plain", de_cell, dict(kinds=W, depth=2, leaves=("str", "unk", "null", "num", "bool"), keeps=(None, True)),
         weight=2),
    Cell("deep", de_cell, dict(kinds=["secret", "list1", "dict1"], depth=4, leaves=("str", "unk"),
                               keeps=(None, True))),
    Cell("nested", de_cell, dict(kinds=W, depth=3, leaves=("str", "unk"), top=["list1", "dict1", "secret"]), weight=3),
    Cell("wrappers", de_cell, dict(kinds=["asset", "archive", "resource", "outval", "list1", "dict1", "secret"],
                                   depth=2, leaves=("str", "unk"), keeps=(None, True)), weight=2),
    Cell("wrappers-pair", de_cell, dict(kinds=["asset", "resource", "outval", "secret", "leaf"], depth=2, n=1,
                                        top=["list2", "dict2"], leaves=("str", "null"))),
    Cell("wrappers-deep", de_cell, dict(kinds=["outval", "resource", "asset", "list1", "dict2", "secret", "leaf"],
                                        depth=3, leaves=("str", "unk"), keeps=(None, True)), weight=4,
         tiers=("thorough",)),
    Cell("internal", de_cell, dict(kinds=["leaf", "dicti", "list1"], depth=2, leaves=("str",), keeps=(None, True),
                                   internals=(True, False))),
    Cell("keys", de_cell, dict(kinds=["leaf", "keys", "list1", "secret"], depth=2, leaves=("str", "unk"), keeps=(None, True),
                               internals=(None, True), top=["keys", "list1", "secret"])),
    Cell("wide", de_cell, dict(kinds=["leaf", "secret", "asset", "resource", "outval"], depth=2, leaves=("str", "unk", "null"), keeps=(None, True),
                              top=["wlist", "wdict"])),
    Cell("wide-deep", de_cell, dict(kinds=["leaf", "secret", "list1", "dict1", "wlist"], depth=3, leaves=("str", "unk"),
                                   top=["wlist", "wdict"]), tiers=("thorough",), max_paths=120000),
    Cell("module", module_cell),
    Cell("malformed", bad_cell),
    Cell("trip", trip_cell, dict(kinds=["leaf", "output", "list2", "dict2", "asset", "archive"], depth=2,
                                 leaves=["str", "num", "none", "bool", "unk"]), weight=2),
    Cell("trip-deep", trip_cell, dict(kinds=["output", "list1", "dict1", "await"], depth=4, leaves=["str", "unk"]),
         weight=2),
    Cell("trip-outputs", trip_outputs_cell, dict(kinds=["leaf", "output", "list1", "dict1"], depth=3,
                                                 leaves=["str", "unk"]), weight=2),
]
