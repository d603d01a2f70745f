"""How the outputs of a resource settle once the engine answered: values, knownness, secrecy, ids, dependencies."""
from .lib import *

ANCHORS = ("pulumi.runtime.rpc.resolve_", "pulumi.runtime.rpc.transfer_properties",
           "pulumi.runtime.resource.register_resource", "pulumi.runtime.resource.read_resource",
           "pulumi.runtime.resource.get_resource", "pulumi.runtime.resource.resource_output")
BOUNDS = ("one resource (custom, component, remote component, read, or looked up by urn) with two declared properties; "
          "each input plain/secret/unknown/null; each property in the response absent, null, a symbolic string, "
          "unknown, nested unknown, secret, secret unknown or nested secret; symbolic preview flag, symbolic id "
          "(possibly empty) and reported property dependencies; twelve odd names of a property")
OUTSIDE = "more than two properties; responses nested deeper than two levels (deserialization is decided by P04)"

IN = ["str", "secret", "unknown", "none", "dep"]
OUTK = ["absent", "null", "str", "num", "unknown", "nested-unknown", "secret", "secret-unknown", "nested-secret"]


class _U:
    """An unknown in the reference."""


UNK = _U()


def wire(sx, nm, k):
    """-> (wire value or None when absent, value, secret, has_unknown) meaning in a preview / update"""
    s = sx.str(nm + ".out", 3)
    U = UNKNOWN_WIRE
    return {
        "absent": lambda: (None, None, False, False),
        "null": lambda: (None, None, False, False),
        "str": lambda: (s, s, False, False),
        "num": lambda: (3, 3.0, False, False),
        "unknown": lambda: (U, UNK, False, True),
        "nested-unknown": lambda: ({"a": U, "b": s}, {"a": UNK, "b": s}, False, True),
        "secret": lambda: ({SIG: SECRET, "value": s}, s, True, False),
        "secret-unknown": lambda: ({SIG: SECRET, "value": U}, UNK, True, True),
        "nested-secret": lambda: ([s, {SIG: SECRET, "value": s}], [s, s], True, False),
    }[k]()


def drop_unknown(v):
    """In an update unknowns do not exist: they deserialize to nothing."""
    if v is UNK:
        return None
    if isinstance(v, dict):
        return {k: drop_unknown(x) for k, x in v.items() if drop_unknown(x) is not None}
    return v


def to_unknown(v):
    from pulumi.output import UNKNOWN

    if v is UNK:
        return UNKNOWN
    if isinstance(v, dict):
        return {k: to_unknown(x) for k, x in v.items()}
    return v


def cell(sx, kind, ins, outs, n=2, ids=("empty", "sym"), depresp=False, translate=False, odd=()):
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)
    names = [sx.choice("prop", list(odd))] if odd else ["p_one", "p_two"][:n]
    wname = {"p_one": "pOne", "p_two": "pTwo"} if translate else {x: x for x in names}
    rname = {v: k for k, v in wname.items()}

    async def main(loop):
        props, insem, resp, outsem = {}, {}, {}, {}
        for nm in names:
            ik = sx.choice(nm + ".in", ins)
            s = sx.str(nm + ".in.s", 3)
            if ik == "secret":
                props[nm], insem[nm] = mk_output(loop, s, True, True), (s, True)
            elif ik == "unknown":
                props[nm], insem[nm] = mk_output(loop, None, False, False), (None, False)
            elif ik == "none":
                props[nm], insem[nm] = None, None
            elif ik == "dep":
                r0 = mk_resource(loop, "urn:dep")
                props[nm], insem[nm] = mk_output(loop, s, True, False, [r0]), (s, False)
            else:
                props[nm], insem[nm] = s, (s, False)
            ok = sx.choice(nm + ".outk", outs)
            w, v, sec, unk = wire(sx, nm, ok)
            if ok != "absent":
                resp[wname[nm]] = w
            outsem[nm] = None if w is None else (v, sec, unk)
        resp["extra"] = "ignored"
        ik = sx.choice("id", list(ids))
        rid = {"empty": "", "sym": sx.str("rid", 3, 1)}[ik]
        deps = {}
        if depresp:
            for nm in names:
                ds = sx.choice(nm + ".rdeps", [None, [], ["urn:x"], ["urn:x", "urn:y", "urn:z"]])
                if ds is not None:
                    deps[wname[nm]] = ds
        urn = "urn:pulumi:stack::project::pkg:mod:Typ::res"
        mon.on["RegisterResource"] = lambda req: register_response(req, resp, rid, urn, deps)
        mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn=urn, properties=struct(resp))
        mon.on["Invoke"] = lambda req: resource_pb2_invoke({"urn": urn, "id": rid, "state": resp})

        class Mix:
            def translate_output_property(self, prop):
                return rname.get(prop, prop)

            def translate_input_property(self, prop):
                return wname.get(prop, prop)

        class C(Mix, pulumi.CustomResource):
            pass

        class Comp(Mix, pulumi.ComponentResource):
            pass

        if kind == "custom":
            r = C("pkg:mod:Typ", "res", props)
        elif kind == "component":
            r = Comp("pkg:mod:Typ", "res", props)
        elif kind == "remote":
            r = Comp("pkg:mod:Typ", "res", props, remote=True)
        elif kind == "read":
            r = C("pkg:mod:Typ", "res", props, pulumi.ResourceOptions(id="read-id"))
        else:
            r = C("pkg:mod:Typ", "res", props, pulumi.ResourceOptions(urn=urn))
        u = await observe(r.urn)
        sx.check(u.exc is None and u.known and not u.secret and u.deps == {r}, "urn-known", lambda: u)
        sx.check(sx.eq(u.value, urn), "urn-value", lambda: u)
        if kind in ("custom", "get"):
            i = await observe(r.id)
            sx.check(i.exc is None, "id-settles", lambda: i)
            sx.check(sx.iff(i.known, ik != "empty"), "id-known-iff-non-empty", lambda: i)
            if ik != "empty":
                sx.check(sx.eq(i.value, rid), "id-value", lambda: i)
            sx.check(not i.secret and i.deps == {r}, "id-deps", lambda: i)
        elif kind == "read":
            i = await observe(r.id)
            sx.check(i.exc is None and i.known and i.value == "read-id", "read-id-is-known", lambda: i)
        for nm in names:
            o = await observe(r.__dict__[nm])
            sx.check(o.exc is None and o.exc_known is None and o.exc_secret is None, "property-settles", lambda: o)
            # dependencies: the resource itself and what the provider reported
            urns = set()
            for d in o.deps:
                if d is not r:
                    urns.add(await d.urn.future())
            sx.check(r in o.deps, "depends-on-its-resource", lambda: o)
            sx.check(urns == set(deps.get(wname[nm]) or ()), "depends-on-reported-resources", lambda: (urns, deps))
            os_ = outsem[nm]
            if os_ is not None and not D and os_[0] is UNK and not os_[1]:
                os_ = None  # an unknown in an update counts as no value
            if os_ is not None:
                v, sec, unk = os_
                sx.check(sx.iff(o.secret, sec), "secret-as-returned", lambda: (nm, o))
                sx.check(sx.iff(o.known, not (D and unk)), "known-as-returned", lambda: (nm, o))
                sx.check(same(sx, o.value, to_unknown(v) if D else drop_unknown(v)), "value-as-returned",
                         lambda: (nm, o, v))
            elif D:
                sx.check(sx.not_(o.known), "missing-is-unknown-in-preview", lambda: (nm, o))
                sx.check(o.value is None, "missing-has-no-value-in-preview", lambda: (nm, o))
            else:
                # an update: what the user passed in
                exp = insem[nm]
                if exp is None or exp == (None, False):
                    sx.check(sx.and_(o.value is None, o.known, sx.not_(o.secret)), "missing-is-none-in-update",
                             lambda: (nm, o))
                else:
                    sx.check(sx.eq(o.value, exp[0]), "missing-takes-input-value", lambda: (nm, o))
                    sx.check(sx.iff(o.secret, exp[1]), "missing-takes-input-secrecy", lambda: (nm, o))
                    sx.check(o.known, "missing-input-known", lambda: (nm, o))
        sx.check("extra" not in r.__dict__, "undeclared-property-not-assigned", lambda: r.__dict__)

    run(sx, main)


def resource_pb2_invoke(d):
    try:
        from pulumi.runtime.proto import provider_pb2 as m

        return m.InvokeResponse(**{"return": struct(d)})
    except AttributeError:
        from pulumi.runtime.proto import resource_pb2 as m

        return m.InvokeResponse(**{"return": struct(d)})


ORIG = ["secret-unknown", "nested-unknown", "null", "str", "absent"]
CELLS = [
    Cell("custom-single", cell, dict(kind="custom", ins=IN, outs=OUTK, n=1)),
    Cell("custom-pair", cell, dict(kind="custom", ins=["str", "secret"], outs=["absent", "str", "secret", "unknown"],
                                   ids=("sym",), n=2, depresp=True, translate=True), weight=3),
    Cell("component", cell, dict(kind="component", ins=IN, outs=OUTK, n=1, ids=("empty",))),
    Cell("remote", cell, dict(kind="remote", ins=IN, outs=OUTK, n=1, ids=("empty",), depresp=True), weight=2),
    Cell("read", cell, dict(kind="read", ins=IN, outs=OUTK, n=1, ids=("sym",))),
    Cell("read-pair", cell, dict(kind="read", ins=["str", "none"], outs=["absent", "str", "secret", "null"], n=2,
                                 ids=("sym",), translate=True), weight=2),
    Cell("get", cell, dict(kind="get", ins=["str", "none"], outs=OUTK, n=1)),
    Cell("get-pair", cell, dict(kind="get", ins=["none"], outs=["absent", "str", "secret", "unknown"], n=2,
                                ids=("sym",), translate=True)),
    Cell("odd-names", cell, dict(kind="custom", ins=["str", "none"], outs=["absent", "str", "secret"], ids=("sym",), n=1,
                                 odd=("name", "type", "ID", "Urn", "urn_", "state", "value", "_under", "opts", "key", "0", "a b", "a.b"))),
    Cell("odd-names-get", cell, dict(kind="get", ins=["none"], outs=["absent", "str"], ids=("sym",), n=1,
                                     odd=("name", "type", "ID", "Urn", "state", "value", "outputs"))),
    Cell("custom-pair-all", cell, dict(kind="custom", ins=IN, outs=OUTK, n=2, ids=("sym",)), weight=4),
]
