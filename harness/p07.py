"""What the engine is told about a resource is exactly what the program asked for."""
from .lib import *

ANCHORS = ("pulumi.runtime.resource.register_resource", "pulumi.runtime.resource.read_resource",
           "pulumi.runtime.resource.prepare_resource", "pulumi.runtime.resource._translate",
           "pulumi.runtime.resource.convert_providers", "pulumi.runtime.resource._resolve_depends_on_urns",
           "pulumi.runtime.resource.register_resource_outputs")
BOUNDS = ("one operation per run (registration of a custom / component / remote resource, read, or registration of "
          "outputs); options varied in groups of related ones (flags and versions; property name lists; parent and "
          "provider; dependencies; timeouts; aliases; read id; remote providers; a given value of each kind under three feature sets), each over unset / all its forms with "
          "symbolic strings; symbolic preview flag")
OUTSIDE = "the product of all option groups at once; deeper property values (P03 decides those)"

URN = "urn:pulumi:stack::project::pkg:mod:Typ::res"
WN = {"p_one": "pOne", "p_two": "pTwo"}


def classes(pulumi, translate=True):
    class Mix:
        def translate_output_property(self, prop):
            return {v: k for k, v in WN.items()}.get(prop, prop) if translate else prop

        def translate_input_property(self, prop):
            return WN.get(prop, prop) if translate else prop

    class C(Mix, pulumi.CustomResource):
        pass

    class Comp(Mix, pulumi.ComponentResource):
        pass
    return C, Comp


def make(sx, kind, props, opts, translate=True, name="res", typ="pkg:mod:Typ"):
    import pulumi

    C, Comp = classes(pulumi, translate)
    o = pulumi.ResourceOptions(**opts)
    if kind == "component":
        return Comp(typ, name, props, o)
    if kind == "remote":
        return Comp(typ, name, props, o, remote=True)
    return C(typ, name, props, o)


def engine(sx, D, features=("secrets", "resourceReferences", "outputValues")):
    from pulumi.runtime.proto import resource_pb2

    mon = basic_monitor(features)
    configure(dry_run=D, monitor=mon)
    mon.on["RegisterResource"] = lambda req: register_response(req, {}, None, URN)
    mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn=URN)
    return mon


def unset(sx, req, names):
    """Fields that were not asked for are at their defaults."""
    for n in names:
        v = getattr(req, n)
        if hasattr(v, "__len__") and not isinstance(v, str):
            sx.check(len(v) == 0, "unset-stays-unset", lambda: (n, v))
        else:
            sx.check(sx.eq(v, "" if isinstance(v, str) else False), "unset-stays-unset", lambda: (n, v))


def same_list(sx, got, exp):
    got = list(got)
    if len(got) != len(exp):
        return False
    return sx.and_(*[sx.eq(a, b) for a, b in zip(got, exp)])


def tri(sx, n):
    return sx.choice(n, [None, False, True])


def flags(sx, kind):
    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)

    async def main(loop):
        protect, dbr, retain = tri(sx, "protect"), tri(sx, "dbr"), tri(sx, "retain")
        ver = sx.str("version", 2) if sx.choice("hasver", 2) else None
        url = sx.str("url", 2) if sx.choice("hasurl", 2) else None
        imp = sx.str("import", 2) if sx.choice("hasimp", 2) else None
        o = dict(protect=protect, delete_before_replace=dbr, retain_on_delete=retain, version=ver,
                 plugin_download_url=url, import_=imp)
        r = make(sx, kind, {"p_one": "x"}, {k: v for k, v in o.items() if v is not None})
        await observe(r.urn)
        reqs = mon.sent("RegisterResource")
        sx.check(len(reqs) == 1, "exactly-one-request", lambda: reqs)
        q = reqs[0]
        sx.check(q.type == "pkg:mod:Typ" and q.name == "res", "type-and-name", lambda: q)
        sx.check(q.custom is (kind == "custom"), "custom", lambda: q)
        sx.check(q.remote is (kind == "remote"), "remote", lambda: q)
        sx.check(q.protect == bool(protect), "protect", lambda: (protect, q))
        sx.check(q.deleteBeforeReplace == bool(dbr), "delete-before-replace", lambda: (dbr, q))
        sx.check(q.deleteBeforeReplaceDefined == (dbr is not None), "delete-before-replace-defined", lambda: (dbr, q))
        sx.check(q.retainOnDelete == bool(retain), "retain-on-delete", lambda: (retain, q))
        sx.check(sx.eq(q.version, ver or ""), "version", lambda: (ver, q))
        sx.check(sx.eq(q.pluginDownloadURL, url or ""), "plugin-download-url", lambda: (url, q))
        sx.check(sx.eq(q.importId, imp or ""), "import-id", lambda: (imp, q))
        sx.check(q.acceptSecrets is True and q.acceptResources is True and q.supportsPartialValues is True,
                 "capabilities", lambda: q)
        unset(sx, q, ["parent", "provider", "providers", "dependencies", "ignoreChanges", "additionalSecretOutputs",
                      "aliases", "replaceOnChanges"])
        sx.check(not q.HasField("customTimeouts"), "unset-stays-unset")

    run(sx, main)


def names(sx, kind, which, typed=False):
    """ignore_changes / additional_secret_outputs / replace_on_changes are sent with the provider's names."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)

    async def main(loop):
        field = {"ignore_changes": "ignoreChanges", "additional_secret_outputs": "additionalSecretOutputs",
                 "replace_on_changes": "replaceOnChanges"}
        opts, exp = {}, {}
        pool = ["p_one", "p_two", "other"]
        for w in ("ignore_changes", "additional_secret_outputs", "replace_on_changes"):
            v = None
            if w in which:
                v = sx.choice(w, [None, [], ["p_one"], ["p_two", "other"], ["*", "p_one"]])
            opts[w] = v
            exp[w] = [WN.get(x, x) for x in (v or [])]
        o = {k: v for k, v in opts.items() if v is not None}
        if typed:
            @pulumi.input_type
            class Args:
                def __init__(self, p_one, p_two=None):
                    pulumi.set(self, "p_one", p_one)
                    if p_two is not None:
                        pulumi.set(self, "p_two", p_two)

                @property
                @pulumi.getter(name="pOne")
                def p_one(self) -> pulumi.Input[str]:
                    return pulumi.get(self, "p_one")

                @property
                @pulumi.getter(name="pTwo")
                def p_two(self) -> pulumi.Input[str]:
                    return pulumi.get(self, "p_two")

            class T(pulumi.CustomResource):
                def __init__(self, name, args, opts=None):
                    if kind == "read":
                        opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(id="i"))
                    super().__init__("pkg:mod:Typ", name, args, opts)

                @property
                @pulumi.getter(name="pOneOut" if kind != "read" else "pOne")
                def p_one(self) -> pulumi.Output[str]:
                    return pulumi.get(self, "p_one")

                @property
                @pulumi.getter(name="pTwo")
                def p_two(self) -> pulumi.Output[str]:
                    return pulumi.get(self, "p_two")

            r = T("res", Args("x", "y"), pulumi.ResourceOptions(**o))
        else:
            if kind == "read":
                o["id"] = "i"
            r = make(sx, kind, {"p_one": "x", "p_two": "y"}, o)
        await observe(r.urn)
        rpcn = "ReadResource" if kind == "read" else "RegisterResource"
        reqs = mon.sent(rpcn)
        sx.check(len(reqs) == 1, "exactly-one-request", lambda: reqs)
        q = reqs[0]
        got = plain(q.properties if kind == "read" else q.object)
        sx.check(got == {"pOne": "x", "pTwo": "y"}, "property-names", lambda: got)
        if typed and kind != "read":
            # (the property has another name among the outputs)
            exp["additional_secret_outputs"] = ["pOneOut" if x == "pOne" else x for x in exp["additional_secret_outputs"]]
        for w in exp:
            if kind == "read" and w != "additional_secret_outputs":
                continue
            sx.check(list(getattr(q, field[w])) == exp[w], w.replace("_", "-"), lambda: (w, opts[w], q))

    run(sx, main)


def placement(sx, kind):
    """parent and provider"""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)
    from pulumi.runtime import settings

    async def main(loop):
        root = sx.choice("root", ["none", "stack"])
        par = sx.choice("parent", ["none", "component", "custom"])
        prov = sx.choice("provider", ["none", "known", "unknown", "parent"]) if kind != "component" else \
            sx.choice("provider", ["none", "known"])
        if prov == "parent" and par != "component":
            sx.assume(False)
        ru, pu, vu, vi = (sx.str(n, 3, 1) for n in ("root.urn", "parent.urn", "prov.urn", "prov.id"))

        def resource_like(urn, custom):
            r = mk_resource(loop, urn, custom=custom)
            r._name, r._aliases, r._transformations, r._childResources = "par", [], [], set()
            r._protect = False
            r._providers = {}
            return r
        if root == "stack":
            settings.set_root_resource(resource_like(ru, False))
        o = {}
        pr = None
        if prov != "none":
            if prov == "unknown":
                pr = mk_provider(loop, vu, None, id_known=False)
            else:
                pr = mk_provider(loop, vu, vi)
            if prov != "parent":
                o["provider"] = pr
        if par != "none":
            p = resource_like(pu, par == "custom")
            if prov == "parent":
                p._providers = {"pkg": pr}
            o["parent"] = p
        if kind == "read":
            o["id"] = "i"
        r = make(sx, kind, {"p_one": "x"}, o)
        await observe(r.urn)
        reqs = mon.sent("ReadResource" if kind == "read" else "RegisterResource")
        sx.check(len(reqs) == 1, "exactly-one-request", lambda: reqs)
        q = reqs[0]
        exp = pu if par != "none" else ru if root == "stack" else ""
        sx.check(sx.eq(q.parent, exp), "parent", lambda: (par, root, q.parent, exp))
        ref = vu + "::" + (UNKNOWN_WIRE if prov == "unknown" else vi) if prov != "none" else ""
        if kind in ("custom", "read"):
            sx.check(sx.eq(q.provider, ref), "provider", lambda: (prov, q.provider, ref))
        elif kind == "component":
            sx.check(sx.eq(q.provider, ""), "component-has-no-provider", lambda: q)
        if kind == "remote" and prov != "none" and prov != "parent":
            sx.check(set(q.providers) == {"pkg"}, "remote-provider-names", lambda: q)
            sx.check(sx.eq(q.providers["pkg"], ref), "remote-provider-ref", lambda: q)

    run(sx, main)


DEPK = ["none", "one", "list", "output-item", "output-list", "await-item", "await-one", "await-list", "prop-set-output", "empty"]


def deps(sx, kind, kinds, nprops=2, schedule=False):
    """dependencies and propertyDependencies"""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)

    async def main(loop):
        A, B, C, E = [mk_resource(loop, "urn:" + x, id_="i", ext={"val"} if schedule else ()) for x in "abce"]
        u = {A: "urn:a", B: "urn:b", C: "urn:c", E: "urn:e"}
        dk = sx.choice("depends_on", kinds)
        o, exp = {}, set()

        async def aw(v):
            return v
        if dk == "one":
            o["depends_on"], exp = A, {A}
        elif dk == "list":
            o["depends_on"], exp = [A, B], {A, B}
        elif dk == "output-item":
            o["depends_on"], exp = [mk_output(loop, A, True, False, [E]), B], {A, B, E}
        elif dk == "output-list":
            o["depends_on"], exp = mk_output(loop, [A, B], True, False, [E]), {A, B, E}
        elif dk == "await-item":
            o["depends_on"], exp = [aw(A)], {A}
        elif dk == "await-one":
            o["depends_on"], exp = aw(A), {A}
        elif dk == "await-list":
            o["depends_on"], exp = aw([A, mk_output(loop, B, True, False, [E])]), {A, B, E}
        elif dk == "prop-set-output":
            o["depends_on"], exp = [mk_output(loop, None, False, False, [E])], {E}
        elif dk == "empty":
            o["depends_on"], exp = [], set()
        props, pd = {}, {}
        for n in ["p_one", "p_two"][:nprops]:
            ds = subset_choice(sx, n, [A, B, C], 2)
            form = sx.choice(n + ".form", ["output", "nested", "resource"])
            if form == "resource":
                props[n] = C
                pd[WN[n]] = {C}
            elif form == "nested":
                props[n] = [mk_output(loop, "v", True, False, ds), {"k": B.urn}]
                pd[WN[n]] = set(ds) | {B}
            else:
                props[n] = mk_output(loop, "v", sx.concrete(sx.bool(n + ".known")), False, ds)
                pd[WN[n]] = set(ds)
        if kind == "read":
            o["id"] = "i"
        r = make(sx, kind, props, o)
        await observe(r.urn)
        reqs = mon.sent("ReadResource" if kind == "read" else "RegisterResource")
        sx.check(len(reqs) == 1, "exactly-one-request", lambda: reqs)
        q = reqs[0]
        alld = set(exp)
        for v in pd.values():
            alld |= v
        got = list(q.dependencies)
        sx.check(sorted(got) == sorted(u[x] for x in alld), "dependencies", lambda: (dk, props, got, alld))
        if kind != "read":
            gotp = {k: sorted(v.urns) for k, v in q.propertyDependencies.items()}
            sx.check(gotp == {k: sorted(u[x] for x in v) for k, v in pd.items()}, "property-dependencies",
                     lambda: (gotp, pd))

    run(sx, main)


def timeouts(sx):
    import pulumi

    mon = engine(sx, sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        form = sx.choice("form", ["object", "dict"])
        vals = {}
        for n in ("create", "update", "delete"):
            if sx.choice("has." + n, 2):
                vals[n] = sx.str(n, 2)
        ct = pulumi.CustomTimeouts(**vals) if form == "object" else dict(vals)
        r = make(sx, "custom", {}, {"custom_timeouts": ct})
        await observe(r.urn)
        q = mon.sent("RegisterResource")[0]
        for n in ("create", "update", "delete"):
            sx.check(sx.eq(getattr(q.customTimeouts, n), vals.get(n, "")), "custom-timeouts", lambda: (n, vals, q))

    run(sx, main)


def aliases(sx, kind):
    mon = engine(sx, sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        n = sx.choice("n", 4)
        vals = [sx.str("a%d" % i, 2, 1) for i in range(n)]
        given = []
        for i, v in enumerate(vals):
            given.append(mk_output(loop, v) if i == 1 else v)
        o = {"aliases": given} if n or sx.choice("explicit", 2) else {}
        r = make(sx, kind, {}, o)
        await observe(r.urn)
        q = mon.sent("RegisterResource")[0]
        exp = []
        for v in vals:
            if not any(sx.concrete(sx.eq(v, x)) for x in exp):
                exp.append(v)
        sx.check(same_list(sx, q.aliases, exp), "aliases-in-order-without-duplicates", lambda: (list(q.aliases), vals))

    run(sx, main)


def read(sx):
    """ReadResource: id forms and the remaining fields."""
    from pulumi.output import UNKNOWN

    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)

    async def main(loop):
        i = sx.str("id", 3, 1)
        form = sx.choice("form", ["plain", "output", "secret", "await", "await-secret"] + (["unknown"] if D else []))
        S = sx.bool("id_secret") if form == "unknown" else form.endswith("secret")

        async def aw():
            return i if form == "await" else mk_output(loop, i, True, True)
        idv = {"plain": lambda: i, "output": lambda: mk_output(loop, i), "secret": lambda: mk_output(loop, i, True, True),
               "await": aw, "await-secret": aw, "unknown": lambda: mk_output(loop, UNKNOWN, False, S)}[form]()
        ver = sx.str("version", 2) if sx.choice("hasver", 2) else None
        url = sx.str("url", 2) if sx.choice("hasurl", 2) else None
        o = {"id": idv}
        if ver is not None:
            o["version"] = ver
        if url is not None:
            o["plugin_download_url"] = url
        r = make(sx, "read", {"p_one": "x"}, o)
        s = await observe(r.id)
        if s.exc is not None:
            raise s.exc
        q = mon.sent("ReadResource")[0]
        sx.check(sx.eq(q.id, i) if form != "unknown" else q.id == UNKNOWN_WIRE, "read-id", lambda: q)
        sx.check(not s.known if form == "unknown" else sx.and_(s.known, sx.eq(s.value, i)), "read-id-output", lambda: s)
        sx.check(sx.iff(s.secret, S), "read-id-secrecy", lambda: s)
        sx.check(q.type == "pkg:mod:Typ" and q.name == "res", "type-and-name", lambda: q)
        sx.check(sx.eq(q.version, ver or ""), "version", lambda: (ver, q))
        sx.check(sx.eq(q.pluginDownloadURL, url or ""), "plugin-download-url", lambda: (url, q))
        sx.check(plain(q.properties) == {"pOne": "x"}, "property-names", lambda: q)
        sx.check(q.acceptSecrets is True and q.acceptResources is True, "capabilities", lambda: q)
        sx.check(not mon.sent("RegisterResource"), "a-read-does-not-register")
        unset(sx, q, ["parent", "provider", "dependencies", "additionalSecretOutputs"])

    run(sx, main)


def remote_providers(sx):
    mon = engine(sx, sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        form = sx.choice("form", ["dict", "list", "provider", "provider+list"])
        P1, P2 = mk_provider(loop, "urn:p1", sx.str("id1", 2, 1), "pkg"), mk_provider(
            loop, "urn:p2", None if sx.concrete(sx.bool("unk")) else sx.str("id2", 2, 1), "two")
        o, exp = {}, {}
        if form == "dict":
            o["providers"], exp = {"pkg": P1, "two": P2}, {"pkg": P1, "two": P2}
        elif form == "list":
            o["providers"], exp = [P1, P2], {"pkg": P1, "two": P2}
        elif form == "provider":
            o["provider"], exp = P1, {"pkg": P1}
        else:
            o["provider"], o["providers"], exp = P1, [P2], None
        r = make(sx, "remote", {}, o)
        await observe(r.urn)
        q = mon.sent("RegisterResource")[0]
        if exp is None:
            return  # which of the two wins is not specified
        sx.check(set(q.providers) == set(exp), "remote-provider-names", lambda: q)
        for k, p in exp.items():
            u, i = await p.urn.future(), await p.id.future()
            sx.check(sx.eq(q.providers[k], u + "::" + (UNKNOWN_WIRE if i is None else i)), "remote-provider-ref",
                     lambda: (k, q))

    run(sx, main)


def caps(sx):
    """References to resources may be switched off through the environment."""
    import os

    v = sx.choice("env", ["unset", "", "true", "TRUE", "1", "0", "false", "yes"])
    if v != "unset":
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = v
    kind = sx.choice("kind", ["custom", "read"])
    mon = engine(sx, sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        r = make(sx, kind, {}, {"id": "i"} if kind == "read" else {})
        await observe(r.urn)
        q = mon.sent("ReadResource" if kind == "read" else "RegisterResource")[0]
        sx.check(q.acceptResources is (v.lower() not in ("true", "1")), "accept-resources", lambda: (v, q))

    run(sx, main)


def outputs(sx):
    """register_outputs"""
    import pulumi
    from pulumi.runtime.stack import wait_for_rpcs

    D = sx.concrete(sx.bool("dry_run"))
    mon = engine(sx, D)

    async def main(loop):
        s = sx.str("s", 3)
        form = sx.choice("form", ["dict", "output", "awaitable-member", "empty"])
        k = sx.choice("member", ["plain", "known", "unknown", "secret"])
        mem = {"plain": lambda: s, "known": lambda: mk_output(loop, s), "secret": lambda: mk_output(loop, s, True, True),
               "unknown": lambda: mk_output(loop, None, False)}[k]()
        exp = {"plain": s, "known": s, "secret": {SIG: SECRET, "value": s}, "unknown": UNKNOWN_WIRE}[k]

        async def aw():
            return mem
        C, Comp = classes(pulumi)
        urn = sx.str("urn", 3, 1)
        mon.on["RegisterResource"] = lambda req: register_response(req, {}, None, urn)
        r = Comp("pkg:mod:Typ", "res", {})
        outs = {"dict": lambda: {"p_one": mem, "b": 1}, "output": lambda: {"p_one": mem, "b": 1},
                "awaitable-member": lambda: {"p_one": aw(), "b": 1}, "empty": dict}[form]()
        r.register_outputs(outs)
        await wait_for_rpcs()
        reqs = mon.sent("RegisterResourceOutputs")
        sx.check(len(reqs) == 1, "exactly-one-request", lambda: reqs)
        q = reqs[0]
        sx.check(sx.eq(q.urn, urn), "outputs-urn", lambda: q)
        sx.check(wire_eq(sx, q.outputs, {} if form == "empty" else {"p_one": exp, "b": 1}), "outputs-values",
                 lambda: (form, k, q))

    run(sx, main)


def inputs(sx, kind):
    """What a resource is given arrives in its own request, in the form the engine and the kind of the resource call for."""
    import pulumi
    from pulumi.runtime.stack import wait_for_rpcs

    feats = sx.choice("features", [(), ("secrets",), ("secrets", "resourceReferences", "outputValues")])
    mon = engine(sx, sx.concrete(sx.bool("dry_run")), feats)

    @pulumi.input_type
    class Part:
        def __init__(self, k):
            pulumi.set(self, "k", k)

        @property
        @pulumi.getter(name="theK")
        def k(self):
            return pulumi.get(self, "k")

    async def main(loop):
        s, U = sx.str("s", 3), "urn:pulumi:stack::project::pkg:mod:Dep::d"
        k = sx.choice("member", ["plain", "known", "secret", "unknown", "unknown-secret", "of-resource", "resource"])
        where = sx.choice("where", ["top", "list", "map", "object"])
        as_values = kind == "remote" and "outputValues" in feats
        d = mk_resource(loop, U)
        out = {"known": (True, False, []), "secret": (True, True, []), "unknown": (False, False, []), "unknown-secret": (False, True, []),
               "of-resource": (True, False, [d])}.get(k)
        if k == "plain":
            v, e = s, s
        elif k == "resource":
            d = mk_resource(loop, U, id_=s)
            v, e = d, {SIG: RESOURCE, "urn": U, "id": s} if "resourceReferences" in feats else s
        else:
            known, sec, deps = out
            v = mk_output(loop, s if known else None, known, sec, deps)
            if as_values:
                e = {SIG: OUTPUT}
                if known:
                    e["value"] = s
                if sec:
                    e["secret"] = True
                if deps:
                    e["dependencies"] = [U]
            elif not known:
                e = UNKNOWN_WIRE
            else:
                e = {SIG: SECRET, "value": s} if sec and feats else s
        v, e = {"top": (v, e), "list": (["x", v], ["x", e]), "map": ({"k": v}, {"k": e}), "object": (Part(v), {"theK": e})}[where]
        r = make(sx, kind, {"p_one": v, "b": 1}, {"id": "i"} if kind == "read" else {})
        await wait_for_rpcs(False)
        (q,) = mon.sent("ReadResource" if kind == "read" else "RegisterResource")
        got = q.properties if kind == "read" else q.object
        sx.check(wire_eq(sx, got, {WN.get("p_one", "p_one"): e, "b": 1}), "inputs-in-the-request", lambda: (k, plain(got), e))
        if kind != "read":
            pd = {n: list(x.urns) for n, x in q.propertyDependencies.items()}
            sx.check(pd == {WN.get("p_one", "p_one"): [U] if k in ("of-resource", "resource") else [], "b": []}, "property-dependencies",
                     lambda: (k, pd))
            sx.check(q.remote == (kind == "remote") and q.custom == (kind == "custom"), "kind-of-resource", lambda: q)

    run(sx, main)


ALL3 = ("ignore_changes", "additional_secret_outputs", "replace_on_changes")
CELLS = [
    Cell("flags-custom", flags, dict(kind="custom"), weight=3),
    Cell("flags-component", flags, dict(kind="component")),
    Cell("flags-remote", flags, dict(kind="remote"), weight=3),
    Cell("names-custom", names, dict(kind="custom", which=ALL3)),
    Cell("names-remote", names, dict(kind="remote", which=ALL3)),
    Cell("names-typed", names, dict(kind="custom", which=ALL3, typed=True)),
    Cell("names-read", names, dict(kind="read", which=("additional_secret_outputs",))),
    Cell("names-read-typed", names, dict(kind="read", which=("additional_secret_outputs",), typed=True)),
    Cell("placement-custom", placement, dict(kind="custom")),
    Cell("placement-read", placement, dict(kind="read")),
    Cell("placement-component", placement, dict(kind="component")),
    Cell("placement-remote", placement, dict(kind="remote")),
    Cell("deps-custom", deps, dict(kind="custom", kinds=DEPK, nprops=1)),
    Cell("deps-pair", deps, dict(kind="custom", kinds=["none", "output-item"], nprops=2), weight=4),
    Cell("deps-remote", deps, dict(kind="remote", kinds=["none", "output-list"], nprops=1)),
    Cell("deps-read", deps, dict(kind="read", kinds=DEPK, nprops=1)),
    Cell("deps-schedules", deps, dict(kind="custom", kinds=["list", "output-item"], nprops=1, schedule=True),
         tiers=("thorough",)),
    Cell("timeouts", timeouts), Cell("aliases", aliases, dict(kind="custom")),
    Cell("aliases-component", aliases, dict(kind="component")), Cell("read", read),
    Cell("remote-providers", remote_providers), Cell("capabilities", caps), Cell("outputs", outputs),
] + [
    Cell("inputs-" + k, inputs, dict(kind=k)) for k in ("custom", "component", "remote", "read")
]
