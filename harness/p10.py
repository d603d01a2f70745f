"""Component providers: what the implementation is given, and what the engine gets back."""
from .lib import *

ANCHORS = ("pulumi.provider.server.", "pulumi.resource.DependencyResource", "pulumi.resource.DependencyProviderResource",
           "pulumi.resource._parse_resource_reference", "pulumi.runtime.settings.reset_options",
           "pulumi.runtime.config.set_all_config", "pulumi.runtime.rpc.deserialize_output_value")
BOUNDS = ("one construct or call request with up to two inputs out of 14 kinds of wire values (symbolic strings), each with "
          "0-2 dependencies; every form of the options (parent, protect, aliases, dependencies, up to two providers); "
          "results with two properties of 7 kinds; children created by the implementation that register or fail; two "
          "overlapping requests, all completion orders; symbolic preview flag and feature support")
OUTSIDE = ("more than two overlapping requests; a plain secret next to an output value in one input (the engine sends either "
           "form, not both); gRPC server plumbing")

U1, U2, U3 = ("urn:pulumi:stack::proj::pkg:mod:Typ::r%d" % i for i in (1, 2, 3))


class Stubs:
    """Replaces the gRPC stubs the settings module creates for an address by scripted monitors."""

    def __init__(self, monitors):
        self.m = monitors

    def __enter__(self):
        import grpc
        from pulumi.runtime.proto import resource_pb2_grpc, engine_pb2_grpc

        self.saved = [(grpc, "insecure_channel", grpc.insecure_channel),
                      (resource_pb2_grpc, "ResourceMonitorStub", resource_pb2_grpc.ResourceMonitorStub),
                      (engine_pb2_grpc, "EngineStub", engine_pb2_grpc.EngineStub)]
        grpc.insecure_channel = lambda addr, options=None: addr
        resource_pb2_grpc.ResourceMonitorStub = lambda ch: self.m.get(ch)
        engine_pb2_grpc.EngineStub = lambda ch: None
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def servicer(construct=None, call=None):
    import pulumi.provider as provider
    from pulumi.provider import server

    class Prov(provider.Provider):
        def __init__(self):
            super().__init__("1.2.3", '{"s": 1}')

        def construct(self, name, resource_type, inputs, options):
            return construct(name, resource_type, inputs, options)

        def call(self, token, args):
            return call(token, args)

    return server.ProviderServicer(Prov(), [], "engine:1")


KINDS = ["str", "num", "null", "unknown", "secret", "secret-unknown", "list-secret", "list-unknown", "dict", "ov-known",
         "ov-unknown", "ov-secret", "list-ov", "list-mixed", "dict-mixed", "nested-mixed", "ref"]
EMPTY = ["empty-dict", "empty-list", "empty-str", "false", "secret-empty", "ov-empty"]


def wire(sx, nm, k):
    """-> (wire, value meaning (U for unknown) or None if dropped, secret, has-unknown, deps of output values)"""
    from pulumi.output import UNKNOWN as U

    s = sx.str(nm + ".s", 3)
    W = UNKNOWN_WIRE
    sec = lambda v: {SIG: SECRET, "value": v}  # noqa
    return {
        "str": lambda: (s, s, False, False, None),
        "num": lambda: (2, 2, False, False, None),
        "null": lambda: (None, None, False, False, None),
        "unknown": lambda: (W, U, False, True, None),
        "secret": lambda: (sec(s), s, True, False, None),
        "secret-unknown": lambda: (sec(W), U, True, True, None),
        "list-secret": lambda: ([sec(s), "x"], [s, "x"], True, False, None),
        "list-unknown": lambda: ([W, s], [U, s], False, True, None),
        "dict": lambda: ({"a": s, "b": {"c": sec("x")}}, {"a": s, "b": {"c": "x"}}, True, False, None),
        "ov-known": lambda: ({SIG: OUTPUT, "value": s, "dependencies": [U1]}, s, False, False, {U1}),
        "ov-unknown": lambda: ({SIG: OUTPUT, "dependencies": [U1, U2]}, U, False, True, {U1, U2}),
        "ov-secret": lambda: ({SIG: OUTPUT, "value": [s], "secret": True}, [s], True, False, set()),
        "list-ov": lambda: ([{SIG: OUTPUT, "value": s, "secret": True, "dependencies": [U2]}, "x"], [s, "x"], True, False,
                            {U2}),
        "list-mixed": lambda: (["x", {SIG: OUTPUT, "value": s, "secret": True, "dependencies": [U2]}], ["x", s], True, False,
                               {U2}),
        "dict-mixed": lambda: ({"a": "x", "b": {SIG: OUTPUT, "value": s, "secret": True, "dependencies": [U2]}, "c": "y"},
                               {"a": "x", "b": s, "c": "y"}, True, False, {U2}),
        "nested-mixed": lambda: (["x", {"a": ["y", {SIG: OUTPUT, "value": s, "dependencies": [U1]}]}], ["x", {"a": ["y", s]}],
                                 False, False, {U1}),
        "ref": lambda: ({SIG: RESOURCE, "urn": U1, "id": s}, None, False, False, None),
        "empty-dict": lambda: ({}, {}, False, False, None),
        "empty-list": lambda: ([], [], False, False, None),
        "empty-str": lambda: ("", "", False, False, None),
        "false": lambda: (False, False, False, False, None),
        "secret-empty": lambda: (sec({}), {}, True, False, None),
        "ov-empty": lambda: ({SIG: OUTPUT, "value": [], "dependencies": [U2]}, [], False, False, {U2}),
    }[k]()


def request(kind, **kw):
    from pulumi.runtime import proto

    deps = kw.pop("deps", {})
    ins = kw.pop("inputs", {})
    base = dict(project="proj", stack="stack", monitorEndpoint="mon:1", dryRun=kw.pop("dry", False))
    base.update(kw)
    if kind == "construct":
        D = proto.ConstructRequest.PropertyDependencies
        return proto.ConstructRequest(inputs=struct(ins), inputDependencies={k: D(urns=v) for k, v in deps.items()},
                                      **base)
    D = proto.CallRequest.ArgumentDependencies
    return proto.CallRequest(args=struct(ins), argDependencies={k: D(urns=v) for k, v in deps.items()}, **base)


def has_output(v):
    from pulumi import Output

    return isinstance(v, Output) or isinstance(v, (list, tuple)) and any(has_output(x) for x in v) or \
        isinstance(v, dict) and any(has_output(x) for x in v.values())


async def urns(s):
    return {await r.urn.future() for r in s.deps}


def inputs(sx, kind, keys, kinds, depsets):
    import pulumi.provider as provider
    from pulumi import Output

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()

    async def main(loop):
        got = {}
        ran = []
        wires, exp, deps = {}, {}, {}
        for k in keys:
            kd = sx.choice(k + ".kind", kinds if D else [x for x in kinds if "unknown" not in x])
            w, val, sec, unk, od = wire(sx, k, kd)
            own = sx.choice(k + ".deps", depsets) if od is None else sorted(od)
            if kd == "ref":
                # (an unregistered package: the reference becomes the id, which is unknown when it is empty)
                val = sx.ite(sx.eq(w["id"], ""), "", w["id"])
            wires[k], exp[k], deps[k] = w, (kd, val, sec, unk), own

        async def look():
            for k in got:
                o = Output.from_input(got[k])
                s = await observe(o)
                # an output handed to the implementation resolves to a plain value (what an apply sees)
                s.wrapped = isinstance(got[k], Output) and has_output(await got[k].future(with_unknowns=True))
                s.urns = await urns(s)
                got[k] = s

        def body(ins):
            ran.append(1)
            got.update(ins)
            return asyncio.ensure_future(look())

        holder = {}

        def construct(name, resource_type, inputs, options):
            holder["t"] = body(inputs)
            return provider.ConstructResult(urn=U3, state={})

        def call(token, args):
            holder["t"] = body(args)
            return provider.CallResult(outputs={})

        sv = servicer(construct, call)
        if kind == "construct":
            await sv.Construct(request(kind, name="n", type="t:m:T", inputs=wires, deps=deps, dry=D), None)
        else:
            await sv.Call(request(kind, tok="t:m:f", inputs=wires, deps=deps, dry=D), None)
        await holder["t"]
        sx.check(len(ran) == 1, "implementation-runs-once")
        for k in keys:
            kd, val, sec, unk = exp[k]
            if kd == "null":
                sx.check(k not in got, "null-inputs-are-left-out", lambda: got)
                continue
            sx.check(k in got, "every-input-is-passed", lambda: (kd, got))
            s = got[k]
            sx.check(s.exc is None, "inputs-resolve", lambda: (kd, s))
            sx.check(not s.wrapped, "outputs-are-not-nested", lambda: (kd, s))
            if kd == "ref":
                empty = sx.eq(wires[k]["id"], "")
                sx.check(sx.iff(s.known, sx.not_(empty)) if D else True, "reference-known", lambda: (kd, s))
                if sx.concrete(empty):
                    continue
            if unk:
                sx.check(s.known is False, "unknown-inputs-are-unknown", lambda: (kd, s))
            else:
                sx.check(s.known, "known-inputs-are-known", lambda: (kd, s))
                sx.check(same(sx, s.value, val), "input-value", lambda: (kd, val, s))
            sx.check(s.secret == sec, "input-secrecy", lambda: (kd, s))
            sx.check(s.urns == set(deps[k]), "input-dependencies", lambda: (kd, deps[k], s.urns))

    with Stubs({"mon:1": mon}):
        run(sx, main)


def self_arg(sx):
    """A method call's receiver reaches the implementation although its name starts with underscores."""
    import pulumi.provider as provider
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()

    async def main(loop):
        got = {}
        reg = sx.choice("registered", [False, True])
        own = sx.choice("deps", [[], [U1], [U1, U2]])

        class Mod(pulumi.runtime.ResourceModule):
            def version(self):
                return None

            def construct(self, name, typ, urn):
                return mk_resource(loop, urn, False)

        if reg:
            pulumi.runtime.register_resource_module("pkg", "mod", Mod())

        def call(token, args):
            got.update(args, token=token)
            return provider.CallResult(outputs={})

        tok = sx.str("tok", 3)
        r = request("call", tok=tok, inputs={"__self__": {SIG: RESOURCE, "urn": U1}, "a": "x"},
                    deps={"__self__": own}, dry=D)
        await servicer(None, call).Call(r, None)
        sx.check("__self__" in got and "a" in got, "receiver-is-passed", lambda: got)
        sx.check(sx.eq(got["token"], tok), "token", lambda: got)
        v = got["__self__"]
        if own == [U1] and reg:
            sx.check(isinstance(v, pulumi.Resource), "reference-to-itself-is-passed-as-is", lambda: v)
        if isinstance(v, pulumi.Resource):  # (which stands for a dependency on itself only)
            sx.check(set(own) <= {U1}, "receiver-passed-as-is-loses-nothing", lambda: (own, v))
        if isinstance(v, pulumi.Output):
            s = await observe(v)
            sx.check(await urns(s) == set(own), "receiver-dependencies", lambda: (own, s))
            v = s.value
        sx.check(isinstance(v, pulumi.Resource) is reg, "receiver-resource", lambda: v)
        sx.check(sx.eq(await v.urn.future() if reg else v, U1), "receiver-urn", lambda: v)

    with Stubs({"mon:1": mon}):
        run(sx, main)


PREF = "urn:pulumi:stack::proj::pulumi:providers:%s::%s"


def options(sx, which, child="custom"):
    import pulumi
    import pulumi.provider as provider
    from pulumi.runtime import settings

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    V = lambda n, opts: sx.choice(n, opts) if n in which else opts[0]  # noqa

    async def main(loop):
        seen = {}
        parent = V("parent", ["", U1])
        protect = sx.concrete(sx.bool("protect")) if "protect" in which else False
        aliases = [sx.str("alias%d" % i, 2, 1) for i in range(V("aliases", [0, 1, 2]))]
        if len(aliases) == 2:
            sx.assume(sx.not_(sx.eq(*aliases)))
        deps = V("deps", [[], [U2], [U2, U3]])
        provs = V("providers", [{}, {"pkg": "p1"}, {"pkg": "p1", "other": "p2"}])
        id_ = sx.str("provid", 3, 1) if provs else "id"
        if provs:
            # (otherwise the reference would be ambiguous)
            sx.assume(not ("::" in id_) and not id_.startswith(":"))
        regp = V("registered", [False, True]) if provs else False
        built = []

        class Pkg(pulumi.runtime.ResourcePackage):
            def version(self):
                return None

            def construct_provider(self, name, typ, urn):
                built.append((name, typ, urn))
                return mk_provider(loop, urn, "from-package", "pkg")

        if regp:
            pulumi.runtime.register_resource_package("pkg", Pkg())
        cfg = {"proj:a": sx.str("cfg", 3), "proj:b": "x"} if "config" in which else {}
        org = {}
        if "config" in which:
            org = dict(config=cfg, configSecretKeys=V("secretkeys", [[], ["proj:a"]]), parallel=V("parallel", [0, 4]))
        nm, ty = "comp", "t:m:T"

        class Comp(pulumi.ComponentResource):
            def __init__(self, opts):
                super().__init__(ty, nm, {}, opts)
                o = pulumi.ResourceOptions(parent=self)
                if child == "custom":
                    self.child = pulumi.CustomResource("pkg:mod:Typ", "child", {}, o)
                else:
                    self.child = pulumi.ComponentResource("pkg:mod:C", "child", {}, o)

        def construct(name, resource_type, inputs, options):
            seen.update(name=name, type=resource_type, options=options, dry=settings.is_dry_run(),
                        project=pulumi.get_project(), stack=pulumi.get_stack(), inputs=inputs,
                        cfg=pulumi.Config("proj").get("a"), root=settings.get_root_resource(),
                        parallel=settings.SETTINGS.parallel,
                        secret=[pulumi.runtime.is_config_secret(k) for k in ("proj:a", "proj:b")])
            c = Comp(options)
            return provider.ConstructResult(urn=c.urn, state={})

        sv = servicer(construct)
        r = request("construct", name=nm, type=ty, parent=parent, protect=protect, aliases=aliases, dependencies=deps,
                    providers={k: PREF % (k, v) + "::" + id_ for k, v in provs.items()}, dry=D, **org)
        resp = await sv.Construct(r, None)
        q = {x.name: x for x in mon.sent("RegisterResource")}
        sx.check(set(q) == {nm, "child"}, "children-registered-before-the-answer", lambda: q)
        sx.check(sx.eq(resp.urn, urn_of(q[nm])), "construct-urn", lambda: resp)
        sx.check(seen["name"] == nm and seen["type"] == ty, "construct-name-type", lambda: seen)
        sx.check(seen["dry"] is D, "construct-preview-flag", lambda: seen)
        sx.check(seen["project"] == "proj" and seen["stack"] == "stack", "construct-project-stack", lambda: seen)
        sx.check(seen["root"] is None, "construct-has-no-root", lambda: seen)
        if "config" in which:
            sx.check(sx.eq(seen["cfg"], cfg["proj:a"]), "construct-config", lambda: seen)
            sx.check(seen["secret"] == [k in org["configSecretKeys"] for k in ("proj:a", "proj:b")],
                     "construct-secret-config", lambda: seen)
            sx.check(seen["parallel"] == (org["parallel"] or None), "construct-parallel", lambda: seen)
        c = q[nm]
        sx.check(sx.eq(c.parent, parent), "construct-parent", lambda: (parent, c))
        sx.check(c.protect is protect, "construct-protect", lambda: c)
        sx.check(set(c.dependencies) == set(deps), "construct-dependencies", lambda: (deps, c))
        al = list(c.aliases)
        sx.check(len(al) == len(aliases) and sx.and_(*[sx.eq(a, b) for a, b in zip(al, aliases)]), "construct-aliases",
                 lambda: (aliases, al))
        h = q["child"]
        sx.check(sx.eq(h.parent, urn_of(c)), "child-parent", lambda: h)
        sx.check(h.protect is protect, "child-inherits-protect", lambda: h)
        if child == "custom":
            pu = PREF % ("pkg", "p1")
            exp = "" if not provs else pu + ("::from-package" if regp else "::" + id_)
            sx.check(sx.eq(h.provider, exp), "child-inherits-provider", lambda: (exp, h))
        if regp:
            sx.check(built == [("p1", "pulumi:providers:pkg", PREF % ("pkg", "p1"))], "provider-from-package",
                     lambda: built)
        for p, n in provs.items():
            pr = seen["options"].providers[p]
            sx.check(pr.package == p, "provider-package", lambda: pr.package)
            sx.check(sx.eq(await pr.urn.future(), PREF % (p, n)), "provider-urn")
            if not (regp and p == "pkg"):
                for o, v in ((pr.id, id_), (pr.urn, PREF % (p, n))):
                    g = await observe(o)
                    sx.check(sx.and_(g.known is True, g.secret is False, sx.eq(g.value, v)), "provider-id", lambda: (v, g))  # noqa: B023

    with Stubs({"mon:1": mon}):
        run(sx, main)


RES = ["str", "none", "unknown", "secret", "dep", "dep2", "list-secret", "res"]


def results(sx, kind, feats, kinds, keys):
    """What the implementation returns is what the engine gets: values, secrecy, unknowns, dependencies, failures."""
    import pulumi.provider as provider
    from pulumi import Output
    from pulumi.output import UNKNOWN

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor(feats)
    S, R = "secrets" in feats, "resourceReferences" in feats

    async def main(loop):
        state, exp, deps = {"name": "nm", "urns": "us"}, {"name": "nm", "urns": "us"}, {"name": set(), "urns": set()}
        r1 = mk_resource(loop, U1, True, "id1")
        r2 = mk_resource(loop, U2, True, "id2")
        sec = lambda v: {SIG: SECRET, "value": v} if S else v  # noqa
        for k in keys:
            kd = sx.choice(k + ".kind", kinds if D else [x for x in kinds if x != "unknown"])
            s = sx.str(k + ".s", 3)
            v, e, d = {
                "str": lambda: (s, s, set()),
                "none": lambda: (None, None, set()),
                "unknown": lambda: (mk_output(loop, UNKNOWN, False, False, [r1]), UNKNOWN_WIRE, {U1}),
                "secret": lambda: (mk_output(loop, s, True, True), sec(s), set()),
                "dep": lambda: (mk_output(loop, s, True, False, [r1], ext=("val",)), s, {U1}),
                "dep2": lambda: (mk_output(loop, {"a": s}, True, True, [r1, r2]), sec({"a": s}), {U1, U2}),
                "list-secret": lambda: ([s, mk_output(loop, "x", True, True, [r2])], [s, sec("x")], {U2}),
                "res": lambda: (r1, {SIG: RESOURCE, "urn": U1, "id": "id1"} if R else "id1", {U1}),
            }[kd]()
            state[k] = v
            if e is not None:
                exp[k], deps[k] = e, d
        fails = sx.choice("failures", [None, [], [("p", "why")], [("p", "why"), ("q", "other")]]) if kind == "call" else None
        u = sx.str("urn", 3)
        uk = sx.choice("urnkind", ["str", "output", "future"])
        urn = {"str": lambda: u, "output": lambda: mk_output(loop, u, ext=("val",)),
               "future": lambda: fut(loop, u, ext="urn")}[uk]() if kind == "construct" else None

        def construct(name, resource_type, inputs, options):
            st = dict(state)
            if sx.choice("extra", 2):
                st.update(id="i", urn="u")
            return provider.ConstructResult(urn=urn, state=st)

        def call(token, args):
            return provider.CallResult(outputs=state, failures=None if fails is None else [
                provider.CheckFailure(p, r) for p, r in fails])

        sv = servicer(construct, call)
        if kind == "construct":
            resp = await sv.Construct(request(kind, name="n", type="t:m:T", dry=D), None)
            sx.check(sx.eq(resp.urn, u), "result-urn", lambda: resp)
            st, sd = resp.state, resp.stateDependencies
        else:
            resp = await sv.Call(request(kind, tok="t", dry=D), None)
            st, sd = getattr(resp, "return"), resp.returnDependencies
            got = [(f.property, f.reason) for f in resp.failures]
            sx.check(got == (fails or []), "result-failures", lambda: (fails, got))
        sx.check(wire_eq(sx, st, exp), "result-state", lambda: (exp, plain(st)))
        for k in exp:
            g = set(sd[k].urns) if k in sd else set()
            sx.check(g == deps[k], "result-dependencies", lambda: (k, deps[k], g))

    with Stubs({"mon:1": mon}):
        run(sx, main)


def faults(sx, kind):
    """A request whose implementation or children fail is answered with a failure, and does not block later ones."""
    import pulumi
    import pulumi.provider as provider

    D = sx.concrete(sx.bool("dry_run"))
    fault = sx.choice("fault", ["raise", "child", "state", "none", "input"] + (["urn"] if kind == "construct" else []))
    mon = basic_monitor()

    def reg(req):
        if fault == "child" and req.name == "bad":
            raise rpc_error("UNKNOWN", "engine rejects it")
        return register_response(req)

    mon.on["RegisterResource"] = reg

    async def main(loop):
        n = [0]

        def body():
            n[0] += 1
            if n[0] == 1:
                if fault == "raise":
                    raise Boom("implementation")
                if fault == "child":
                    pulumi.CustomResource("pkg:mod:Typ", "bad", {})
            v = mk_output(loop, None, exc=Boom("x"), ext=("val",)) if fault == "state" and n[0] == 1 else "ok"
            return v

        def construct(name, resource_type, inputs, options):
            v = body()
            u = mk_output(loop, None, exc=Boom("x")) if fault == "urn" and n[0] == 1 else U3
            return provider.ConstructResult(urn=u, state={"a": v})

        def call(token, args):
            return provider.CallResult(outputs={"a": body()})

        sv = servicer(construct, call)
        wire_in = {"a": {SIG: "bad-signature"}} if fault == "input" else {"a": "x"}

        async def one(ins):
            if kind == "construct":
                return await sv.Construct(request(kind, name="n", type="t:m:T", dry=D, inputs=ins), None)
            return await sv.Call(request(kind, tok="t", dry=D, inputs=ins), None)

        try:
            await one(wire_in)
            failed = False
        except Exception:  # noqa
            failed = True
        sx.check(failed is (fault != "none"), "failure-is-reported", lambda: (fault, failed))
        if fault == "input":
            sx.check(n[0] == 0, "implementation-not-run-on-bad-input")
        n[0] = 5
        r = await one({"a": "x"})
        sx.check(r is not None, "later-requests-are-served")

    with Stubs({"mon:1": mon}):
        run(sx, main)


def after(sx, kinds):
    """Every request is answered for what it does itself, whatever earlier ones did or left behind."""
    import pulumi
    import pulumi.provider as provider

    how = [sx.choice("how%d" % i, ["ok", "raise", "child", "late-child", "apply", "lookup"]) for i in range(len(kinds) - 1)] + [
        sx.choice("last", ["ok", "child"])]
    mon = basic_monitor()
    mon.on["Invoke"] = lambda req: (_ for _ in ()).throw(rpc_error("UNKNOWN", "no such thing"))

    def reg(req):
        if req.name.startswith("bad"):
            raise rpc_error("UNKNOWN", req.name)
        return register_response(req)

    mon.on["RegisterResource"] = reg

    async def main(loop):
        def body(i):
            h = how[i]
            pulumi.CustomResource("pkg:mod:Typ", "good%d" % i, {})
            if h == "raise":
                raise Boom("implementation %d" % i)
            if h == "child":
                pulumi.CustomResource("pkg:mod:Typ", "bad%d" % i, {})
            if h == "late-child":  # its registration fails some time after the request has failed
                pulumi.CustomResource("pkg:mod:Typ", "bad%d" % i, {"p": fut(loop, "v", ext="late%d" % i)})
                raise Boom("implementation %d" % i)
            if h == "lookup":
                r = pulumi.CustomResource.__new__(pulumi.CustomResource)
                pulumi.CustomResource.__init__(r, "pkg:mod:Typ", "got%d" % i, {}, pulumi.ResourceOptions(urn=U3))
            v = mk_output(loop, "v%d" % i, ext=("val",))
            if h == "apply":
                return v.apply(lambda _: (_ for _ in ()).throw(Boom("apply %d" % i)))
            return v

        sv = servicer(lambda name, resource_type, inputs, options: provider.ConstructResult(urn=U3, state={"a": body(int(name))}),
                      lambda token, args: provider.CallResult(outputs={"a": body(int(token))}))
        for i, kind in enumerate(kinds):
            try:
                if kind == "construct":
                    r = plain((await sv.Construct(request(kind, name=str(i), type="t:m:T"), None)).state)
                else:
                    r = plain(getattr(await sv.Call(request(kind, tok=str(i)), None), "return"))
            except Exception as e:  # noqa
                sx.check(how[i] != "ok", "failures-of-others-do-not-fail-a-request", lambda: (how, i, e))
                continue
            sx.check(how[i] == "ok", "a-failing-request-is-not-answered", lambda: (how, i, r))
            sx.check(r == {"a": "v%d" % i}, "answered-for-itself", lambda: (how, i, r))
            sx.check("good%d" % i in [q.name for q in mon.sent("RegisterResource")], "answered-when-done", lambda: (how, i))

    with Stubs({"mon:1": mon}):
        run(sx, main)


def late(sx, kind, waiting):
    """The answer waits for resources that are only registered once others are, and fails if they do."""
    import pulumi
    import pulumi.provider as provider

    D = sx.concrete(sx.bool("dry_run"))
    bad = sx.choice("failing", ["", "second", "third"])
    mon = basic_monitor()
    done = []

    def reg(req):
        if req.name == bad:
            raise rpc_error("UNKNOWN", "engine rejects it")
        done.append(req.name)
        return register_response(req)

    mon.on["RegisterResource"] = reg

    async def main(loop):
        def res(nm, props=None):
            return pulumi.CustomResource("pkg:mod:Typ", nm, props or {})

        def body():
            for i in range(waiting):
                res("slow%d" % i)
            a = res("first")

            def third(_):
                res("third")

            def second(_):
                res("second").urn.apply(third)

            a.urn.apply(second)

        def construct(name, resource_type, inputs, options):
            body()
            return provider.ConstructResult(urn=U3, state={})

        def call(token, args):
            body()
            return provider.CallResult(outputs={})

        sv = servicer(construct, call)
        try:
            if kind == "construct":
                await sv.Construct(request(kind, name="n", type="t:m:T", dry=D), None)
            else:
                await sv.Call(request(kind, tok="t", dry=D), None)
            failed = False
        except Exception:  # noqa
            failed = True
        sx.check(failed is (bad != ""), "late-failure-is-reported", lambda: (bad, failed, done))
        if not failed:
            exp = {"slow%d" % i for i in range(waiting)} | {"first", "second", "third"}
            sx.check(set(done) == exp, "answer-waits-for-late-resources", lambda: (exp, done))

    with Stubs({"mon:1": mon}):
        run(sx, main)


def overlap(sx, kinds):
    """Overlapping requests each run entirely in their own project, stack, configuration, preview flag and engine."""
    import pulumi
    import pulumi.provider as provider
    from pulumi.runtime import settings

    dry = [sx.concrete(sx.bool("dry1")), sx.concrete(sx.bool("dry2"))]
    mons = {"mon:1": basic_monitor(), "mon:2": basic_monitor(())}

    async def main(loop):
        seen = {0: [], 1: []}

        def snap(i):
            seen[i].append((settings.is_dry_run(), pulumi.get_project(), pulumi.get_stack(),
                            pulumi.Config("c").get("k"), settings.get_monitor()))

        def body(i):
            snap(i)
            pulumi.CustomResource("pkg:mod:Typ", "child%d" % i, {"p": fut(loop, "v", ext="in%d" % i)})

            def cb(v):
                snap(i)
                return v

            return mk_output(loop, "v%d" % i, True, True, ext=("val",)).apply(cb)

        def construct(name, resource_type, inputs, options):
            return provider.ConstructResult(urn=U3, state={"a": body(int(name))})

        def call(token, args):
            return provider.CallResult(outputs={"a": body(int(token))})

        sv = servicer(construct, call)

        def start(i):
            kw = dict(project="proj%d" % i, stack="st%d" % i, monitorEndpoint="mon:%d" % (i + 1), dry=dry[i],
                      config={"c:k": "v%d" % i})
            if kinds[i] == "construct":
                return asyncio.ensure_future(sv.Construct(request("construct", name=str(i), type="t:m:T", **kw), None))
            return asyncio.ensure_future(sv.Call(request("call", tok=str(i), **kw), None))

        t0 = start(0)
        if sx.choice("gap", 2):
            await fut(loop, None, ext="gap")
        t1 = start(1)
        r = [await t0, await t1]
        for i in (0, 1):
            exp = (dry[i], "proj%d" % i, "st%d" % i, "v%d" % i, mons["mon:%d" % (i + 1)])
            sx.check(len(seen[i]) == 2 and all(x == exp for x in seen[i]), "own-environment", lambda: (exp, seen))
            st = plain(r[i].state if kinds[i] == "construct" else getattr(r[i], "return"))
            v = "v%d" % i
            sx.check(wire_eq(sx, st, {"a": {SIG: SECRET, "value": v} if i == 0 else v}), "own-features", lambda: (i, st))
            names = [q.name for q in mons["mon:%d" % (i + 1)].sent("RegisterResource")]
            sx.check(names == ["child%d" % i], "own-engine", lambda: (i, names))

    with Stubs(mons):
        run(sx, main)


def sequence(sx, kinds, vary):
    """Every request runs in what it says itself, and in nothing that an earlier one said."""
    import pulumi
    import pulumi.provider as provider
    from pulumi.runtime import settings

    n = len(kinds)
    V = lambda nm, i, opts: sx.choice("%s%d" % (nm, i), opts) if nm in vary else opts[i % len(opts)]  # noqa
    mons = {"mon:%d" % i: basic_monitor(V("features", i, [ALLF, ()])) for i in range(n)}
    vals = [sx.str("val%d" % i, 2) for i in range(n)]
    cfgs = [V("config", i, [{"c:a": vals[i]}, {"c:b": vals[i]}, {}]) for i in range(n)]
    secrets = [V("secretkeys", i, [["c:a"], [], ["c:b"]]) for i in range(n)]
    par = [V("parallel", i, [4, 0]) for i in range(n)]
    dry = [V("dry", i, [True, False]) for i in range(n)]

    async def main(loop):
        seen = []

        def body(i):
            seen.append(dict(dry=settings.is_dry_run(), project=pulumi.get_project(), stack=pulumi.get_stack(),
                             a=pulumi.Config("c").get("a"), b=pulumi.Config("c").get("b"), parallel=settings.SETTINGS.parallel,
                             secret=[pulumi.runtime.is_config_secret(k) for k in ("c:a", "c:b")],
                             root=settings.get_root_resource() is not None))
            pulumi.CustomResource("pkg:mod:Typ", "child%d" % i, {})
            return mk_output(loop, "v", True, True)

        sv = servicer(lambda name, resource_type, inputs, options: provider.ConstructResult(urn=U3, state={"p": body(int(name))}),
                      lambda token, args: provider.CallResult(outputs={"p": body(int(token))}))
        for i, kind in enumerate(kinds):
            kw = dict(config=cfgs[i], configSecretKeys=secrets[i], parallel=par[i], dry=dry[i])
            if kind == "construct":
                q = request(kind, name=str(i), type="t:m:T", **kw)
            else:
                q = request(kind, tok=str(i), **kw)
            q.project, q.stack, q.monitorEndpoint = "proj%d" % i, "st%d" % i, "mon:%d" % i
            r = await (sv.Construct(q, None) if kind == "construct" else sv.Call(q, None))
            g = seen[i]
            sx.check((g["dry"], g["project"], g["stack"], g["root"]) == (dry[i], "proj%d" % i, "st%d" % i, False), "its-own-settings",
                     lambda: g)
            for k in "ab":
                e = cfgs[i].get("c:" + k)
                sx.check(g[k] is None if e is None else g[k] is not None and sx.eq(g[k], e), "its-own-config", lambda: (cfgs, g))
            sx.check(g["secret"] == [k in secrets[i] for k in ("c:a", "c:b")], "its-own-secret-keys", lambda: (secrets, g))
            sx.check(g["parallel"] == (par[i] or None), "its-own-parallel", lambda: (par, g))
            m = mons["mon:%d" % i]
            sx.check([x.name for x in m.sent("RegisterResource")] == ["child%d" % i], "its-own-engine", lambda: (i, m.requests))
            st = plain(r.state if kind == "construct" else getattr(r, "return"))
            sx.check(wire_eq(sx, st, {"p": {SIG: SECRET, "value": "v"} if "secrets" in m.features else "v"}), "its-own-features",
                     lambda: (i, st))

    with Stubs(mons):
        run(sx, main)


def meta(sx):
    """Capabilities, version and schema."""
    from pulumi.runtime import proto

    async def main(loop):
        sv = servicer()
        r = await sv.Configure(proto.ConfigureRequest(), None)
        sx.check(r.acceptSecrets and r.acceptResources and r.acceptOutputs, "capabilities")
        i = await sv.GetPluginInfo(None, None)
        sx.check(i.version == "1.2.3", "version")
        v = sx.choice("version", [0, 1])
        try:
            s = await sv.GetSchema(proto.GetSchemaRequest(version=v), None)
            ok = s.schema == '{"s": 1}'
        except Exception:  # noqa
            ok = None
        sx.check(ok is (True if v == 0 else None), "schema", lambda: (v, ok))

    run(sx, main)


ALLF = ("secrets", "resourceReferences", "outputValues")
DS = [[], [U1], [U3, U2]]
CELLS = [
    Cell("construct-inputs", inputs, dict(kind="construct", keys=("a",), kinds=KINDS, depsets=DS)),
    Cell("call-inputs", inputs, dict(kind="call", keys=("a",), kinds=KINDS, depsets=DS)),
    Cell("construct-empty-inputs", inputs, dict(kind="construct", keys=("a",), kinds=EMPTY, depsets=DS)),
    Cell("call-empty-inputs", inputs, dict(kind="call", keys=("a",), kinds=EMPTY, depsets=DS)),
    Cell("construct-two-inputs", inputs, dict(kind="construct", keys=("a", "b"), depsets=[[], [U1]],
                                              kinds=["str", "unknown", "secret", "list-ov", "null", "ov-secret"]),
         weight=2),
    Cell("call-self", self_arg),
    Cell("options-resource", options, dict(which=("parent", "protect", "aliases", "deps"))),
    Cell("options-resource-component", options, dict(which=("parent", "protect"), child="component")),
    Cell("options-providers", options, dict(which=("parent", "providers", "registered"))),
    Cell("options-config", options, dict(which=("config", "secretkeys", "parallel"))),
    Cell("construct-results", results, dict(kind="construct", feats=ALLF, kinds=RES, keys=("p_a",))),
    Cell("call-results", results, dict(kind="call", feats=ALLF, kinds=RES, keys=("p_a",))),
    Cell("construct-two-results", results, dict(kind="construct", feats=ALLF, kinds=RES, keys=("a", "b")), weight=2),
    Cell("call-two-results", results, dict(kind="call", feats=ALLF, kinds=["str", "dep", "dep2", "list-secret"], keys=("a", "b"))),
    Cell("construct-results-old-engine", results, dict(kind="construct", feats=(), kinds=RES, keys=("a",))),
    Cell("construct-faults", faults, dict(kind="construct")),
    Cell("call-faults", faults, dict(kind="call")),
    Cell("after-construct", after, dict(kinds=("construct", "construct"))),
    Cell("after-mixed", after, dict(kinds=("construct", "call"))),
    Cell("after-call", after, dict(kinds=("call", "construct"))),
    Cell("after-three", after, dict(kinds=("construct", "construct", "call")), tiers=("thorough",)),
    Cell("construct-late", late, dict(kind="construct", waiting=1)),
    Cell("call-late", late, dict(kind="call", waiting=1)),
    Cell("construct-late-2", late, dict(kind="construct", waiting=2)),
    Cell("sequence-config", sequence, dict(kinds=("construct", "construct"), vary=("config", "secretkeys"))),
    Cell("sequence-settings", sequence, dict(kinds=("construct", "construct"), vary=("features", "parallel", "dry"))),
    Cell("sequence-config-mixed", sequence, dict(kinds=("construct", "call"), vary=("config", "secretkeys")), tiers=("thorough",)),
    Cell("sequence-config-call", sequence, dict(kinds=("call", "call"), vary=("config", "secretkeys"))),
    Cell("sequence-settings-call", sequence, dict(kinds=("call", "call"), vary=("features", "parallel", "dry"))),
    Cell("sequence-three", sequence, dict(kinds=("construct", "call", "construct"), vary=("secretkeys", "dry", "features")),
         tiers=("thorough",)),
    Cell("overlap-construct", overlap, dict(kinds=("construct", "construct")), weight=3),
    Cell("overlap-mixed", overlap, dict(kinds=("construct", "call")), weight=3),
    Cell("meta", meta),
]
