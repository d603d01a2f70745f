"""A failure anywhere in a resource operation reaches every output of that resource, and the program."""
import asyncio

from .lib import *

ANCHORS = ("pulumi.runtime.resource.register_resource", "pulumi.runtime.resource.read_resource",
           "pulumi.runtime.resource.get_resource", "pulumi.runtime.resource.resource_output",
           "pulumi.runtime.resource.prepare_resource", "pulumi.runtime.rpc.resolve_outputs_due_to_exception",
           "pulumi.runtime.rpc_manager", "pulumi.runtime.settings.grpc_error_to_exception",
           "pulumi.runtime.settings.handle_grpc_error")
BOUNDS = ("one resource with two properties and one resource that depends on it; one fault out of: a failing property "
          "(awaitable, output, nested output, unserializable value), failing dependency, parent, provider, alias, id, an "
          "RPC error (unavailable or other), a malformed response, a failing name translation, or an invoke failure; "
          "the fault's awaitable may complete at any point; symbolic preview flag")
OUTSIDE = "two simultaneous faults; faults inside gRPC itself"


class Opaque:
    """Not serializable: the SDK must reject it."""


def cell(sx, kind, faults, dependent=True, ext=False, kinds=False):
    import pulumi
    from pulumi.runtime.proto import resource_pb2
    from pulumi.runtime.stack import wait_for_rpcs

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)
    fault = sx.choice("fault", faults)
    late = sx.concrete(sx.bool("late")) if ext else False
    urn = "urn:pulumi:stack::project::pkg:mod:Typ::res"
    rpcname = {"custom": "RegisterResource", "component": "RegisterResource", "remote": "RegisterResource",
               "read": "ReadResource", "get": "Invoke"}[kind]

    async def main(loop):
        exc = kind_of_failure(sx.choice("what", KINDS))("injected") if kinds == "what" else Boom("injected")
        code = sx.choice("code", CODES) if kinds == "code" else "UNKNOWN"

        def failing(nm):
            if late:
                return quiet(fut(loop, None, exc, ext=nm))

            async def f():
                raise exc
            return f()

        def failing_out(nm):
            return mk_output(loop, None, True, False, [], exc=exc, ext={"val"} if late else ())

        s = sx.str("s", 2)
        props = {"p_one": s, "p_two": "x"}
        kw = {}
        good_resp = {"p_one": s}

        if fault == "prop-await":
            props["p_two"] = failing("f")
        elif fault == "prop-output":
            props["p_two"] = failing_out("f")
        elif fault == "prop-nested":
            props["p_two"] = [{"k": failing_out("f")}]
        elif fault == "prop-type":
            props["p_two"] = Opaque()
        elif fault == "depends-await":
            kw["depends_on"] = failing("f")
        elif fault == "depends-urn":
            d = mk_resource(loop, "urn:d")
            d.__dict__["urn"] = failing_out("f")
            kw["depends_on"] = [d]
        elif fault == "prop-dep-urn":
            d = mk_resource(loop, "urn:d")
            d.__dict__["urn"] = failing_out("f")
            props["p_two"] = mk_output(loop, "v", True, False, [d])
        elif fault == "parent-urn":
            d = mk_resource(loop, "urn:d", custom=False)
            d._name, d._aliases, d._transformations = "par", [], []
            d.__dict__["urn"] = failing_out("f")
            kw["parent"] = d
        elif fault == "provider-id":
            kw["provider"] = mk_provider(loop, "urn:prov", exc=exc)
        elif fault == "alias":
            kw["aliases"] = [failing_out("f")]
        elif fault == "bad-timeouts":
            kw["custom_timeouts"] = 5
        if kind == "read":
            kw["id"] = failing_out("f") if fault == "id" else "read-id"
        if kind == "get":
            kw["urn"] = urn

        def respond(req):
            if fault == "rpc-unavailable":
                raise rpc_error("UNAVAILABLE", "gone")
            if fault == "rpc-error":
                raise rpc_error(code, "engine says no")
            if fault == "rpc-crash":
                raise ValueError("transport")
            o = good_resp
            if fault == "malformed":
                o = {"p_one": s, "p_two": {SIG: "bogus"}}
            if fault == "malformed-asset":
                o = {"p_one": s, "p_two": {SIG: ASSET, "bogus": "x"}}
            if rpcname == "Invoke":
                if fault == "invoke-failure":
                    return invoke_response({}, [("p", "not found")])
                if fault == "invoke-failure-and-state":
                    return invoke_response({"urn": urn, "id": "i", "state": o}, [("p", "not found")])
                if fault == "malformed-top":
                    return invoke_response({"urn": urn, "id": "i"})
                return invoke_response({"urn": urn, "id": "i", "state": o})
            if rpcname == "ReadResource":
                return resource_pb2.ReadResourceResponse(urn=urn, properties=struct(o))
            return register_response(req, o, None, urn)

        mon.on[rpcname] = respond

        class Mix:
            def translate_output_property(self, prop):
                if fault == "translate":
                    raise exc
                return prop

            def translate_input_property(self, prop):
                if fault == "translate-input":
                    raise exc
                return prop

        class C(Mix, pulumi.CustomResource):
            pass

        class Comp(Mix, pulumi.ComponentResource):
            pass

        o = pulumi.ResourceOptions(**kw)
        if kind == "component":
            r = Comp("pkg:mod:Typ", "res", props, o)
        elif kind == "remote":
            r = Comp("pkg:mod:Typ", "res", props, o, remote=True)
        else:
            r = C("pkg:mod:Typ", "res", props, o)
        outs = {"urn": r.urn, "p_one": r.__dict__["p_one"], "p_two": r.__dict__["p_two"]}
        if kind not in ("component", "remote"):
            outs["id"] = r.id
        r2 = ran = None
        ran = []
        if dependent:
            mapped = outs["p_one"].apply(lambda v: ran.append(v) or v)
            r2mon = mon.on.get("RegisterResource")

            def reg(req):
                if req.name == "down":
                    return register_response(req)
                return r2mon(req)
            mon.on["RegisterResource"] = reg
            r2 = pulumi.CustomResource("pkg:mod:Typ2", "down", {"q": mapped})
        werr = None
        if sx.concrete(sx.bool("wait-first")):
            try:
                await wait_for_rpcs()
            except Exception as e:  # noqa
                werr = e
            waited = True
        else:
            waited = False
        seen = {}
        if not waited:
            for nm, x in outs.items():
                seen[nm] = await observe(x)
            try:
                await wait_for_rpcs()
            except Exception as e:  # noqa
                werr = e
        if fault == "none":
            sx.check(werr is None, "no-fault-no-error", lambda: werr)
            if waited:
                for nm, x in outs.items():
                    seen[nm] = await observe(x)
            for nm, x in seen.items():
                sx.check(x.exc is None, "no-fault-resolves", lambda: (nm, x))
            if dependent and not D:
                sx.check(len(ran) == 1, "no-fault-callback-ran", lambda: ran)
            if dependent:
                sx.check([q.name for q in mon.sent("RegisterResource")][-1:] == ["down"], "no-fault-dependent-sent")
            return
        sx.check(werr is not None, "failure-fails-the-program", lambda: (kind, fault))
        before = fault in ("prop-await", "prop-output", "prop-nested", "prop-type", "depends-await", "depends-urn",
                           "prop-dep-urn", "parent-urn", "provider-id", "alias", "id", "translate-input",
                           "bad-timeouts")
        sent = [q for q in mon.sent(rpcname) if getattr(q, "name", None) != "down"]
        sx.check(len(sent) == (0 if before else 1), "no-request-after-failed-preparation", lambda: sent)
        after_response = fault in ("malformed", "malformed-top", "malformed-asset", "translate")
        for nm, x in seen.items():
            if after_response and nm in ("urn", "id"):
                sx.check(x.exc is not None or (x.known is True and x.exc_known is None), "urn-id-settle", lambda: (nm, x))
                continue
            sx.check(x.exc is not None, "failure-reaches-every-output", lambda: (kind, fault, nm, x))
            sx.check(x.exc_known is not None and x.exc_secret is not None, "failure-reaches-every-component",
                     lambda: (kind, fault, nm, x))
        # the cause is what is reported, not a consequence of it
        sx.check(not isinstance(werr, asyncio.InvalidStateError), "cause-surfaces", lambda: (fault, repr(werr)))
        if fault in ("prop-await", "prop-output", "prop-nested", "depends-await", "depends-urn", "prop-dep-urn", "parent-urn", "provider-id", "alias",
                     "id", "translate", "translate-input"):
            sx.check(werr is exc, "cause-surfaces", lambda: (fault, repr(werr)))
            for nm, x in seen.items():
                sx.check(x.exc is None or x.exc is exc, "cause-reaches-outputs", lambda: (fault, nm, repr(x.exc)))  # noqa: B023
        if fault == "rpc-unavailable":
            sx.check(isinstance(werr, pulumi.RunError) and "terminated" in str(werr), "unavailable-is-run-error",
                     lambda: repr(werr))
        if fault == "rpc-error":
            sx.check("engine says no" in str(werr), "rpc-details-surface", lambda: repr(werr))
        if fault.startswith("invoke-failure"):
            sx.check("not found" in str(werr), "invoke-failure-surfaces", lambda: repr(werr))
        if dependent:
            sx.check(ran == [], "no-callback-on-failed-output", lambda: ran)
            sx.check(not [q for q in mon.sent("RegisterResource") if q.name == "down"],
                     "dependent-not-registered", lambda: mon.requests)
            if not waited:
                x = await observe(r2.urn)
                sx.check(x.exc is not None, "failure-propagates-to-dependents", lambda: x)

    run(sx, main)


PREP = ["none", "prop-await", "prop-output", "prop-nested", "prop-type", "depends-await", "depends-urn", "prop-dep-urn",
        "parent-urn", "provider-id", "alias", "translate-input"]
RPC = ["rpc-unavailable", "rpc-error", "rpc-crash", "malformed", "malformed-asset", "translate"]
CELLS = [
    Cell("custom-prep", cell, dict(kind="custom", faults=PREP + ["bad-timeouts"], ext=True), weight=3),
    Cell("custom-rpc", cell, dict(kind="custom", faults=RPC)),
    Cell("component-prep", cell, dict(kind="component", faults=[f for f in PREP if f != "provider-id"])),
    Cell("component-rpc", cell, dict(kind="component", faults=RPC)),
    Cell("remote-prep", cell, dict(kind="remote", faults=PREP)),
    Cell("remote-rpc", cell, dict(kind="remote", faults=RPC)),
    Cell("read-prep", cell, dict(kind="read", faults=PREP + ["id"], ext=True), weight=3),
    Cell("read-rpc", cell, dict(kind="read", faults=RPC)),
    Cell("get-prep", cell, dict(kind="get", faults=["none", "prop-await", "prop-output", "prop-type", "translate-input",
                                                    "alias"])),
    Cell("get-rpc", cell, dict(kind="get", faults=RPC + ["invoke-failure", "invoke-failure-and-state", "malformed-top"])),
] + [
    Cell(k + "-codes", cell, dict(kind=k, faults=["rpc-error"], kinds="code")) for k in ("custom", "remote", "read", "get")
] + [
    Cell(k + "-kinds", cell, dict(kind=k, faults=["prop-await", "prop-output", "depends-await", "alias", "translate-input", "translate"],
                                  kinds="what")) for k in ("custom", "component", "read")
]
