"""Engines are sent only what they say they can handle."""
from .lib import *
from .p03 import FEATS, eq as wire_tree_eq
from .p14 import call_response

ANCHORS = ("pulumi.runtime.settings.monitor_supports", "pulumi.runtime.rpc.serialize_propert")
BOUNDS = ("programs of one or two operations out of six kinds (registration of a custom and of a remote component resource, read, "
          "invoke, call, registration of outputs), alone, overlapping or one after the other, with the same two inputs (a list "
          "with a secret of symbolic text, a resource); for each of the three features every answer of the engine: yes, no, "
          "question unknown, internal error, engine gone; symbolic preview flag; two programs after each other with different engines")
OUTSIDE = "answers that change while a program runs; inputs other than these (P03 varies them)"

U = "urn:pulumi:stack::project::pkg:mod:Typ::%s"
OPS = ["custom", "remote", "read", "invoke", "call", "outputs"]
METHOD = {"custom": "RegisterResource", "remote": "RegisterResource", "read": "ReadResource", "invoke": "Invoke", "call": "Call",
          "outputs": "RegisterResourceOutputs"}


def engine(sx, answers):
    """A monitor that answers questions about features as told."""
    from pulumi.runtime.proto import resource_pb2

    mon = basic_monitor(())

    def supports(req):
        a = answers.get(req.id, "no")
        if a in ("yes", "no"):
            return resource_pb2.SupportsFeatureResponse(hasSupport=a == "yes")
        raise rpc_error(a, "asked about " + req.id)

    mon.on["SupportsFeature"] = supports
    mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn=U % req.name)
    mon.on["Invoke"] = lambda req: invoke_response({"r": "s"})
    mon.on["Call"] = lambda req: call_response({"r": "s"})
    return mon


def perform(sx, loop, op, text, i):
    import pulumi

    r = mk_resource(loop, U % "dep", True, "dep-id")
    given = {"l": ["x", mk_output(loop, text, True, True, [])], "r": r}
    name = "%s%d" % (op, i)
    if op == "custom":
        pulumi.CustomResource("pkg:mod:Typ", name, given)
    elif op == "remote":
        pulumi.ComponentResource("pkg:mod:Typ", name, given, None, True)
    elif op == "read":
        pulumi.CustomResource("pkg:mod:Typ", name, given, pulumi.ResourceOptions(id="i"))
    elif op == "invoke":
        pulumi.runtime.invoke("pkg:mod:fn", given)
    elif op == "call":
        pulumi.runtime.call("pkg:mod:fn", given)
    else:
        pulumi.runtime.resource.register_resource_outputs(mk_resource(loop, U % name, False), given)


def wanted(answers, op, text):
    can = {f: answers[f] == "yes" for f in FEATS}
    if op in ("remote", "call") and can["outputValues"]:
        s = {SIG: OUTPUT, "value": text, "secret": True}
    elif can["secrets"]:
        s = {SIG: SECRET, "value": text}
    else:
        s = text
    r = {SIG: RESOURCE, "urn": U % "dep", "id": "dep-id"} if can["resourceReferences"] else "dep-id"
    return {"l": ["x", s], "r": r}


def args_of(op, req):
    return {"custom": lambda: req.object, "remote": lambda: req.object, "read": lambda: req.properties, "invoke": lambda: req.args,
            "call": lambda: req.args, "outputs": lambda: req.outputs}[op]()


def judge(sx, mon, ops, answers, text, err):
    asked = [q.id for q in mon.sent("SupportsFeature")]
    sx.check(set(asked) <= set(FEATS), "asks-known-features", lambda: asked)
    failed = [f for f in asked if answers[f] not in ("yes", "no", "UNIMPLEMENTED")]
    if failed:
        from pulumi import RunError

        sx.check(err is not None, "failure-is-reported", lambda: (asked, answers))
        if err is not None and "UNAVAILABLE" in answers.values() and all(answers[f] == "UNAVAILABLE" for f in failed):
            sx.check(isinstance(err, RunError), "engine-gone", lambda: repr(err))
        elif err is not None and all(answers[f] != "UNAVAILABLE" for f in failed):
            sx.check(any("asked about " + f in str(err.args[:1]) for f in failed), "the-failure-is-the-cause", lambda: repr(err))
    else:
        sx.check(err is None, "success-is-reported", lambda: repr(err))
    sent = []
    for op in sorted(set(ops)):
        reqs = [q for q in mon.sent(METHOD[op]) if METHOD[op] != "RegisterResource" or q.name.startswith(op)]
        if not failed:
            sx.check(len(reqs) == ops.count(op), "exactly-one-request", lambda: (op, reqs))  # noqa: B023
        for q in reqs:
            sent.append(op)
            # whatever could not be asked about is not used
            a = {f: "no" if answers[f] != "yes" else "yes" for f in FEATS}
            sx.check(wire_tree_eq(sx, args_of(op, q), wanted(a, op, text)), "sent-as-the-engine-can-handle",
                     lambda: (op, answers, plain(args_of(op, q))))  # noqa: B023
            rich = op in ("remote", "call")
            need = {"resourceReferences"} | ({"outputValues"} if rich else set())
            if not (rich and answers["outputValues"] == "yes"):
                need.add("secrets")
            sx.check(not (need & set(failed)), "no-request-after-a-failed-question", lambda: (op, failed))  # noqa: B023


def once(sx, ops, values=("yes", "no", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE"), vary=FEATS, then=False, preempt=0):
    from pulumi.runtime.stack import run_pulumi_func

    answers = {f: sx.choice(f, list(values)) if f in vary else "yes" for f in FEATS}
    ops = [sx.choice("op%d" % i, o) for i, o in enumerate(ops)]
    mon = engine(sx, answers)
    configure(dry_run=sx.concrete(sx.bool("dry_run")), monitor=mon)
    text = sx.str("text", 3)

    async def main(loop):
        err = None

        def program():
            for i, op in enumerate(ops):
                perform(sx, loop, op, text, i)
        try:
            if then:
                for i, op in enumerate(ops):
                    await run_pulumi_func(lambda: perform(sx, loop, op, text, i))  # noqa: B023
            else:
                await run_pulumi_func(program)
        except Exception as e:  # noqa
            err = e
        if then and err is not None:
            done = [op for i, op in enumerate(ops) if i == 0]
            judge(sx, mon, done if not any(q for q in mon.sent(METHOD[ops[-1]])) else ops, answers, text, err)
            return
        judge(sx, mon, ops, answers, text, err)

    run(sx, main, preempt=preempt)


def again(sx, ops):
    """A later program (in the same process) asks its own engine."""
    from pulumi.runtime.stack import run_pulumi_func

    text = sx.str("text", 3)
    runs = []
    for i in range(2):
        runs.append(({f: sx.choice("%s%d" % (f, i), ["yes", "no"]) for f in FEATS}, sx.choice("op%d" % i, ops)))

    async def main(loop):
        for answers, op in runs:
            mon = engine(sx, answers)
            configure(dry_run=False, monitor=mon)
            err = None
            try:
                await run_pulumi_func(lambda: perform(sx, loop, op, text, 0))  # noqa: B023
            except Exception as e:  # noqa
                err = e
            judge(sx, mon, [op], answers, text, err)

    run(sx, main, fifo=True)


CELLS = [
    Cell("once", once, dict(ops=[OPS])),
    Cell("codes", once, dict(ops=[["custom", "remote", "call"]], values=CODES, vary=("outputValues",))),
    Cell("codes-secrets", once, dict(ops=[["custom", "read"]], values=CODES, vary=("secrets",))),
    Cell("overlapping", once, dict(ops=[["custom", "remote"], ["custom", "read", "call", "outputs"]], values=("yes", "no", "INTERNAL"),
                                   vary=("secrets", "outputValues"))),
    Cell("later", once, dict(ops=[["custom", "remote", "read"], OPS], values=("yes", "UNIMPLEMENTED"), then=True)),
    Cell("again", again, dict(ops=["custom", "remote", "outputs"])),
    Cell("overlapping-all", once, dict(ops=[OPS, OPS], preempt=1), tiers=("thorough",)),
    Cell("again-all", again, dict(ops=OPS), tiers=("thorough",)),
]
