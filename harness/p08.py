"""A program run ends successfully only after everything it started is done, and fails if anything failed."""
from .lib import *

ANCHORS = ("pulumi.runtime.stack.", "pulumi.runtime.rpc_manager")
BOUNDS = ("programs that start up to three resource operations and up to two apply callbacks (which may themselves "
          "create a resource, or chain another apply), all engine calls completing in every order; any one of: a failing "
          "engine call, a failing callback, a failing awaitable or output, an exception in the program itself, or none")
OUTSIDE = ("more than three operations; tasks created by user code that never finish; callbacks that raise CancelledError or "
           "GeneratorExit rather than an Exception")


def prog(sx, shape, faults, wait_all=True, preempt=0, kinds=False):
    import pulumi
    from pulumi.runtime.stack import run_pulumi_func, run_in_stack

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)
    fault = sx.choice("fault", faults)
    done, ran, started = [], [], []
    code = "UNKNOWN"
    Boom = globals()["Boom"]
    if kinds and fault.startswith("rpc-"):
        code = sx.choice("code", CODES)
    elif kinds:
        Boom = kind_of_failure(sx.choice("kind", KINDS))

    def reg(req):
        if fault == "rpc-" + req.name:
            raise rpc_error(code, "engine rejects " + req.name)
        done.append(req.name)
        return register_response(req)

    def regout(req):
        if fault == "rpc-outputs":
            raise rpc_error(code, "engine rejects outputs")
        done.append("outputs:" + req.urn.split("::")[-1])
        return lib_empty()

    def inv(req):
        if fault == "rpc-fn":
            raise rpc_error(code, "engine rejects fn")
        done.append("fn")
        return invoke_response({"r": "s"})

    def read(req):
        from pulumi.runtime.proto import resource_pb2

        if fault == "rpc-read":
            raise rpc_error(code, "engine rejects read")
        done.append("read")
        return resource_pb2.ReadResourceResponse(urn="urn:pulumi:stack::project::pkg:mod:Typ::read")

    mon.on["Invoke"] = inv
    mon.on["ReadResource"] = read
    mon.on["RegisterResource"] = reg
    mon.on["RegisterResourceOutputs"] = regout

    def new(name, props=None, **kw):
        started.append(name)
        return pulumi.CustomResource("pkg:mod:Typ", name, props or {}, pulumi.ResourceOptions(**kw))

    def cb(name, then=None):
        started.append("cb:" + name)

        def f(v):
            if fault == "cb-" + name:
                raise Boom("callback " + name)
            r = then(v) if then else v
            ran.append("cb:" + name)
            return r
        return f

    async def main(loop):
        def func():
            if shape == "two-cb":
                a, b = new("a"), new("b")
                a.urn.apply(cb("1"))
                b.urn.apply(cb("2"))
            elif shape == "one-cb":
                a, b = new("a"), new("b")
                a.urn.apply(cb("1"))
            elif shape == "chain":
                a = new("a")
                b = new("b", {"p": a.urn})
                b.urn.apply(cb("1"))
            elif shape == "chain-cb":
                a = new("a")
                b = new("b", {"p": a.urn.apply(cb("1"))})
            elif shape == "nested":
                a = new("a")
                a.urn.apply(cb("1", lambda v: new("n").urn.apply(cb("2"))))
            elif shape == "nested2":
                a, b = new("a"), new("b")
                a.urn.apply(cb("1", lambda v: new("n").urn))
            elif shape == "comp":
                started.append("a")
                a = pulumi.ComponentResource("pkg:mod:Comp", "a")
                started.append("outputs:a")
                b = new("b", parent=a)
                a.register_outputs({"x": b.urn.apply(cb("1"))})
            elif shape == "applychain":
                a, b = new("a"), new("b")
                a.urn.apply(cb("1")).apply(cb("2"))
            elif shape == "all":
                a, b = new("a"), new("b")
                pulumi.Output.all(a.urn, b.urn).apply(cb("1"))
            elif shape == "await":
                a = new("a")

                async def slow():
                    await loop.external_future("slow", None)
                    if fault == "await":
                        raise Boom("awaitable")
                    return "v"
                started.append("b")
                b = pulumi.CustomResource("pkg:mod:Typ", "b", {"p": slow()})
            elif shape == "late":
                # an apply on something unrelated to any engine call
                a = new("a")
                o = mk_output(loop, "v", True, False, [], ext={"val", "known"})
                o.apply(cb("1", lambda v: new("n").urn))
            elif shape == "gen2-two":
                def f(v):
                    n, m = new("n"), new("m")
                    n.urn.apply(cb("2"))
                a = new("a")
                a.urn.apply(cb("1", f))
            elif shape == "gen2-cb":
                a, b = new("a"), new("b")

                def f(v):
                    b.urn.apply(cb("2"))
                a.urn.apply(cb("1", f))
            elif shape == "gen2-self":
                a = new("a")

                def f(v):
                    a.id.apply(cb("2"))
                a.urn.apply(cb("1", f))
            elif shape == "gen2-late":
                a = new("a")
                o = mk_output(loop, "v", True, False, [], ext={"val"})

                def f(v):
                    o.apply(cb("2"))
                a.urn.apply(cb("1", f))
            elif shape == "gen2-await":
                a = new("a")

                async def slow():
                    await loop.external_future("slow", None)
                    return "v"

                def f(v):
                    pulumi.Output.from_input(slow()).apply(cb("2"))
                a.urn.apply(cb("1", f))
            elif shape == "gen3-await":
                a = new("a")

                async def slow(nm):
                    await loop.external_future(nm, None)
                    return "v"

                def g(v):
                    pulumi.Output.from_input(slow("slow2")).apply(cb("3"))

                def f(v):
                    pulumi.Output.from_input(slow("slow1")).apply(cb("2", g))
                a.urn.apply(cb("1", f))
            elif shape == "gen3-res":
                a = new("a")

                async def slow(nm):
                    await loop.external_future(nm, None)
                    return "v"

                def g(v):
                    pulumi.Output.from_input(slow("slow2")).apply(cb("3", h))

                def h(v):
                    new("n")

                def f(v):
                    pulumi.Output.from_input(slow("slow1")).apply(cb("2", g))
                a.urn.apply(cb("1", f))
            elif shape in ("invoke", "invoke-after"):
                # a synchronous invoke runs the event loop while the program is still being evaluated
                a = new("a")
                a.urn.apply(cb("1"))
                if shape == "invoke-after":
                    b = new("b", {"p": a.urn})
                started.append("fn")
                r = pulumi.runtime.invoke("pkg:mod:fn", {"x": "y"}).value
                new("z", {"q": r["r"]})
            elif shape == "async-cb":
                a, b = new("a"), new("b")

                async def slow(v):
                    await loop.external_future("slow", None)
                    if fault == "await":
                        raise Boom("awaitable")
                    ran.append("slow")
                    return v
                started.append("slow")
                a.urn.apply(cb("1", slow))
            elif shape == "read":
                started.extend(["read"])
                a = pulumi.CustomResource("pkg:mod:Typ", "read", {}, pulumi.ResourceOptions(id="i"))
                b = new("b", {"p": a.urn.apply(cb("1"))})
            elif shape == "gen3":
                a = new("a")

                def g(v):
                    new("m").urn.apply(cb("3"))

                def f(v):
                    new("n").urn.apply(cb("2", g))
                a.urn.apply(cb("1", f))
            elif shape == "stack":
                a, b = new("a"), new("b")
                pulumi.export("o", a.urn.apply(cb("1")))
                started.extend(["project-stack", "outputs:project-stack"])
            if fault == "func":
                raise Boom("program")

        err = None
        try:
            if shape == "stack":
                await run_in_stack(func)
            else:
                await run_pulumi_func(func)
        except Exception as e:  # noqa
            err = e
        finished = set(done) | set(ran)
        if fault == "none":
            sx.check(err is None, "success-is-reported", lambda: repr(err))
            missing = [x for x in started if x not in finished]
            sx.check(not missing, "success-only-when-all-done", lambda: (missing, mon.requests))
            sx.check(not [t for t in pending_tasks(loop)], "no-work-left-behind", lambda: pending_tasks(loop))
        else:
            sx.check(err is not None, "failure-is-reported", lambda: (shape, fault, done, ran))
            if err is not None:
                txt = {"func": "program", "await": "awaitable", "rpc-outputs": "engine rejects outputs"}.get(fault) or (
                    "callback " + fault[3:] if fault.startswith("cb-") else "engine rejects " + fault[4:])
                sx.check(txt in str(err), "the-failure-is-the-cause", lambda: (shape, fault, repr(err)))

    run(sx, main, preempt=preempt)


def pending_tasks(loop):
    import asyncio

    me = asyncio.current_task()
    return [t for t in asyncio.all_tasks(loop) if t is not me and not t.done()]


def lib_empty():
    from .lib import _empty

    return _empty()


SHAPES = {
    "two-cb": ["none", "rpc-a", "rpc-b", "cb-1", "cb-2", "func"],
    "one-cb": ["none", "rpc-a", "rpc-b", "cb-1", "func"],
    "chain": ["none", "rpc-a", "rpc-b", "cb-1"],
    "chain-cb": ["none", "rpc-a", "rpc-b", "cb-1"],
    "nested": ["none", "rpc-a", "rpc-n", "cb-1", "cb-2"],
    "nested2": ["none", "rpc-a", "rpc-b", "rpc-n", "cb-1"],
    "comp": ["none", "rpc-a", "rpc-b", "cb-1", "rpc-outputs"],
    "applychain": ["none", "rpc-a", "cb-1", "cb-2"],
    "all": ["none", "rpc-a", "rpc-b", "cb-1"],
    "await": ["none", "rpc-a", "rpc-b", "await"],
    "late": ["none", "rpc-a", "cb-1", "rpc-n"],
    "gen2-two": ["none", "cb-1", "cb-2", "rpc-n", "rpc-m"],
    "gen2-cb": ["none", "cb-1", "cb-2", "rpc-b"],
    "gen2-self": ["none", "cb-1", "cb-2"],
    "gen2-late": ["none", "cb-1", "cb-2"],
    "gen2-await": ["none", "cb-1", "cb-2"],
    "gen3-await": ["none", "cb-1", "cb-2", "cb-3"],
    "gen3-res": ["none", "cb-1", "cb-2", "cb-3", "rpc-n"],
    "invoke": ["none", "cb-1", "rpc-a", "rpc-fn", "rpc-z", "func"],
    "invoke-after": ["none", "cb-1", "rpc-a", "rpc-b", "rpc-fn"],
    "async-cb": ["none", "cb-1", "await", "rpc-b"],
    "read": ["none", "cb-1", "rpc-read", "rpc-b"],
    "gen3": ["none", "cb-1", "cb-2", "cb-3", "rpc-n", "rpc-m"],
    "stack": ["none", "rpc-a", "rpc-b", "cb-1", "rpc-outputs", "func"],
}
CELLS = [Cell(k, prog, dict(shape=k, faults=v, preempt=1)) for k, v in SHAPES.items()]
CELLS += [Cell(k + "-kinds", prog, dict(shape=k, faults=v, kinds=True)) for k, v in {
    "one-cb": ["rpc-a", "rpc-b", "cb-1", "func"],
    "chain-cb": ["rpc-b", "cb-1"],
    "await": ["rpc-b", "await"],
    "async-cb": ["cb-1", "await"],
    "comp": ["rpc-outputs", "cb-1"],
    "invoke": ["rpc-fn", "func"],
    "read": ["rpc-read"],
    "stack": ["rpc-outputs", "cb-1", "func"],
    "gen2-cb": ["cb-2"],
}.items()]
CELLS += [Cell(k + "-deep", prog, dict(shape=k, faults=v, preempt=4), tiers=("thorough",)) for k, v in SHAPES.items()]
