"""Inline programs run with the settings of their own run, and their outcome is reported."""
import _thread
import asyncio
import contextlib
import io

from .lib import *
from .lib import _empty

ANCHORS = ("pulumi.automation._server.", "pulumi.runtime.settings.", "pulumi.runtime.config.", "pulumi.runtime.rpc_manager.", "pulumi._utils.ContextProperty")
BOUNDS = ("programs that declare up to two resources and an apply callback, read their settings at every point, and end in every way (normally, "
          "with each kind of exception, with a failing engine call, callback, awaitable or a task that is still waiting or cleans up badly); "
          "symbolic settings (texts <= 3), up to two configuration values; two runs one after another or two at the same time, switching "
          "wherever one of them waits for the engine")
OUTSIDE = "the gRPC transport, programs that never end, thread switches within a step of one program"


class Quit(BaseException):
    pass


class Batons:
    """Runs functions in threads of their own, one at a time; `switch` is where another one may go on."""

    def __init__(self, sx, fns, switches):
        self.sx, self.fns, self.left = sx, fns, switches
        self.locks = [_thread.allocate_lock() for _ in fns]
        self.main = _thread.allocate_lock()
        for l in self.locks + [self.main]:
            l.acquire()
        self.alive = list(range(len(fns)))
        self.current = None
        self.failed = None

    def body(self, i):
        self.locks[i].acquire()
        try:
            if self.failed is None:
                self.fns[i]()
        except Quit:
            pass
        except BaseException as e:  # noqa
            if self.failed is None:
                self.failed = e
        self.alive.remove(i)
        self.hand(self.alive[0] if self.alive else None)

    def hand(self, i):
        self.current = i
        (self.main if i is None else self.locks[i]).release()

    def switch(self):
        i = self.current
        if self.failed is None and len(self.alive) > 1 and self.left > 0:
            if self.sx.choice("switch", 2):
                self.left -= 1
                j = [x for x in self.alive if x != i][0]
                self.hand(j)
                self.locks[i].acquire()
        if self.failed is not None:
            raise Quit()

    def run(self):
        for i in range(len(self.fns)):
            _thread.start_new_thread(self.body, (i,))
        self.hand(self.sx.choice("first", len(self.fns)) if len(self.fns) > 1 else 0)
        self.main.acquire()
        if self.failed is not None:
            raise self.failed


class World:
    """The engine's side: one monitor and one engine per run, reached by their addresses; and the event loops."""

    def __init__(self, sx):
        self.sx, self.batons, self.loops, self.opened, self.at = sx, None, [], [], {}
        self.backwards = False

    @contextlib.contextmanager
    def installed(self):
        import grpc

        from pulumi.runtime import settings
        from symx.loop import SymLoop

        world = self

        class Loop(SymLoop):
            def _outside(self, timeout):
                if timeout != 0 and world.batons is not None:
                    world.batons.switch()
                super()._outside(timeout)

        def new_event_loop():
            l = Loop(world.sx)
            world.loops.append(l)
            return l

        all_tasks = asyncio.all_tasks

        class Tasks(set):
            def __iter__(self):
                return iter(sorted(set.__iter__(self), key=lambda t: int(t.get_name().rpartition("-")[2]), reverse=world.backwards))

        def channel(addr, options=None, **kw):
            world.opened.append(addr)
            return addr

        def stub(kind):
            return lambda ch: world.at[kind, ch]

        saved = (asyncio.new_event_loop, grpc.insecure_channel, settings.resource_pb2_grpc.ResourceMonitorStub,
                 settings.engine_pb2_grpc.EngineStub)
        asyncio.new_event_loop, grpc.insecure_channel = new_event_loop, channel
        asyncio.all_tasks = lambda loop=None: Tasks(all_tasks(loop))
        settings.resource_pb2_grpc.ResourceMonitorStub = stub("monitor")
        settings.engine_pb2_grpc.EngineStub = stub("engine")
        try:
            yield self
        finally:
            asyncio.all_tasks = all_tasks
            (asyncio.new_event_loop, grpc.insecure_channel, settings.resource_pb2_grpc.ResourceMonitorStub,
             settings.engine_pb2_grpc.EngineStub) = saved
            for l in self.loops:
                for t in asyncio.all_tasks(l):
                    t._log_destroy_pending = False
                l._ready.clear()
                if not l.is_closed():
                    l.close()


FAILS = ("raise", "run-error", "rpc-error", "exit", "cancelled", "rpc", "rpc-outputs", "callback", "awaitable", "late", "export")


class Run:
    """One run: its request, its program and what became of it."""

    def __init__(self, sx, world, tag, end, config=(), secrets=(), bad_cleanup=False, symbolic=True):
        self.sx, self.world, self.tag, self.end = sx, world, tag, end
        T = (lambda n: sx.str(tag + n, 3)) if symbolic else (lambda n: tag + n)
        self.project, self.stack, self.organization = T("project"), T("stack"), T("organization")
        self.dry = sx.concrete(sx.bool(tag + "dry")) if symbolic else False
        self.parallel = sx.int(tag + "parallel", 0, 100) if symbolic else 1
        self.config = {k: T("value" + k) for k in config}
        self.secrets = list(secrets)
        self.has_engine = True
        self.bad_cleanup = bad_cleanup
        self.seen, self.ran, self.response, self.exc = [], [], None, None
        self.mon, self.eng = basic_monitor(), Monitor()
        self.logs = []
        world.at["monitor", tag + ":monitor"] = self.mon
        world.at["engine", tag + ":engine"] = self.eng
        self.mon.on["RegisterResource"] = self.register
        self.mon.on["RegisterResourceOutputs"] = self.outputs
        self.eng.on["Log"] = self.log
        self.root = None
        self.eng.on["SetRootResource"] = lambda r: None

    def log(self, r):
        from pulumi.runtime.proto import engine_pb2

        self.logs.append((r.severity, r.message))
        return _empty()

    def register(self, req):
        if self.end == "rpc" and req.type != "pulumi:pulumi:Stack":
            raise rpc_error("UNKNOWN", self.tag + " rejected")
        self.turn()
        name = "stack" if req.type == "pulumi:pulumi:Stack" else "res"
        return register_response(req, urn="urn:pulumi:s::p::%s::%s%s" % (req.type, self.tag, name))

    def outputs(self, req):
        if self.end == "rpc-outputs":
            raise rpc_error("UNKNOWN", self.tag + " rejected")
        return _empty()

    def turn(self):
        if self.world.batons is not None:
            self.world.batons.switch()

    def look(self):
        import pulumi

        self.turn()
        from pulumi.runtime import settings

        from pulumi.runtime.config import is_config_secret

        self.seen.append(dict(
            project=pulumi.get_project(), stack=pulumi.get_stack(), organization=pulumi.get_organization(), dry=pulumi.runtime.is_dry_run(),
            parallel=settings.SETTINGS.parallel, config={k: pulumi.runtime.get_config(k) for k in self.world.keys},
            secret={k: is_config_secret(k) for k in self.world.keys}, monitor=settings.get_monitor(), engine=settings.get_engine(),
            root=settings.get_root_resource()))

    def program(self):
        import grpc
        import pulumi

        self.look()
        self.loop = asyncio.get_event_loop()
        r = pulumi.CustomResource("pkg:mod:Typ", self.tag + "res", {"p": self.tag})
        self.ran.append("main")

        def cb(urn):
            self.look()
            self.ran.append(urn)
            if self.end == "callback":
                raise ValueError(self.tag + " failed")
            if self.end == "late":
                async def wait():
                    await self.loop.external_future("late", "x")
                    raise ValueError(self.tag + " failed")

                return wait()
            return urn

        o = r.urn.apply(cb)
        pulumi.export("out", o)
        if self.end == "awaitable":
            pulumi.export("late", fut(self.loop, exc=ValueError(self.tag + " failed"), ext=True))
        if self.bad_cleanup:
            async def waits():
                try:
                    await self.loop.external_future("waits", "x")
                except asyncio.CancelledError:
                    raise ValueError(self.tag + " cleanup")

            if self.end:
                asyncio.ensure_future(waits())
        if self.end == "raise":
            raise ValueError(self.tag + " failed")
        if self.end == "run-error":
            raise pulumi.RunError(self.tag + " failed")
        if self.end == "rpc-error":
            raise rpc_error("UNKNOWN", self.tag + " failed")
        if self.end == "exit":
            raise SystemExit(3)
        if self.end == "cancelled":
            raise asyncio.CancelledError()
        if self.end == "export":
            pulumi.export("bad", Unsendable())

    def request(self):
        from pulumi.runtime.proto import language_pb2

        return language_pb2.RunRequest(
            project=self.project, stack=self.stack, organization=self.organization, dryRun=self.dry, parallel=self.parallel,
            monitor_address=self.tag + ":monitor", args=[self.tag + ":engine"] if self.has_engine else [], config=self.config,
            configSecretKeys=self.secrets)

    def go(self):
        from pulumi.automation._server import LanguageServer

        try:
            self.response = LanguageServer(self.program).Run(self.request(), None)
        except Exception as e:  # noqa
            if type(e).__name__ == "EngineLimit":
                raise
            self.exc = e
        except (SystemExit, asyncio.CancelledError) as e:
            self.exc = e

    def judge(self):
        sx = self.sx
        sx.check(not any(l.hung for l in self.world.loops), "a-run-ends")
        sx.check(self.exc is None and self.response is not None, "a-run-is-answered", lambda: repr((self.end, self.exc)))
        if self.response is None:
            return
        err = self.response.error
        sx.check(bool(err) == bool(self.end), "the-answer-says-whether-the-program-failed", lambda: (self.end, err))
        errors = [m for s, m in self.logs if s == 3]
        if self.end and err:
            want = {"exit": "3", "cancelled": "", "rpc": self.tag + " rejected", "rpc-outputs": self.tag + " rejected", "export": ""}.get(
                self.end, self.tag + " failed")
            sx.check(want in err, "the-answer-says-why-the-program-failed", lambda: (self.end, err))
        if self.has_engine:
            sx.check(errors == ([err] if self.end else []), "the-failure-is-reported-once", lambda: (self.end, errors, err))
        sx.check(len(self.seen) >= 1, "the-program-runs")
        for s in self.seen:
            for k in ("project", "stack", "organization", "dry", "parallel"):
                sx.check(sx.eq(s[k], getattr(self, k)), "the-program-sees-its-settings", lambda: (k, s[k]))
            for k in self.world.keys:
                want = self.config.get(k)
                sx.check((s["config"][k] is None) == (want is None) and (want is None or sx.eq(s["config"][k], want)),
                         "the-program-sees-its-configuration", lambda: (k, s["config"][k]))
                sx.check(s["secret"][k] == (k in self.secrets), "the-program-knows-which-values-are-secret", lambda: (k, self.secrets))
            sx.check(s["monitor"] is self.mon and s["engine"] is (self.eng if self.has_engine else None), "the-program-reaches-its-engine")
            r = s["root"]
            sx.check(r is not None, "the-program-has-a-root")
        regs = self.mon.sent("RegisterResource")
        sx.check(len(regs) <= 2 and len(regs) >= 1, "resources-go-to-their-engine-once", lambda: [r.type for r in regs])
        roots = [r for r in regs if r.type == "pulumi:pulumi:Stack"]
        sx.check(len(roots) == 1 and sx.eq(roots[0].name, self.project + "-" + self.stack), "the-stack-is-named-after-project-and-stack")
        for r in regs:
            if r.type != "pulumi:pulumi:Stack":
                sx.check(r.name == self.tag + "res" and r.parent.endswith("::%sstack" % self.tag), "resources-belong-to-their-stack",
                         lambda: (r.name, r.parent))
                sx.check(plain(r.object) == {"p": self.tag}, "resources-keep-their-inputs")
        outs = self.mon.sent("RegisterResourceOutputs")
        if not self.end:
            sx.check(len(regs) == 2 and len(self.ran) == 2, "all-of-the-program-runs")
            sx.check(len(outs) == 1 and plain(outs[0].outputs) == {"out": "urn:pulumi:s::p::pkg:mod:Typ::%sres" % self.tag}, "exports-are-registered",
                     lambda: [plain(o.outputs) for o in outs])


class Unsendable:
    __slots__ = ()

    def __iter__(self):
        raise ValueError("cannot be sent")


def settled_loops(sx, world):
    from pulumi.runtime import settings

    for l in world.loops:
        sx.check(l.is_closed() and not [t for t in asyncio.all_tasks(l) if not t.done()], "nothing-is-left-running")


KEYS = ("proj:a", "b:c")


def world(sx):
    w = World(sx)
    w.keys = KEYS
    return w


def one(sx, ends):
    """A single run."""
    import pulumi  # noqa

    w = world(sx)
    end = sx.choice("end", ends)
    if end:
        w.backwards = sx.choice("task-order", 2) == 1
        cfg, secrets, bad = [], [], sx.choice("cleanup", 2) == 1
    else:
        cfg = [k for i, k in enumerate(KEYS) if sx.choice("config%d" % i, 2)]
        secrets, bad = [k for i, k in enumerate(cfg) if sx.choice("secret%d" % i, 2)], False
    r = Run(sx, w, "a", end, cfg, secrets, bad_cleanup=bad, symbolic=not end)
    r.has_engine = sx.choice("engine", 2) == 1
    with w.installed():
        in_thread(sx, w, [r.go], 0)
        r.judge()
        settled_loops(sx, w)


def in_thread(sx, w, fns, switches):
    b = Batons(sx, fns, switches)
    if len(fns) > 1:
        w.batons = b
    with contextlib.redirect_stderr(io.StringIO()):
        b.run()


def served(sx, ops, ends):
    """A program given to a stack, or to the operation itself, is the one the CLI runs; its outcome is what the CLI hears."""
    import grpc

    from . import cli as C
    from .p19 import FakeServer, World as Commands, make

    op, given, end = sx.choice("op", ops), sx.choice("given", ["workspace", "argument", "both"]), sx.choice("end", ends)
    w = world(sx)
    r, other = Run(sx, w, "a", end), Run(sx, w, "b", "", symbolic=False)
    servers, ports = [], []

    class Server(FakeServer):
        def add_generic_rpc_handlers(self, h):
            self.handlers = h

        def add_insecure_port(self, address):
            self.events.append("port")
            return 4711 + len(servers)

    def server(*a, **k):
        servers.append(Server())
        return servers[-1]

    class Details:
        method = "/pulumirpc.LanguageRuntime/Run"
        invocation_metadata = ()

    class Cmds(Commands):
        def during(self, call):
            super().during(call)
            if call.pos == [op]:
                ports.append(call.flags.get("client"))
                sx.check(servers[-1].events == ["port", "start"], "served-while-the-command-runs", lambda: servers[-1].events)
                h = [x for x in (g.service(Details) for g in servers[-1].handlers) if x is not None][0]

                def go():
                    r.response = h.unary_unary(r.request(), None)

                in_thread(sx, w, [go], 0)

    with Scratch() as d, C.scratch_tmp(), C.Threads().installed():
        saved = grpc.server
        grpc.server = server
        cmds = Cmds(sx, d)
        try:
            with w.installed(), cmds.cli.installed():
                st = make(sx, d, cmds, program={"workspace": r.program, "both": other.program}.get(given))
                for i in range(sx.choice("times", [1, 2])):
                    if i:
                        r = Run(sx, w, "c", "", symbolic=False)
                        if given == "workspace":
                            st.workspace.program = r.program
                    getattr(st, op)(**({} if given == "workspace" else {"program": r.program}))
                    r.judge()
                    sx.check(not other.seen and not other.ran, "runs-the-given-program")
                settled_loops(sx, w)
        finally:
            grpc.server = saved
        sx.check([s.events for s in servers] == [["port", "start", "stop"]] * len(ports), "served-while-the-command-runs", lambda: servers)
        sx.check(ports == [["127.0.0.1:%d" % (4712 + i)] for i in range(len(ports))], "the-command-is-told-where", lambda: ports)


def sequence(sx, ends, others, same):
    """Runs one after another (in one thread, as a server's pool of threads may well do) do not influence each other."""
    w = world(sx)
    runs = []
    for i, t in enumerate("ab"):
        cfg = [KEYS[i]] if sx.choice("config%s" % t, 2) else []
        end = sx.choice("end" + t, ends if i == 0 else others)
        runs.append(Run(sx, w, t, end, cfg, cfg if cfg and sx.choice("secret" + t, 2) else [],
                        bad_cleanup=i == 0 and end != "" and sx.choice("cleanup", 2) == 1, symbolic=i == 1))
    with w.installed():
        if same:
            in_thread(sx, w, [lambda: [r.go() for r in runs]], 0)
        else:
            in_thread(sx, w, [runs[0].go], 0)
            in_thread(sx, w, [runs[1].go], 0)
        for r in runs:
            r.judge()
        settled_loops(sx, w)


def parallel(sx, ends, others, switches):
    """Runs at the same time do not influence each other."""
    w = world(sx)
    runs = [Run(sx, w, "a", sx.choice("enda", ends), [KEYS[0]], [KEYS[0]], symbolic=False),
            Run(sx, w, "b", sx.choice("endb", others), [KEYS[1]], [], symbolic=False)]
    with w.installed():
        in_thread(sx, w, [r.go for r in runs], switches)
        for r in runs:
            r.judge()
        settled_loops(sx, w)


ALL = ("",) + FAILS
SOME = ("", "raise", "rpc", "callback", "late")
CELLS = [
    Cell("served", served, dict(ops=("up", "preview"), ends=("", "raise"))),
    Cell("one", one, dict(ends=ALL), weight=2),
    Cell("sequence", sequence, dict(ends=SOME, others=("", "raise"), same=True), weight=2),
    Cell("sequence-threads", sequence, dict(ends=SOME, others=("",), same=False), weight=2),
    Cell("parallel", parallel, dict(ends=SOME, others=("", "raise"), switches=2), weight=3),
    Cell("sequence-more", sequence, dict(ends=ALL, others=ALL, same=True), tiers=("thorough",), weight=5),
    Cell("parallel-more", parallel, dict(ends=ALL, others=ALL, switches=4), tiers=("thorough",), weight=5),
]
