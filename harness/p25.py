"""Under mocks a program sees exactly what its mocks answer, and the mocks exactly what it declares."""
import _thread
import asyncio
import contextlib
import io

from .lib import *
from .lib import KINDS as FAILURES

ANCHORS = ("pulumi.runtime.mocks.", "pulumi.runtime.sync_await.", "pulumi._utils.ContextProperty")
BOUNDS = ("tests of up to two resources (custom, component, read), function calls and log messages; properties of every kind with symbolic texts "
          "<= 3 and numbers; mocks that echo, replace, leave out or fail; symbolic project and stack, previews and updates; every order of completion; two tests in a row "
          "with different settings")
OUTSIDE = "resource references in the mocks' thread, methods (mocks have none)"


class Exec:
    """A thread that runs one function at a time while its caller waits (a pool of threads with one worker)."""

    def __init__(self):
        self.go, self.back = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.back.acquire()
        self.job = None
        self.started = False

    def body(self):
        while True:
            self.go.acquire()
            if self.job is None:
                break
            f, a = self.job
            try:
                self.out = (f(*a), None)
            except BaseException as e:  # noqa
                self.out = (None, e)
            self.back.release()
        asyncio.set_event_loop(None)
        self.back.release()

    def run(self, f, *a):
        if not self.started:
            self.started = True
            _thread.start_new_thread(self.body, ())
        self.job = (f, a)
        self.go.release()
        self.back.acquire()
        r, e = self.out
        self.out = None
        if e is not None:
            raise e
        return r

    def end(self):
        if self.started:
            self.job = None
            self.go.release()
            self.back.acquire()


class World:
    def __init__(self, sx, fifo=False):
        self.sx, self.loops, self.exec, self.fifo = sx, [], Exec(), fifo

    @contextlib.contextmanager
    def installed(self):
        from symx.loop import SymLoop

        world = self

        class Loop(SymLoop):
            def run_in_executor(self, executor, func, *args):
                f = self.create_future()

                def go():
                    try:
                        r = world.exec.run(func, *args)
                    except Exception as e:  # noqa
                        if type(e).__name__ == "EngineLimit":
                            raise
                        if not f.cancelled():
                            f.set_exception(e)
                    else:
                        if not f.cancelled():
                            f.set_result(r)

                self.external("op", go)
                return f

        def new_event_loop():
            l = Loop(world.sx)
            l.fifo = world.fifo
            world.loops.append(l)
            return l

        saved = asyncio.new_event_loop
        asyncio.new_event_loop = new_event_loop
        asyncio.set_event_loop(new_event_loop())
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                yield self
        finally:
            self.exec.end()
            asyncio.new_event_loop = saved
            asyncio.set_event_loop(None)
            for l in self.loops:
                for t in asyncio.all_tasks(l):
                    t._log_destroy_pending = False
                l._ready.clear()
                if not l.is_closed():
                    l.close()


def mocks(sx, on_resource=None, on_call=None):
    import pulumi
    from pulumi.runtime import settings

    class M(pulumi.runtime.Mocks):
        def __init__(self):
            self.made, self.called, self.seen = [], [], []

        def look(self):
            self.seen.append((pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run()))

        def new_resource(self, args):
            self.look()
            self.made.append(args)
            if on_resource:
                return on_resource(args)
            return args.name + "-id", args.inputs

        def call(self, args):
            self.look()
            self.called.append(args)
            return on_call(args)

    return M()


class Setup:
    """set_mocks with some settings, and the checks that they are seen."""

    def __init__(self, sx, m, tag="", names=True, preview=None, **kw):
        import pulumi

        self.sx, self.m = sx, m
        given = {}
        self.project, self.stack = "project", "stack"
        if names:
            self.project = given["project"] = names if isinstance(names, str) else sx.str(tag + "project", 1, 1, "abc")
            self.stack = given["stack"] = (names if isinstance(names, str) else sx.str(tag + "stack", 1, 1, "abc"))
        self.preview = preview
        if preview is not None:
            given["preview"] = preview
        pulumi.runtime.settings.set_root_resource(None)
        pulumi.runtime.set_mocks(m, **given, **kw)

    def urn(self, type_, name):
        return "urn:pulumi:" + self.stack + "::" + self.project + "::" + type_ + "::" + name

    def judge(self):
        sx = self.sx
        for p, s, d in self.m.seen:
            sx.check(sx.and_(sx.eq(p, self.project), sx.eq(s, self.stack)), "mocks-see-the-project-and-stack", lambda: (p, s))
            sx.check(d == bool(self.preview), "mocks-see-whether-it-is-a-preview", lambda: (d, self.preview))


def tested(sx, w, fn):
    """Runs fn as a decorated test; gives what it raised."""
    import pulumi

    try:
        pulumi.runtime.test(fn)()
    except Exception as e:  # noqa
        if type(e).__name__ == "EngineLimit":
            raise
        sx.check(not isinstance(e, Hang), "tests-end")
        return e
    sx.check(not any(l.hung for l in w.loops), "tests-end")
    return None


def value(sx, nm, kind):
    """-> (what the program passes, what the mocks see, secret)"""
    import pulumi

    v = {"str": lambda: sx.str(nm, 3), "int": lambda: sx.int(nm, -5, 5), "bool": lambda: sx.bool(nm), "list": lambda: [sx.str(nm, 2), 1],
         "dict": lambda: {"a_b": sx.str(nm, 2), "c": [True]}, "output": lambda: sx.str(nm, 3), "secret": lambda: sx.str(nm, 3),
         "none": lambda: None}[kind]()
    if kind == "output":
        return pulumi.Output.from_input(v), v, False
    if kind == "secret":
        return pulumi.Output.secret(v), v, True
    return v, v, False


def bare(v):
    """A value without the marks of secrets."""
    if isinstance(v, dict):
        if SIG in v:
            return bare(v["value"])
        return {k: bare(x) for k, x in v.items()}
    if isinstance(v, list):
        return [bare(x) for x in v]
    return v


def typed():
    import pulumi

    class Res(pulumi.CustomResource):
        def __init__(self, name, props=None, opts=None):
            super().__init__("pkg:mod:Typ", name, dict({"p": None, "q": None, "extra": None}, **(props or {})), opts)

    return Res


KINDS = ("str", "int", "bool", "list", "dict", "output", "secret", "none")


def resources(sx, kinds, answers):
    """A resource is made with its declared inputs, and has the outputs the mocks give it."""
    import pulumi

    w = World(sx)
    kind = sx.choice("kind", kinds)
    answer = sx.choice("answer", answers)
    parent = sx.choice("parent", 2)
    preview = sx.choice("preview", (None, True, False))
    got = {}
    extra = sx.str("extra", 2)
    theid = sx.str("id", 2, 1)

    def on_resource(args):
        if not args.custom:
            return None, {}
        if answer == "fails":
            raise ValueError("cannot be made")
        return (theid if answer != "no-id" else ""), {"echo": lambda: args.inputs, "no-id": lambda: args.inputs,
                                                      "more": lambda: dict(args.inputs, extra=extra), "nothing": lambda: {}}[answer]()

    with w.installed():
        m = mocks(sx, on_resource)
        s = Setup(sx, m, names=sx.choice("names", 2) == 1, preview=preview)

        def test():
            comp = pulumi.ComponentResource("pkg:mod:Comp", "comp") if parent else None
            v, want, secret = value(sx, "v", kind)
            got.update(want=want, secret=secret)
            r = typed()("res", {"p": v, "q": "q"}, pulumi.ResourceOptions(parent=comp) if parent else None)
            got["r"] = r

            async def look():
                for k in ("urn", "id", "p", "q", "extra"):
                    got[k] = await observe(getattr(r, k))

            return look()

        exc = tested(sx, w, test)
        sx.check((exc is not None) == (answer == "fails"), "a-test-fails-iff-something-failed", lambda: repr(exc))
        s.judge()
        mine = [a for a in m.made if a.typ == "pkg:mod:Typ"]
        others = [a for a in m.made if a.typ != "pkg:mod:Typ"]
        sx.check(len(mine) == 1 and len(others) == parent, "mocks-make-each-resource-once", lambda: [a.typ for a in m.made])
        for a in others:
            sx.check(a.typ == "pkg:mod:Comp" and a.name == "comp" and a.custom is False and a.inputs == {}, "mocks-are-told-what-was-declared")
        for a in mine:
            sx.check(a.name == "res" and a.custom is True, "mocks-are-told-what-was-declared", lambda: (a.name, a.custom))
            want = {"q": "q"}
            if kind != "none":
                want["p"] = got["want"]
            sx.check(same(sx, bare(a.inputs), want), "mocks-are-told-the-inputs", lambda: a.inputs)
        if exc is None and "urn" in got:
            t = "pulumi:pulumi:Stack$pkg:mod:Comp$pkg:mod:Typ" if parent else "pulumi:pulumi:Stack$pkg:mod:Typ"
            if parent:
                t = "pkg:mod:Comp$pkg:mod:Typ"
            sx.check(sx.eq(got["urn"].value, s.urn(t, "res")), "urns-name-what-was-declared", lambda: got["urn"].value)
            i = got["id"]
            if answer == "no-id":
                sx.check(not i.known if preview else True, "ids-are-what-the-mocks-gave")
            else:
                sx.check(sx.and_(sx.eq(i.known, True), sx.eq(i.value, theid)), "ids-are-what-the-mocks-gave", lambda: (i.value,))
            for k, want in (("q", "q"), ("p", got["want"]), ("extra", extra if answer == "more" else None)):
                o = got[k]
                if answer == "nothing" or want is None:
                    continue
                sx.check(sx.and_(sx.eq(o.known, True), same(sx, o.value, want)), "outputs-are-what-the-mocks-gave", lambda: (k, o.value, o.known))
                sx.check(sx.eq(o.secret, bool(k == "p" and got["secret"])), "secret-inputs-stay-secret", lambda: (k, o.secret))


def reading(sx):
    """Resources that are read: the mocks are told their ids, and may be looked up again by urn."""
    import pulumi

    w = World(sx)
    fails = sx.choice("fails", 2)
    rid = sx.str("rid", 3, 1)
    extra = sx.str("extra", 2)
    seen = {}

    def on_resource(args):
        if fails:
            raise ValueError("cannot be read")
        return args.resource_id, {"extra": extra, "p": "p"}

    with w.installed():
        m = mocks(sx, on_resource, lambda a: {})
        s = Setup(sx, m, names="n", preview=sx.choice("preview", (None, True)))

        def test():
            r = typed()("res", {"q": "q"}, pulumi.ResourceOptions(id=rid))

            async def look():
                for k in ("urn", "id", "extra", "p"):
                    seen[k] = await observe(getattr(r, k))
                    if seen[k].exc is not None:
                        raise seen[k].exc

            return look()

        exc = tested(sx, w, test)
        sx.check((exc is not None) == bool(fails), "a-test-fails-iff-something-failed", lambda: repr(exc))
        s.judge()
        sx.check(len(m.made) == 1, "mocks-make-each-resource-once")
        for a in m.made:
            sx.check(a.typ == "pkg:mod:Typ" and a.name == "res" and sx.eq(a.resource_id, rid) and same(sx, bare(a.inputs), {"q": "q"}),
                     "mocks-are-told-what-was-declared", lambda: (a.typ, a.name, a.inputs))
        if exc is None and "p" in seen:
            sx.check(sx.eq(seen["urn"].value, s.urn("pulumi:pulumi:Stack$pkg:mod:Typ", "res")), "urns-name-what-was-declared", lambda: seen["urn"].value)
            sx.check(sx.and_(sx.eq(seen["id"].value, rid), sx.eq(seen["extra"].value, extra), sx.eq(seen["p"].value, "p")), "outputs-are-what-the-mocks-gave")


def lookups(sx, kinds):
    """Resources that were made (or read) can be got by their urns, as they were answered; others cannot."""
    import pulumi

    w = World(sx)
    kind = sx.choice("kind", kinds)
    how = sx.choice("how", ["made", "read", "component", "child"])
    which = sx.choice("which", ["it", "unknown"])
    theid, extra = sx.str("id", 2, 1), sx.str("extra", 2)
    got = {}

    def on_resource(args):
        if not args.custom and how != "read":
            return None, {"extra": extra}
        return theid, dict(args.inputs, extra=extra)

    with w.installed():
        m = mocks(sx, on_resource, lambda a: {"no": "function"})
        s = Setup(sx, m, names="n", preview=sx.choice("preview", (None, True)))

        class Comp(pulumi.ComponentResource):
            def __init__(self, name, opts=None):
                super().__init__("pkg:mod:Comp", name, {"extra": None}, opts)

        def test():
            v, want, secret = value(sx, "v", kind)
            got.update(want=want, secret=secret)
            t = "pulumi:pulumi:Stack$pkg:mod:Typ"
            if how == "component":
                r, t = Comp("res"), "pulumi:pulumi:Stack$pkg:mod:Comp"
            elif how == "child":
                r, t = typed()("res", {"p": v, "q": "q"}, pulumi.ResourceOptions(parent=Comp("comp"))), "pkg:mod:Comp$pkg:mod:Typ"
            else:
                r = typed()("res", {"p": v, "q": "q"}, pulumi.ResourceOptions(id=theid) if how == "read" else None)
            urn = s.urn(t, "res")

            async def look():
                await observe(r.urn)
                o = pulumi.ResourceOptions(urn=urn if which == "it" else urn + "x")
                g = Comp("again", o) if how == "component" else typed()("again", None, o)
                for k in ("urn", "id", "p", "q", "extra") if how != "component" else ("urn", "extra"):
                    got[k] = await observe(getattr(g, k))
                    if got[k].exc is not None:
                        raise got[k].exc

            return look()

        exc = tested(sx, w, test)
        sx.check((exc is not None) == (which == "unknown"), "a-test-fails-iff-something-failed", lambda: repr(exc))
        s.judge()
        sx.check(len([a for a in m.made if a.name == "res"]) == 1 and not [a for a in m.made if a.name == "again"], "mocks-make-each-resource-once",
                 lambda: [a.name for a in m.made])
        sx.check(not m.called, "lookups-are-no-calls-of-functions", lambda: m.called)
        if exc is None and "extra" in got:
            sx.check(sx.and_(sx.eq(got["extra"].known, True), sx.eq(got["extra"].value, extra)), "outputs-are-what-the-mocks-gave")
            t = {"component": "pulumi:pulumi:Stack$pkg:mod:Comp", "child": "pkg:mod:Comp$pkg:mod:Typ"}.get(how, "pulumi:pulumi:Stack$pkg:mod:Typ")
            sx.check(sx.eq(got["urn"].value, s.urn(t, "res")), "urns-name-what-was-declared", lambda: got["urn"].value)
            if how != "component":
                sx.check(sx.and_(sx.eq(got["id"].known, True), sx.eq(got["id"].value, theid)), "ids-are-what-the-mocks-gave", lambda: got["id"])
                for k, want in (("q", "q"), ("p", got["want"])):
                    if want is None:
                        continue
                    o = got[k]
                    sx.check(sx.and_(sx.eq(o.known, True), same(sx, o.value, want)), "outputs-are-what-the-mocks-gave", lambda: (k, o.value, o.known))
                    sx.check(sx.eq(o.secret, bool(k == "p" and got["secret"])), "secret-inputs-stay-secret", lambda: (k, o.secret))


def calls(sx, kinds):
    """Functions are called with their arguments and return what the mocks return."""
    import pulumi

    w = World(sx)
    kind = sx.choice("kind", kinds)
    shape = sx.choice("shape", ("dict", "none", "empty", "failures", "raises"))
    out = sx.str("out", 2)
    state = {}

    def on_call(args):
        ret = {"r": out, "n": [1, {"k": out}]}
        if shape == "raises":
            raise ValueError("no such function")
        return {"dict": lambda: ret, "none": lambda: (ret, None), "empty": lambda: (ret, []), "failures": lambda: ({}, [("prop", "is wrong")])}[shape]()

    with w.installed():
        m = mocks(sx, None, on_call)
        s = Setup(sx, m, names="n", preview=sx.choice("preview", (None, True)))

        def test():
            v, want, _ = value(sx, "v", kind)
            state["want"] = want
            state["res"] = pulumi.runtime.invoke("pkg:mod:fn", {"a": v, "b": "b"})

        exc = tested(sx, w, test)
        sx.check((exc is not None) == (shape in ("failures", "raises")), "a-test-fails-iff-something-failed", lambda: repr(exc))
        if shape == "failures" and exc is not None:
            sx.check("is wrong" in repr(exc) and "prop" in repr(exc), "failures-say-what-is-wrong", lambda: repr(exc))
        if shape == "raises" and exc is not None:
            sx.check("no such function" in repr(exc), "failures-say-what-is-wrong", lambda: repr(exc))
        s.judge()
        sx.check(len(m.called) == 1, "mocks-answer-each-call-once", lambda: len(m.called))
        for a in m.called:
            want = {"b": "b"}
            if kind != "none":
                want["a"] = state["want"]
            sx.check(a.token == "pkg:mod:fn" and same(sx, bare(a.args), want), "mocks-are-told-the-arguments", lambda: (a.token, a.args))
        if exc is None and "res" in state:
            v = state["res"].value
            sx.check(same(sx, v, {"r": out, "n": [1, {"k": out}]}), "calls-return-what-the-mocks-return", lambda: v)


def sequence(sx, ends, kinds=("ValueError",), previews=(None, True, False)):
    """Tests wait for all they started, fail iff something did, and leave nothing behind for the next one."""
    import pulumi

    w = World(sx)
    n = 2
    with w.installed():
        for i in range(n):
            end = sx.choice("end%d" % i, ends if i == 0 else ("", "raise"))
            done = []
            preview = sx.choice("preview%d" % i, previews)
            fail = kind_of_failure(sx.choice("kind%d" % i, kinds if i == 0 else kinds[:1]))

            def on_resource(args, end=end, fail=fail):
                if args.name == "late" and end == "late-resource":
                    raise fail("failed")
                if args.name == "res" and end == "resource":
                    raise fail("failed")
                done.append(args.name)
                return args.name + "-id", args.inputs

            m = mocks(sx, on_resource, lambda a: {})
            s = Setup(sx, m, names="n%d" % i, preview=preview)

            def test(end=end, done=done, fail=fail):
                r = typed()("res", {"p": "p"})

                def cb(u, fail=fail):
                    typed()("late", {"p": u})
                    if end == "callback":
                        raise fail("failed")
                    done.append("callback")
                    return u

                o = r.urn.apply(cb)
                if end == "raise":
                    raise fail("failed")
                if end == "returned":
                    def bad(u, fail=fail):
                        raise fail("failed")

                    return r.urn.apply(bad)
                if len(kinds) > 1 or sx.choice("return%d" % i, 2):
                    return o

            exc = tested(sx, w, test)
            sx.check((exc is not None) == bool(end), "a-test-fails-iff-something-failed", lambda: (i, end, repr(exc)))
            if exc is not None:
                sx.check("failed" in repr(exc), "failures-say-what-is-wrong", lambda: repr(exc))
            s.judge()
            if not end:
                sx.check(sorted(done) == ["callback", "late", "res"], "a-test-waits-for-all-it-started", lambda: done)
                for a in m.made:
                    sx.check(a.name in ("res", "late"), "mocks-are-told-what-was-declared")
                    if a.name == "late":
                        sx.check(sx.eq(a.inputs.get("p"), s.urn("pulumi:pulumi:Stack$pkg:mod:Typ", "res")), "urns-name-what-was-declared", lambda: a.inputs)


def logging(sx):
    """Messages go to the logger given, at their own level."""
    import pulumi

    w = World(sx)
    got = []

    class Logger:
        def __getattr__(self, n):
            return lambda msg, *a, **k: got.append((n, msg))

    sev = sx.choice("severity", ("debug", "info", "warn", "error"))
    about = sx.choice("about", 2)
    msg = sx.str("message", 2, 1)
    with w.installed():
        m = mocks(sx)
        s = Setup(sx, m, names="n", logger=Logger())

        def test():
            r = typed()("res", {"p": "p"})
            getattr(pulumi.log, sev)(msg, r if about else None)

        exc = tested(sx, w, test)
        sx.check(exc is None, "a-test-fails-iff-something-failed", lambda: repr(exc))
        want = {"warn": "warning"}.get(sev, sev)
        mine = [g for g in got if sx.concrete(sx.eq(g[1], msg))]
        sx.check(len(mine) == 1 and mine[0][0] == want, "messages-reach-the-logger-at-their-level", lambda: mine)



ENDS = ("", "raise", "returned", "resource", "late-resource", "callback")
CELLS = [
    Cell("resources", resources, dict(kinds=KINDS, answers=("echo", "more", "nothing", "no-id", "fails")), weight=3),
    Cell("reading", reading),
    Cell("lookups", lookups, dict(kinds=("str", "dict", "secret"))),
    Cell("calls", calls, dict(kinds=KINDS)),
    Cell("sequence", sequence, dict(ends=ENDS), weight=2),
    Cell("sequence-kinds", sequence, dict(ends=("raise", "resource", "callback"), kinds=FAILURES, previews=(None,))),
    Cell("logging", logging),
]
