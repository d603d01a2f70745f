"""Every log message reaches the engine once, as it was logged."""
import contextlib
import io

from .lib import *
from .lib import _empty

ANCHORS = ("pulumi.log.",)
BOUNDS = ("every severity, symbolic message <= 3, stream and ephemeral flag given or not, with or without a resource (known, or still "
          "being registered), with or without an engine; programs that log up to three messages, in every order of completion")
OUTSIDE = "messages about resources whose registration fails (the program fails), engines that refuse messages"

SEV = ("debug", "info", "warn", "error")
NUM = dict(debug=0, info=1, warn=2, error=3)


def message(sx, i):
    kw = {}
    if sx.choice("stream%d" % i, 2):
        kw["stream_id"] = sx.int("streamid%d" % i, 0, 1000)
    e = sx.choice("ephemeral%d" % i, (None, True, False))
    if e is not None:
        kw["ephemeral"] = e
    return kw


def check_req(sx, req, sev, msg, kw, urn):
    sx.check(req.severity == NUM[sev], "messages-keep-their-severity", lambda: (req.severity, sev))
    sx.check(sx.eq(req.message, msg), "messages-keep-their-text", lambda: req.message)
    sx.check(sx.eq(req.urn, urn), "messages-name-their-resource", lambda: (req.urn, urn))
    sx.check(sx.eq(req.streamId, kw.get("stream_id", 0)), "messages-keep-their-stream", lambda: req.streamId)
    sx.check(req.ephemeral == bool(kw.get("ephemeral")), "messages-keep-being-ephemeral", lambda: req.ephemeral)


def plainly(sx):
    """Messages without a resource are with the engine as soon as they are logged; without an engine they are printed."""
    import pulumi

    eng = Monitor()
    eng.on["Log"] = lambda r: _empty()
    has = sx.choice("engine", 2)
    configure(dry_run=False, monitor=basic_monitor(), engine=eng if has else None)
    sev = sx.choice("severity", SEV)
    out = io.StringIO()
    kw = message(sx, 0)
    msg = sx.str("message", 3) if has else "text"
    with contextlib.redirect_stderr(out):
        getattr(pulumi.log, sev)(msg, **kw)
    sent = eng.sent("Log")
    if has:
        sx.check(len(sent) == 1, "messages-are-sent-once", lambda: len(sent))
        for r in sent:
            check_req(sx, r, sev, msg, kw, "")
        sx.check(out.getvalue() == "", "messages-are-not-printed-as-well")
    else:
        name = {"warn": "warning"}.get(sev, sev)
        sx.check(out.getvalue() == ("" if sev == "debug" else name + ": text\n"), "without-an-engine-messages-are-printed", lambda: out.getvalue())


def program(sx, n, sevs):
    """By the time a program is done all it logged has been sent, once, naming the right resources."""
    import pulumi
    from pulumi.runtime.stack import run_pulumi_func

    mon, eng = basic_monitor(), Monitor()
    eng.on["Log"] = lambda r: _empty()
    configure(dry_run=False, monitor=mon, engine=eng)
    want = []
    state = {}

    def main_prog():
        a = pulumi.CustomResource("pkg:mod:Typ", "a", {})
        b = pulumi.ComponentResource("pkg:mod:Comp", "b")
        pool = {"none": None, "a": a, "b": b}

        def log(i):
            sev = sx.choice("severity%d" % i, sevs)
            who = sx.choice("about%d" % i, tuple(pool))
            kw = message(sx, i) if i == 0 else {}
            msg = sx.str("message", 2) if i == 0 else "message%d" % i
            want.append((sev, msg, kw, who, urns[who]))
            if pool[who] is None:
                getattr(pulumi.log, sev)(msg, **kw)
            elif sx.choice("positional%d" % i, 2):
                getattr(pulumi.log, sev)(msg, pool[who], kw.get("stream_id"), kw.get("ephemeral"))
            else:
                getattr(pulumi.log, sev)(msg, resource=pool[who], **kw)

        urns = {"none": "", "a": "urn:pulumi:stack::project::pkg:mod:Typ::a", "b": "urn:pulumi:stack::project::pkg:mod:Comp::b"}
        for i in range(n):
            if sx.choice("where%d" % i, ("main", "callback")) == "main":
                log(i)
            else:
                a.urn.apply(lambda _, i=i: log(i))

    async def main(loop):
        await run_pulumi_func(main_prog)
        state["done"] = True
        state["sent"] = len(eng.sent("Log"))

    run(sx, main)
    if not state.get("done"):
        return
    got = [r for r in eng.sent("Log")]
    sx.check(len(want) == n, "everything-runs")
    for sev, msg, kw, who, urn in want:
        mine = [r for r in got if sx.concrete(sx.eq(r.message, msg)) and r.severity == NUM[sev]]
        if sev == "debug" and len(mine) != 1:
            mine = [r for r in mine if sx.concrete(sx.eq(r.urn, urn))]
        sx.check(len(mine) == 1, "messages-are-sent-once", lambda: (sev, msg, len(mine)))
        for r in mine[:1]:
            check_req(sx, r, sev, msg, kw, urn)


CELLS = [
    Cell("plainly", plainly),
    Cell("program-one", program, dict(n=1, sevs=SEV)),
    Cell("program", program, dict(n=2, sevs=("info", "error")), weight=2),
    Cell("program-more", program, dict(n=3, sevs=SEV), tiers=("thorough",), weight=4),
]
