"""Automation results say what the CLI reported."""
import os
from datetime import datetime

from . import cli as C
from .lib import *
from .p19 import World, make, text, word, FakeServer

ANCHORS = ("pulumi.automation.events.", "pulumi.automation._stack.", "pulumi.automation._local_workspace.", "pulumi.automation._cmd.",
           "pulumi.automation.errors.")
BOUNDS = ("every event type with any of its optional fields present or absent and symbolic texts/numbers; histories, listings, configuration and "
          "outputs of up to two entries with every combination of optional fields; command output of up to three symbolic lines; every "
          "failure message between symbolic characters; event logs of up to three events written in up to four pieces cut at any of the "
          "chosen places (inside a line, inside a character), the reader running between any two writes, with and without a final "
          "cancel event, succeeding or failing; CLI versions with symbolic components <= 20 and prereleases")
OUTSIDE = "JSON reading (values are handed over parsed), time zones, callbacks that fail, lines ending in spaces, wall-clock waiting"

TIMES = [("2021-03-04T05:06:07.000Z", datetime(2021, 3, 4, 5, 6, 7)), ("1999-12-31T23:59:59.123Z", datetime(1999, 12, 31, 23, 59, 59, 123000))]


def opt(sx, nm):
    return sx.concrete(sx.bool("has_" + nm))


class Spec:
    """Builds a wire object and the expectations on the decoded one."""

    def __init__(self, sx, prefix=""):
        self.sx, self.p, self.wire, self.want = sx, prefix, {}, {}

    def field(self, name, attr, kind, optional=False, absent=None):
        sx, nm = self.sx, self.p + attr
        if optional and not opt(sx, nm):
            self.want[attr] = absent
            return self
        v = {"text": lambda: sx.str(nm, 3), "int": lambda: sx.int(nm, 0, 9), "bool": lambda: sx.concrete(sx.bool(nm)),
             "texts": lambda: ["x", sx.str(nm, 2)], "map": lambda: {"k": sx.str(nm, 2), "n": {"m": [1]}},
             "counts": lambda: {"create": sx.int(nm, 0, 9), "same": 2}}[kind]()
        self.wire[name] = v
        self.want[attr] = v
        return self


def compare(sx, obj, want, label):
    for attr, v in want.items():
        if not hasattr(obj, attr):
            sx.check(False, label, lambda: (attr, "missing"))  # noqa: B023
            continue
        g = getattr(obj, attr)
        if isinstance(v, tuple) and v and v[0] == "object":
            if v[1] is None:
                sx.check(g is None, label, lambda: (attr, g))  # noqa: B023
            else:
                sx.check(g is not None, label, lambda: (attr, g))  # noqa: B023
                if g is not None:
                    compare(sx, g, v[1], label)
        elif isinstance(v, tuple) and v and v[0] == "objects":
            sx.check(g is not None and sorted(g) == sorted(v[1]), label, lambda: (attr, g, v))  # noqa: B023
            for k in v[1]:
                compare(sx, g[k], v[1][k], label)
        else:
            sx.check(sx.eq(g, v), label, lambda: (attr, g, v))  # noqa: B023


def state(sx, nm):
    s = Spec(sx, nm)
    for n, a in [("type", "type"), ("urn", "urn"), ("id", "id"), ("parent", "parent"), ("provider", "provider")]:
        s.wire[n] = s.want[a] = sx.str(nm + a, 2)
    some = sx.choice(nm + "optional", ["none", "all", "state", "flags", "outputs"])
    for n, a, v, g in [("custom", "custom", True, "flags"), ("delete", "delete", True, "flags"), ("protect", "protect", True, "flags"),
                       ("inputs", "inputs", {"a": [sx.str(nm + "in", 2)]}, "state"), ("outputs", "outputs", {"b": None}, "outputs"),
                       ("initErrors", "init_errors", ["e"], "state")]:
        if some in ("all", g):
            s.wire[n] = s.want[a] = v
        else:
            s.want[a] = None
            if n in ("inputs", "outputs") and some == "none":
                s.wire[n] = None
    return s.wire, s.want


OPS = ["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard",
       "discard-replaced", "remove-pending-replace", "import", "import-replacement"]
DIFFS = ["add", "add-replace", "delete", "delete-replace", "update", "update-replace"]


def member(sx, enum, text):
    m = getattr(enum, text.upper().replace("-", "_"), None)
    sx.check(m is not None and m.value == text and m == text, "every-kind-has-its-name", lambda: (enum, text, m))
    return m


def step(sx, ops=None):
    from pulumi.automation.events import OpType, DiffKind

    s = Spec(sx)
    op = sx.choice("op", ops or OPS)
    s.wire["op"], s.want["op"] = op, member(sx, OpType, op)
    for n in ("urn", "type", "provider"):
        s.wire[n] = s.want[n] = sx.str(n, 2)
    for side in ("old", "new"):
        if sx.choice(side, [False, True]) if op in ("update",) else (side == "new"):
            w, e = state(sx, side) if op in ("update", "create") else ({"type": "t", "urn": "u", "id": "", "parent": "", "inputs": None,
                                                                         "outputs": None, "provider": ""}, {"type": "t", "id": ""})
            s.wire[side], s.want[side] = w, ("object", e)
        else:
            s.wire[side], s.want[side] = None, ("object", None)
    if op in ("update", "replace"):
        s.field("keys", "keys", "texts", True).field("diffs", "diffs", "texts", True)
    if op in ("update", "same") and opt(sx, "detailed"):
        kind, inp = sx.choice("diff_kind", DIFFS), sx.concrete(sx.bool("input"))
        given = opt(sx, "input_diff")
        s.wire["detailedDiff"] = {"a.b": {"diffKind": kind, **({"inputDiff": inp} if given else {})}}
        want = {"a.b": {"diff_kind": member(sx, DiffKind, kind), "input_diff": given and inp}}
        if given and kind != "add":
            s.wire["detailedDiff"]["c"] = {"diffKind": "add", "inputDiff": False}
            want["c"] = {"diff_kind": DiffKind.ADD, "input_diff": False}
        s.want["detailed_diff"] = ("objects", want)
    else:
        s.want["detailed_diff"] = None
    s.field("logical", "logical", "bool", True)
    return s.wire, s.want


FIELDS = {"cancelEvent": "cancel_event", "stdoutEvent": "stdout_event", "diagnosticEvent": "diagnostic_event", "preludeEvent": "prelude_event",
          "summaryEvent": "summary_event", "resourcePreEvent": "resource_pre_event", "resOutputsEvent": "res_outputs_event",
          "resOpFailedEvent": "res_op_failed_event", "policyEvent": "policy_event"}


def events(sx, kinds, ops=None):
    """Every event is decoded field by field (names as in sdk/go/common/apitype/events.go)."""
    from pulumi.automation.events import EngineEvent

    kind = sx.choice("kind", kinds)
    s = Spec(sx)
    if kind == "stdoutEvent":
        s.field("message", "message", "text").field("color", "color", "text")
    elif kind == "diagnosticEvent":
        s.field("message", "message", "text").field("color", "color", "text").field("severity", "severity", "text")
        s.field("streamID", "stream_id", "int", True).field("ephemeral", "ephemeral", "bool", True)
        s.field("urn", "urn", "text", True).field("prefix", "prefix", "text", True)
    elif kind == "preludeEvent":
        s.wire["config"] = s.want["config"] = {"p:a": sx.str("c", 3)} if sx.choice("config", [True, False]) else {}
    elif kind == "summaryEvent":
        s.field("maybeCorrupt", "maybe_corrupt", "bool").field("durationSeconds", "duration_seconds", "int")
        s.field("resourceChanges", "resource_changes", "counts", True, {})
        s.wire["PolicyPacks"] = s.want["policy_packs"] = {"p": sx.str("version", 3)} if sx.choice("packs", [True, False]) else {}
    elif kind in ("resourcePreEvent", "resOutputsEvent"):
        w, e = step(sx, ops)
        s.wire["metadata"], s.want["metadata"] = w, ("object", e)
        s.field("planning", "planning", "bool", True)
    elif kind == "resOpFailedEvent":
        w, e = step(sx, ops)
        s.wire["metadata"], s.want["metadata"] = w, ("object", e)
        s.field("status", "status", "int").field("steps", "steps", "int")
    elif kind == "policyEvent":
        for n, a in [("message", "message"), ("color", "color"), ("policyName", "policy_name"), ("policyPackName", "policy_pack_name"),
                     ("policyPackVersion", "policy_pack_version"), ("policyPackVersionTag", "policy_pack_version_tag"),
                     ("enforcementLevel", "enforcement_level")]:
            s.field(n, a, "text")
        s.field("resourceUrn", "resource_urn", "text", True)
    seq, ts = sx.int("sequence", 0, 99), sx.int("timestamp", 0, 99)
    e = EngineEvent.from_json({"sequence": seq, "timestamp": ts, kind: s.wire})
    compare(sx, e, {"sequence": seq, "timestamp": ts}, "event-decoded")
    for k, a in FIELDS.items():
        g = getattr(e, a)
        sx.check((g is not None) == (k == kind), "just-that-kind-of-event", lambda: (kind, a, g))  # noqa: B023
    compare(sx, getattr(e, FIELDS[kind]), s.want, "event-decoded")


def summary(sx, nm):
    """A history entry (pkg/cmd/pulumi/stack_history.go) and what it says."""
    s = Spec(sx, nm)
    s.field("kind", "kind", "text").field("message", "message", "text").field("result", "result", "text")
    s.wire["environment"] = s.want["environment"] = {"git.head": sx.str(nm + "env", 2)}
    i = sx.choice(nm + "start", 2)
    s.wire["startTime"], s.want["start_time"] = TIMES[i]
    s.wire["version"] = s.want["version"] = sx.int(nm + "version", 0, 9)
    running = sx.choice(nm + "running", [False, True])
    if running:
        s.wire["result"] = s.want["result"] = "in-progress"
        s.want["end_time"] = s.want["resource_changes"] = None
    else:
        s.wire["endTime"], s.want["end_time"] = TIMES[1 - i]
        s.wire["resourceChanges"] = s.want["resource_changes"] = sx.choice(nm + "changes", [{"create": sx.int(nm + "n", 0, 9)}, {}])
    c = sx.choice(nm + "config", ["none", "plain", "secret", "hidden", "object"])
    v = sx.str(nm + "value", 3)
    if c == "none":
        s.wire["config"], s.want["config"] = {}, ("objects", {})
    else:
        w = {"plain": {"value": v, "secret": False}, "secret": {"value": v, "secret": True}, "hidden": {"secret": True},
             "object": {"value": v, "objectValue": {"a": [1]}, "secret": False}}[c]
        s.wire["config"] = {"p:k": w}
        e = {"secret": w["secret"]}
        if c != "hidden":
            e["value"] = v
        s.want["config"] = ("objects", {"p:k": e})
    return s.wire, s.want


def results(sx):
    """Listings, configuration, outputs and histories."""
    from pulumi import automation as auto

    with Scratch() as d, C.scratch_tmp():
        answers = {}

        def respond(call):
            k = tuple(call.pos[:2])
            if k == ("stack", "output"):
                k = k + ("show" if "show-secrets" in call.flags else "mask",)
            return C.Result([w.cli.js(answers[k])]) if k in answers else None

        w = World(sx, d, respond)
        with w.cli.installed():
            st = make(sx, d, w)
            ws = st.workspace
            op = sx.choice("op", ["stacks", "current", "plugins", "get", "all", "outputs", "history", "info", "export", "whoami"])
            if op in ("stacks", "current"):
                n = sx.choice("n", [0, 1, 2])
                wires, wants, cur = [], [], None
                for i in range(n):
                    s = Spec(sx, "s%d" % i)
                    s.field("name", "name", "text")
                    c = sx.concrete(sx.bool("current%d" % i))
                    sx.assume(not (c and cur is not None))
                    s.wire["current"] = s.want["current"] = c
                    s.field("updateInProgress", "update_in_progress", "bool")
                    s.want["last_update"] = None
                    if opt(sx, "update%d" % i):
                        s.wire["lastUpdate"], s.want["last_update"] = TIMES[i]
                    s.field("resourceCount", "resource_count", "int", i == 0).field("url", "url", "text", i == 0)
                    wires.append(s.wire)
                    wants.append(s.want)
                    cur = s.want if c else cur
                answers[("stack", "ls")] = wires
                if op == "stacks":
                    r = ws.list_stacks()
                    sx.check(len(r) == n, "listed", lambda: r)
                    for a, b in zip(r, wants):
                        compare(sx, a, b, "listed")
                else:
                    r = ws.stack()
                    sx.check((r is None) == (cur is None), "current-stack")
                    if r is not None and cur is not None:
                        compare(sx, r, cur, "current-stack")
            elif op == "plugins":
                s = Spec(sx)
                s.field("name", "name", "text").field("kind", "kind", "text").field("size", "size", "int").field("version", "version", "text")
                s.want["install_time"] = s.want["last_used_time"] = None
                if opt(sx, "installed"):
                    s.wire["installTime"], s.want["install_time"] = TIMES[0]
                if opt(sx, "used"):
                    s.wire["lastUsedTime"], s.want["last_used_time"] = TIMES[1]
                answers[("plugin", "ls")] = [s.wire, {"name": "b", "kind": "resource", "size": 0, "version": ""}]
                r = ws.list_plugins()
                sx.check(len(r) == 2, "listed", lambda: r)
                compare(sx, r[0], s.want, "listed")
                compare(sx, r[1], {"name": "b", "version": "", "install_time": None}, "listed")
            elif op in ("get", "all"):
                items = {}
                for k in ["p:a", "p:b"][:sx.choice("n", [1, 2, 0]) if op == "all" else 1]:
                    items[k] = {"value": sx.str(k, 3), "secret": sx.concrete(sx.bool("secret" + k))}
                    if opt(sx, "object" + k):
                        items[k]["objectValue"] = {"a": 1}
                if op == "get":
                    answers[("config", "get")] = items["p:a"]
                    got = {"p:a": st.get_config("p:a")}
                else:
                    answers[("config",)] = items
                    got = st.get_all_config()
                sx.check(sorted(got) == sorted(items), "configuration-read", lambda: got)
                for k in items:
                    compare(sx, got[k], {"value": items[k]["value"], "secret": items[k]["secret"]}, "configuration-read")
            elif op == "outputs":
                plain, mask, want = {}, {}, {}
                for k in ["a", "b"][:sx.choice("n", [2, 1, 0])]:
                    v = sx.choice("v" + k, ["text", "object", "null", "number"])
                    v = {"text": lambda: sx.str(k, 3), "object": lambda: {"x": sx.str(k, 2)}, "null": lambda: None,  # noqa: B023
                         "number": lambda: sx.int(k, 0, 9)}[v]()  # noqa: B023
                    sec = sx.concrete(sx.bool("secret" + k))
                    plain[k], mask[k] = v, ("[secret]" if sec else v)
                    want[k] = {"value": v, "secret": sec}
                answers[("stack", "output", "show")], answers[("stack", "output", "mask")] = plain, mask
                got = st.outputs()
                sx.check(sorted(got) == sorted(want), "outputs-read", lambda: got)
                for k in want:
                    compare(sx, got[k], want[k], "outputs-read")
            elif op in ("history", "info"):
                es = [summary(sx, "h0")] if sx.choice("n", [True, False]) else []
                if op == "history" and es and sx.choice("more", [False, True]):
                    es.append(({"kind": "destroy", "startTime": TIMES[0][0], "message": "", "environment": {}, "config": {}, "result": "failed",
                                "endTime": TIMES[1][0], "resourceChanges": {}, "version": 0}, {"kind": "destroy", "result": "failed", "version": 0}))
                answers[("stack", "history")] = [x for x, _ in es]
                if op == "history":
                    r = st.history()
                    sx.check(len(r) == len(es), "history-read", lambda: r)
                    for a, (_, b) in zip(r, es):
                        compare(sx, a, b, "history-read")
                else:
                    r = st.info()
                    sx.check((r is None) == (not es), "history-read", lambda: r)
                    if r is not None and es:
                        compare(sx, r, es[0][1], "history-read")
            elif op == "export":
                v, x = sx.int("version", 1, 5), {"resources": [sx.str("r", 2)]}
                answers[("stack", "export")] = {"version": v, "deployment": x}
                compare(sx, st.export_stack(), {"version": v, "deployment": x}, "state-exported")
            else:
                u = word(sx, "user")
                sx.assume(sx.not_(sx.or_(u[0] == " ", u[-1] == " ")))
                w.more = lambda call: C.Result([u]) if call.pos == ["whoami"] else None
                sx.check(sx.eq(ws.who_am_i().user, u), "user-named")


def run_output(sx):
    """What an operation prints is returned and reported line by line; its summary, outputs and changes are the CLI's."""
    with Scratch() as d, C.scratch_tmp(), C.Threads().installed():
        n = sx.choice("lines", [0, 1, 3])
        lines = [sx.str("line%d" % i, 2, 0, chars=[("a", "b"), (" ", " ")]) for i in range(n)]
        for x in lines:
            sx.assume(sx.not_(x.endswith(" ")))
        err = sx.str("stderr", 3)
        last = sx.choice("unterminated", [False, True]) if n else False
        op = sx.choice("op", ["up", "preview", "refresh", "destroy"])

        def respond(call):
            if call.pos == [op]:
                raw = None
                if last:
                    sx.assume(sx.not_(lines[-1] == ""))
                    raw = [x + "\n" for x in lines[:-1]] + [lines[-1]]
                return C.Result(lines, err, raw=raw)
            if call.pos == ["stack", "output"]:
                return C.Result([w.cli.js({"o": out})])
            if call.pos == ["stack", "history"]:
                return C.Result([w.cli.js([{"kind": kind, "startTime": TIMES[0][0], "message": "m", "environment": {}, "config": {},
                                            "result": "succeeded", "endTime": TIMES[1][0], "version": 4, "resourceChanges": {}}])])
            return None

        out, kind = sx.str("out", 2), sx.str("kind", 2)
        w = World(sx, d, respond)
        seen = []
        with w.cli.installed():
            st = make(sx, d, w)
            kw = {"on_output": seen.append} if sx.choice("callback", [True, False]) else {}
            r = getattr(st, op)(**kw)
        joined = ""
        for i, x in enumerate(lines):
            joined = joined + ("\n" if i else "") + x
        sx.check(sx.eq(r.stdout, joined), "stdout-returned", lambda: (r.stdout, lines))
        sx.check(sx.eq(r.stderr, err), "stderr-returned", lambda: (r.stderr, err))
        if kw:
            sx.check(len(seen) == len(lines) and sx.and_(*[sx.eq(a, b) for a, b in zip(seen, lines)], True), "lines-reported", lambda: (seen, lines))
        if op == "preview":
            sx.check(r.change_summary == {"same": 1}, "changes-returned", lambda: r.change_summary)
        else:
            compare(sx, r.summary, {"kind": kind, "version": 4, "end_time": TIMES[1][1]}, "summary-returned")
        if op == "up":
            sx.check(sorted(r.outputs) == ["o"] and sx.eq(r.outputs["o"].value, out), "outputs-returned", lambda: r.outputs)


ERRORS = {"not-found": ("stderr", ["error: no stack named 'dev' found"], "StackNotFoundError"),
          "exists": ("stderr", ["error: stack 'dev' already exists"], "StackAlreadyExistsError"),
          "conflict": ("stderr", ["error: [409] Conflict: Another update is currently in progress."], "ConcurrentUpdateError"),
          "compile": ("stdout", ["Build FAILED.", "Unable to compile TypeScript", "./a.go:1: syntax error: x", "a.go:2: undefined: x"], "CompilationError"),
          "inline": ("stdout", ["python inline source runtime error: x"], "InlineSourceRuntimeError"),
          "runtime": ("stdout", ["failed with an unhandled exception", "panic: runtime error", "an unhandled error occurred:"], "RuntimeError"),
          "none": ("stdout", [""], "CommandError")}


def failures(sx):
    """A failing command raises the error that names its cause, with everything it printed."""
    from pulumi import automation as auto
    from pulumi.automation import errors

    kind = sx.choice("kind", sorted(ERRORS))
    stream, texts, cls = ERRORS[kind]
    t = sx.choice("text", texts)
    pre, post = sx.str("pre", 1, 1, chars=[(" ", "~"), ("\n", "\n")]), sx.str("post", 1, 1, chars=[("a", "b"), ("\n", "\n")])
    other = sx.str("other", 1, 1, chars=[(" ", "~"), ("\n", "\n")])
    msg = pre + t + post
    code = sx.choice("code", [1, -9, 255])
    out, err = (msg, other) if stream == "stdout" else (other, msg)
    with Scratch() as d, C.scratch_tmp():
        w = World(sx, d, lambda call: C.Result([], err, code, raw=[out]) if call.pos == ["cancel"] else None)
        seen = []
        with w.cli.installed():
            st = make(sx, d, w)
            del w.cli.calls[:]
            e = None
            try:
                st.cancel()
            except auto.CommandError as x:
                e = x
        sx.check(e is not None, "failure-raised")
        if e is not None:
            sx.check(type(e) is getattr(errors, cls), "failure-named", lambda: (type(e), cls, out, err))
            sx.check(err in e.args[0], "failure-shows-what-was-printed", lambda: (e.args, err))
            if stream == "stdout":
                sx.check(t in e.args[0], "failure-shows-what-was-printed", lambda: (e.args, out))


LOG = ['{"sequence": 0, "timestamp": 7, "diagnosticEvent": {"message": "\u00e9", "color": "", "severity": "info"}}\n',
       '{"sequence": 1, "timestamp": 7, "summaryEvent": {"maybeCorrupt": false, "durationSeconds": 1, "resourceChanges": {"create": 3}, "PolicyPacks": {}}}\n',
       '{"sequence": 2, "timestamp": 7, "cancelEvent": {}}\n']


def watching(sx, ops, inline=(False,)):
    """Events reach the callback in order, each once, however they were written; nothing keeps running afterwards."""
    import grpc
    from pulumi import automation as auto

    op = sx.choice("op", ops)
    prog = sx.choice("program", list(inline))
    cancel = sx.choice("cancel", [True, False])
    fails = sx.choice("fails", [False, True])
    n = sx.choice("written", [3, 2, 1]) if not cancel else 3
    data = "".join(LOG[:n] if cancel else LOG[:n][:2]).encode("utf-8")
    expect = [0, 1, 2] if cancel else list(range(min(n, 2)))
    l0 = len(LOG[0].encode("utf-8"))
    e0 = data.index("\u00e9".encode("utf-8"))
    places = sorted(x for x in {5, e0 + 1, l0 - 1, l0, l0 + 9} if x < len(data))
    cuts = [0, len(data)]
    a = sx.choice("cut1", [None] + places)
    b = sx.choice("cut2", [None] + places) if a is not None else None
    sx.assume(b is None or b > a)
    cuts = sorted({x for x in [0, a, b, len(data)] if x is not None})
    servers, seen = [], []

    def during(call):
        f = call.flags.get("event-log")
        if not f:
            return
        with open(f[0], "ab", buffering=0) as h:
            for i in range(len(cuts) - 1):
                h.write(data[cuts[i]:cuts[i + 1]])
                if sx.choice("reader%d" % i, [True, False]):
                    for t in th.all:
                        t.step()

    def server(*x, **k):
        servers.append(FakeServer())
        return servers[-1]

    with Scratch() as d, C.scratch_tmp() as tmp, C.Threads().installed() as th:
        saved, grpc.server = grpc.server, server
        w = World(sx, d, lambda call: C.Result([], "boom", 1) if fails and call.pos == [op] else None)
        w.cli.during = during
        err = r = None
        try:
            with w.cli.installed():
                st = make(sx, d, w, program=(lambda: None) if prog else None)
                try:
                    r = getattr(st, op)(on_event=lambda e: seen.append(e))
                except auto.CommandError as e:
                    err = e
                except RuntimeError as e:
                    err = e
        finally:
            grpc.server = saved
        alive = [t for t in th.all if t.is_alive()]
        died = [t.exc for t in th.all if t.exc is not None]
        sx.check(not alive, "watching-ends-with-the-command", lambda: (op, cancel, fails))
        sx.check(not died, "watching-does-not-fail", lambda: died)
        sx.check([e.sequence for e in seen] == expect, "events-in-order-each-once", lambda: (seen, cuts))
        sx.check(not expect or (seen and seen[0].diagnostic_event.message == "\u00e9"), "events-intact", lambda: seen)
        sx.check(os.listdir(tmp) == [], "no-temporary-files-left", lambda: os.listdir(tmp))
        for s in servers:
            sx.check(s.events == ["port", "start", "stop"], "program-no-longer-served", lambda: s.events)
        nosum = op == "preview" and 1 not in expect
        sx.check((err is None) == (not fails and not nosum), "failure-raised", lambda: (err, fails))
        if op == "preview" and r is not None:
            sx.check(r.change_summary == {"create": 3}, "changes-returned", lambda: r.change_summary)


def versions(sx):
    """A CLI that is too old or of another major version is refused, unless the check is skipped."""
    from pulumi import automation as auto
    from semver import VersionInfo
    from .p16 import environ

    ma, mi, pa = sx.int("major", 0, 20), sx.int("minor", 0, 20), sx.int("patch", 0, 20)
    pre = sx.choice("prerelease", [None, "alpha.1"])
    skip = sx.choice("skip", [None, "environment", "workspace"])
    readable = sx.choice("readable", [True, False])
    v = VersionInfo(0, 0, 0, pre)
    v._major, v._minor, v._patch = ma, mi, pa
    orig, shown = VersionInfo.__dict__["parse"], VersionInfo.__str__

    def parse(cls, s):
        if s == "9.9.9-token":
            return v
        return orig.__func__(cls, s)

    VersionInfo.parse = classmethod(parse)
    VersionInfo.__str__ = lambda self: "the version"
    env = {"PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK": "true"}
    try:
        with Scratch() as d, environ(**(env if skip == "environment" else {})):
            w = World(sx, d)
            w.cli.version = ("v9.9.9-token" if sx.choice("v", [True, False]) else "9.9.9-token") if readable else "who knows"
            with w.cli.installed():
                err = None
                try:
                    make(sx, d, w, env_vars=env if skip == "workspace" else sx.choice("others", [None, {"A": "b"}]))
                except auto.InvalidVersionError as e:
                    err = e
    finally:
        VersionInfo.parse, VersionInfo.__str__ = orig, shown
    old = sx.or_(ma < 3, sx.and_(ma == 3, mi < 1), sx.and_(ma == 3, mi == 1, pa == 0, pre is not None))
    bad = sx.or_(ma > 3, old) if readable else True
    if skip:
        sx.check(err is None, "check-skipped", lambda: err)
    else:
        sx.check(sx.iff(err is not None, bad), "unsupported-version-refused", lambda: (ma, mi, pa, pre, err))


def version_named(sx):
    """The version is reported as the CLI printed it."""
    from pulumi import automation as auto
    from .p16 import environ

    t = sx.choice("text", ["3.40.0", "3.1.0", "3.2.1-beta+a.b", "nonsense"])
    with Scratch() as d, environ(PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK="1"):
        w = World(sx, d)
        w.cli.version = sx.choice("v", ["v", ""]) + t
        with w.cli.installed():
            ws = auto.LocalWorkspace(work_dir=d)
        try:
            got = ws.pulumi_version
        except auto.InvalidVersionError:
            got = None
        sx.check(got == (None if t == "nonsense" else t), "version-named", lambda: got)


CELLS = [
    Cell("events", events, dict(kinds=["cancelEvent", "stdoutEvent", "diagnosticEvent", "preludeEvent", "summaryEvent", "policyEvent"])),
    Cell("step-events", events, dict(kinds=["resourcePreEvent"]), weight=3),
    Cell("other-step-events", events, dict(kinds=["resOutputsEvent", "resOpFailedEvent"], ops=["delete", "replace", "same"])),
    Cell("more-step-events", events, dict(kinds=["resOutputsEvent", "resOpFailedEvent"]), tiers=("thorough",), weight=4),
    Cell("results", results, weight=3),
    Cell("output", run_output),
    Cell("failures", failures),
    Cell("watching", watching, dict(ops=["up"], inline=(False,))),
    Cell("watching-preview", watching, dict(ops=["preview"], inline=(True,))),
    Cell("watching-others", watching, dict(ops=["refresh", "destroy"])),
    Cell("versions", versions),
    Cell("version", version_named),
]
