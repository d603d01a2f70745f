"""The automation API runs exactly the CLI command that was asked for."""
import os

from . import cli as C
from .lib import *
from .p16 import environ

ANCHORS = ("pulumi.automation._stack.", "pulumi.automation._local_workspace.LocalWorkspace", "pulumi.automation._cmd.")
BOUNDS = ("up, preview, refresh and destroy with every pair of their options (symbolic texts <= 3, numbers 1..9999), with and without an inline "
          "program and event callback; every other stack and workspace operation with symbolic names, keys, values <= 3 that do "
          "not start with '-' where the CLI would read that as a flag; environment of up to three variables")
OUTSIDE = "the CLI itself and how it reads its arguments (flag parsing as in pkg/cmd/pulumi), process creation"

TEXT = [("a", "c"), ("-", "-"), ("=", "="), (" ", " "), (",", ","), ("\u00e9", "\u00e9")]


def text(sx, nm, n=3, lo=1):
    return sx.str(nm, n, lo, chars=TEXT)


def word(sx, nm, n=3):
    s = text(sx, nm, n)
    sx.assume(sx.not_(s[0] == "-"))
    return s


# option -> (flag, kind)
COMMON = {"parallel": ("parallel", "int"), "message": ("message", "text"), "target": ("target", "list"), "color": ("color", "text"),
          "log_flow": ("logflow", "switch"), "log_verbosity": ("verbose", "int"), "log_to_std_err": ("logtostderr", "switch"),
          "tracing": ("tracing", "text"), "debug": ("debug", "switch")}
UPDATE = {"policy_packs": ("policy-pack", "list"), "policy_pack_configs": ("policy-pack-config", "list"),
          "expect_no_changes": ("expect-no-changes", "switch"), "diff": ("diff", "switch"),
          "target_dependents": ("target-dependents", "switch"), "replace": ("replace", "list")}
OPTIONS = {"up": {**COMMON, **UPDATE, "plan": ("plan", "text")}, "preview": {**COMMON, **UPDATE, "plan": ("save-plan", "text")},
           "refresh": {**COMMON, "expect_no_changes": ("expect-no-changes", "switch")},
           "destroy": {**COMMON, "target_dependents": ("target-dependents", "switch")}}
SUMMARY = {"kind": "update", "startTime": "2021-01-01T01:02:03.000Z", "message": "m", "environment": {}, "config": {}, "result": "succeeded",
           "endTime": "2021-01-01T01:02:04.000Z", "version": 1}


class World:
    """A workspace over a stand-in CLI."""

    def __init__(self, sx, d, respond=None, **kw):
        self.cli = C.Cli(sx, self.answer, self.during)
        self.more = respond

    def during(self, call):
        f = call.flags.get("event-log")
        if f:
            with open(f[0], "a", encoding="utf-8") as h:
                h.write('{"sequence": 0, "timestamp": 0, "summaryEvent": {"maybeCorrupt": false, "durationSeconds": 1, '
                        '"resourceChanges": {"same": 1}, "PolicyPacks": {}}}\n{"sequence": 1, "timestamp": 0, "cancelEvent": {}}\n')

    def answer(self, call):
        if self.more is not None:
            r = self.more(call)
            if r is not None:
                return r
        if call.pos == ["stack", "history"]:
            return C.Result([self.cli.js([dict(SUMMARY)])])
        if call.pos in (["stack", "output"], ["config"]):
            return C.Result(["{}"])
        if call.pos in (["stack", "ls"], ["plugin", "ls"]):
            return C.Result(["[]"])
        if call.pos[:2] == ["config", "get"]:
            return C.Result([self.cli.js({"value": "v", "secret": False})])
        if call.pos == ["stack", "export"]:
            return C.Result([self.cli.js({"version": 3, "deployment": {}})])
        if call.pos == ["whoami"]:
            return C.Result(["me"])
        return None


def make(sx, d, w, home=None, env_vars=None, program=None, name="dev", mode="select", cls=None, **kw):
    from pulumi import automation as auto

    ws = (cls or auto.LocalWorkspace)(work_dir=d, pulumi_home=home, env_vars=env_vars, program=program, **kw)
    return getattr(auto.Stack, mode)(name, ws)


def matches(sx, call, pos, flags, label):
    """The command has exactly these positional arguments and flags."""
    got = {k: v for k, v in call.flags.items() if k != "non-interactive"}
    sx.check("non-interactive" in call.flags, "never-interactive", lambda: call)
    sx.check(len(call.pos) == len(pos) and sx.and_(*[sx.eq(a, b) for a, b in zip(call.pos, pos)]), label, lambda: (call, pos))
    want = {k: v for k, v in flags.items() if v is not None}
    sx.check(sorted(got) == sorted(want), label, lambda: (call, want))
    for k in want:
        if k not in got:
            continue
        if want[k] is True:
            sx.check(all(x is True for x in got[k]), label, lambda: (k, call, want))
        elif want[k] is not ANY:
            sx.check(len(got[k]) == len(want[k]) and sx.and_(*[sx.eq(a, b) for a, b in zip(got[k], want[k])], True), label,
                     lambda: (k, got[k], want[k]))


ANY = object()


class FakeServer:
    def __init__(self, *a, **k):
        self.events = []

    def add_generic_rpc_handlers(self, h):
        pass

    def add_insecure_port(self, address):
        self.events.append("port")
        return 4711

    def start(self):
        self.events.append("start")

    def stop(self, grace):
        self.events.append("stop")


def operations(sx, op, pairs=True, inline=(False,), events=(False,), given=None):
    """Options reach the CLI as given, and no others."""
    import grpc

    spec = OPTIONS[op]
    names = sorted(spec)
    if given == "all":
        chosen = names
    else:
        i = sx.choice("first", len(names) + 1)
        chosen = [] if i == len(names) else [names[i]]
        if pairs and chosen:
            j = sx.choice("second", len(names) - i)
            if j:
                chosen.append(names[i + j])
    kw, want = {}, {}
    for o in chosen:
        flag, kind = spec[o]
        if kind == "text":
            kw[o] = text(sx, o)
            if given == "all" and o == "message":
                kw[o] = sx.choice("words", [kw[o], "--stack", "--yes"])
            want[flag] = [kw[o]]
        elif kind == "int":
            n = sx.int(o, 1, 9999)
            kw[o] = n
            want[flag] = [num(sx, n)]
        elif kind == "list":
            n = sx.choice("n" + o, [2, 1, 0]) if given != "all" else 2
            kw[o] = [text(sx, o + str(k), 2) for k in range(n)]
            want[flag] = list(kw[o]) if n else None
        else:
            on = sx.concrete(sx.bool(o)) if given != "all" else True
            kw[o] = on
            want[flag] = True if on else None
    show = None
    if op != "preview" and given == "all":
        show = sx.choice("show_secrets", [None, False, True])
        if show is not None:
            kw["show_secrets"] = show
    prog = sx.choice("program", list(inline))
    ev = sx.choice("events", list(events))
    servers = []

    def server(*a, **k):
        servers.append(FakeServer())
        return servers[-1]

    seen = []
    with Scratch() as d, C.scratch_tmp() as tmp, C.Threads().installed():
        saved = grpc.server
        grpc.server = server
        w = World(sx, d)
        try:
            with w.cli.installed():
                name = word(sx, "stack")
                st = make(sx, d, w, program=(lambda: None) if prog == "workspace" else None, name=name)
                del w.cli.calls[:]
                if prog == "argument":
                    kw["program"] = lambda: None
                if ev:
                    kw["on_event"] = seen.append
                getattr(st, op)(**kw)
        finally:
            grpc.server = saved
        sx.check(os.listdir(tmp) == [], "no-temporary-files-left", lambda: os.listdir(tmp))
        call = w.cli.calls[0]
        want["stack"] = [name]
        if op != "preview":
            want["yes"] = want["skip-preview"] = True
        runs = op in ("up", "preview")
        want["exec-kind"] = ["auto.inline" if prog else "auto.local"]
        if prog and runs:
            want["client"] = ["127.0.0.1:4711"]
            sx.check(len(servers) == 1 and servers[0].events == ["port", "start", "stop"], "program-served-while-it-runs", lambda: servers[0].events)
        else:
            sx.check(not servers, "program-served-while-it-runs")
        if ev or op == "preview":
            want["event-log"] = ANY
        matches(sx, call, [op], want, "options-as-given")
        sx.check(sorted({" ".join(c.pos) for c in w.cli.calls[1:]}) == {"up": ["stack history", "stack output"], "preview": []}.get(
            op, ["stack history"]), "result-read-once-finished", lambda: w.cli.calls)
        for c in w.cli.calls[1:]:
            if c.pos == ["stack", "history"]:
                matches(sx, c, c.pos, {"json": True, "stack": [name], "page-size": ["1"], "page": ["1"],
                                       "show-secrets": None if show is False else True}, "result-read-as-asked")
        if ev:
            sx.check([e.sequence for e in seen] == [0, 1], "events-delivered", lambda: seen)


def num(sx, n):
    if not sx.symbolic:
        return str(n)
    from symx.engine import SymNum  # noqa
    from symx.instrument import h_call

    return h_call(str, n)


def config_ops(sx):
    """Configuration operations."""
    from pulumi import automation as auto

    with Scratch() as d, C.scratch_tmp():
        w = World(sx, d)
        with w.cli.installed():
            name = word(sx, "stack", 2)
            st = make(sx, d, w, name=name)
            del w.cli.calls[:]
            op = sx.choice("op", ["get", "all", "set", "set-all", "rm", "rm-all", "refresh"])
            on = st if sx.choice("on", ["stack", "workspace"]) == "stack" else None
            key, val = word(sx, "key"), text(sx, "value", 3, 0)
            sec = sx.concrete(sx.bool("secret"))

            def do(m, *a):
                if on is not None:
                    return getattr(st, m)(*a)
                return getattr(st.workspace, m)(name, *a)

            cv = auto.ConfigValue(val, secret=sec)
            s = {"stack": [name]}
            if op == "get":
                do("get_config", key)
                want = [(["config", "get", key], {**s, "json": True})]
            elif op == "all":
                do("get_all_config")
                want = [(["config"], {**s, "json": True, "show-secrets": True})]
            elif op == "set":
                do("set_config", key, cv)
                want = [(["config", "set", key, val], {**s, "secret" if sec else "plaintext": True})]
            elif op == "set-all":
                n = sx.choice("n", [0, 1, 2])
                k2, v2, sec2 = "k2", text(sx, "value2"), sx.concrete(sx.bool("secret2"))
                items = [("k1", val, sec), (k2, v2, sec2)][:n]
                do("set_all_config", {k: auto.ConfigValue(v, secret=x) for k, v, x in items})
                fl = {}
                for k, v, x in items:
                    fl.setdefault("secret" if x else "plaintext", []).append(k + "=" + v)
                want = [(["config", "set-all"], {**s, **fl})]
            elif op == "rm":
                do("remove_config", key)
                want = [(["config", "rm", key], s)]
            elif op == "rm-all":
                keys = [key, word(sx, "key2")][:sx.choice("n", [1, 2])]
                do("remove_all_config", keys)
                want = [(["config", "rm-all"] + keys, s)]
            else:
                do("refresh_config")
                want = [(["config", "refresh"], {**s, "force": True})]
        if op == "refresh":
            sx.check(len(w.cli.calls) >= 1 and all(c.pos == ["config"] for c in w.cli.calls[1:]), "runs-just-that", lambda: w.cli.calls)
        else:
            sx.check(len(w.cli.calls) == len(want), "runs-just-that", lambda: w.cli.calls)
        for c, (pos, fl) in zip(w.cli.calls, want):
            matches(sx, c, pos, fl, "command-as-asked")


def stack_ops(sx):
    """Operations on stacks and plugins."""
    from pulumi import automation as auto

    with Scratch() as d, C.scratch_tmp() as tmp:
        w = World(sx, d)
        with w.cli.installed():
            name = word(sx, "stack", 2)
            sp = sx.choice("secrets_provider", [None, "given"])
            prov = sx.choice("provider_kind", [text(sx, "provider"), "default", "passphrase", "awskms://alias/x?region=r"]) if sp else None
            st = make(sx, d, w, name="dev", secrets_provider=prov)
            ws = st.workspace
            del w.cli.calls[:]
            op = sx.choice("op", ["whoami", "ls", "current", "init", "select", "rm", "install", "rm-plugin", "plugins", "export", "import",
                                  "outputs", "history", "info", "cancel"])
            kind, ver, pl = "resource", word(sx, "ver", 2), word(sx, "plugin", 2)
            if op == "whoami":
                ws.who_am_i()
                want = (["whoami"], {})
            elif op in ("ls", "current"):
                ws.list_stacks() if op == "ls" else ws.stack()
                want = (["stack", "ls"], {"json": True})
            elif op == "init":
                ws.create_stack(name)
                want = (["stack", "init", name], {"secrets-provider": [prov]} if sp else {})
            elif op == "select":
                ws.select_stack(name)
                want = (["stack", "select", name], {})
            elif op == "rm":
                ws.remove_stack(name)
                want = (["stack", "rm", name], {"yes": True})
            elif op == "install":
                if sx.choice("kind", [False, True]):
                    kind = word(sx, "k", 2)
                    ws.install_plugin(pl, ver, kind)
                else:
                    ws.install_plugin(pl, ver)
                want = (["plugin", "install", kind, pl, ver], {})
            elif op == "rm-plugin":
                a = {}
                form = sx.choice("form", ["none", "name", "both"])
                if form != "none":
                    a["name"] = pl
                if form == "both":
                    a["version_range"] = ver
                if sx.choice("kind", [False, True]):
                    kind = a["kind"] = word(sx, "k", 2)
                ws.remove_plugin(**a)
                want = (["plugin", "rm", kind] + ([pl] if form != "none" else []) + ([ver] if form == "both" else []), {"yes": True})
            elif op == "plugins":
                ws.list_plugins()
                want = (["plugin", "ls"], {"json": True})
            elif op == "export":
                if sx.choice("of", ["named", "stack"]) == "named":
                    ws.export_stack(name)
                else:
                    st.export_stack()
                    name = "dev"
                want = (["stack", "export"], {"show-secrets": True, "stack": [name]})
            elif op == "import":
                # the state is what the CLI finds in the file it is told to read
                state = {"resources": [{"urn": "u", "n": 1.5, "t": [None, True, "\u00e9"]}], "secrets": {}}
                held = []
                fails = sx.choice("fails", [False, True])

                def respond(call):
                    if call.pos == ["stack", "import"]:
                        with open(call.flags["file"][0], "r", encoding="utf-8") as h:
                            held.append(C.json.load(h))
                        return C.Result(stderr="no", code=1) if fails else None
                    return None

                w.more = respond
                try:
                    if sx.choice("of", ["named", "stack"]) == "named":
                        ws.import_stack(name, auto.Deployment(version=3, deployment=state))
                    else:
                        name = "dev"
                        st.import_stack(auto.Deployment(version=3, deployment=state))
                    ok = True
                except auto.CommandError:
                    ok = False
                sx.check(ok == (not fails), "failure-reported")
                sx.check(held == [{"version": 3, "deployment": state}], "imports-the-given-state", lambda: held)
                want = (["stack", "import"], {"stack": [name], "file": ANY})
            elif op == "outputs":
                if sx.choice("of", ["named", "stack"]) == "named":
                    ws.stack_outputs(name)
                else:
                    st.outputs()
                    name = "dev"
                sx.check(len(w.cli.calls) == 2, "runs-just-that", lambda: w.cli.calls)
                matches(sx, w.cli.calls.pop([i for i, c in enumerate(w.cli.calls) if "show-secrets" in c.flags][-1]), ["stack", "output"], {"json": True, "show-secrets": True, "stack": [name]}, "command-as-asked")
                want = (["stack", "output"], {"json": True, "stack": [name]})
            elif op in ("history", "info"):
                a = {}
                if not sx.concrete(sx.bool("show")):
                    a["show_secrets"] = False
                fl = {"json": True, "stack": ["dev"], "show-secrets": True if a.get("show_secrets", True) else None}
                if op == "history":
                    pg = sx.choice("paging", ["none", "size", "both"])
                    if pg != "none":
                        a["page_size"] = sx.int("size", 1, 200)
                        fl["page-size"], fl["page"] = [num(sx, a["page_size"])], ["1"]
                    if pg == "both":
                        a["page"] = sx.int("page", 1, 200)
                        fl["page"] = [num(sx, a["page"])]
                    st.history(**a)
                else:
                    st.info(**a)
                    fl["page-size"], fl["page"] = ["1"], ["1"]
                want = (["stack", "history"], fl)
            else:
                st.cancel()
                want = (["cancel"], {"yes": True, "stack": ["dev"]})
        sx.check(len(w.cli.calls) == 1, "runs-just-that", lambda: w.cli.calls)
        matches(sx, w.cli.calls[0], want[0], want[1], "command-as-asked")
        sx.check(os.listdir(tmp) == [], "no-temporary-files-left", lambda: os.listdir(tmp))


def surroundings(sx):
    """Where and with what environment commands run; workspaces that add arguments are asked to, and told when it ran."""
    from pulumi import automation as auto

    class Custom(auto.LocalWorkspace):
        def serialize_args_for_op(self, stack_name):
            order.append(("args", stack_name))
            return ["--config-file", extra]

        def post_command_callback(self, stack_name):
            order.append(("post", stack_name))

    order = []
    a, b, h = text(sx, "a", 3, 0), text(sx, "b", 3, 0), text(sx, "home")
    extra = text(sx, "extra")
    home = h if sx.concrete(sx.bool("has_home")) else None
    ev = sx.choice("env_vars", [None, "new", "override", "home"])
    cls = Custom if sx.concrete(sx.bool("custom")) else None
    with Scratch() as d, C.scratch_tmp(), environ(OUTER="x", A=a) as env:
        w = World(sx, d)
        w.more = lambda call: order.append(("run", call)) or None
        with w.cli.installed():
            vars = {None: None, "new": {"B": b}, "override": {"A": b}, "home": {"PULUMI_HOME": b}}[ev]
            given = dict(vars) if vars is not None else None
            st = make(sx, d, w, home=home, env_vars=vars, cls=cls)
            del w.cli.calls[:], order[:]
            op = sx.choice("op", ["cancel", "whoami", "get", "history", "destroy"])
            {"cancel": st.cancel, "whoami": st.workspace.who_am_i, "get": lambda: st.get_config("k"), "history": st.history, "destroy": st.destroy}[op]()
        for call in w.cli.calls:
            sx.check(call.cwd == d, "runs-in-the-work-dir", lambda: call.cwd)
            want = {"OUTER": "x", "A": a}
            if home is not None:
                want["PULUMI_HOME"] = home
            want.update(vars or {})
            got = {k: v for k, v in call.env.items() if k != "PULUMI_DEBUG_COMMANDS"}
            sx.check(sorted(got) == sorted(want) and sx.and_(*[sx.eq(got[k], want[k]) for k in want]), "environment-passed-on", lambda: (got, want))
        sx.check(sorted(env) == ["A", "OUTER"], "own-environment-untouched", lambda: env)
        sx.check(vars is None or (sorted(vars) == sorted(given)), "given-variables-untouched")
        if cls is not None and op in ("cancel", "history", "destroy"):
            n = 2 if op == "destroy" else 1
            sx.check([x[0] for x in order] == ["args", "run", "post"] * n and all(x[1] == "dev" for x in order if x[0] != "run"), "workspace-hooks",
                     lambda: order)
            for c in w.cli.calls:
                sx.check(sx.eq(c.flags.get("config-file"), [extra]), "workspace-arguments-added", lambda: c)


def selecting(sx):
    """Creating and selecting stacks."""
    from pulumi import automation as auto

    how = sx.choice("how", ["create", "select", "create_or_select"])
    api = sx.choice("api", ["Stack", "local", "inline", "inline-existing"])
    exists = sx.concrete(sx.bool("exists"))
    other = sx.concrete(sx.bool("other_failure"))
    if sx.choice("full", [False, True]):
        parts = [word(sx, "org", 2), text(sx, "project", 2), text(sx, "stack", 2)]
        name = auto.fully_qualified_stack_name(*parts)
        sx.check(sx.eq(name, parts[0] + "/" + parts[1] + "/" + parts[2]), "fully-qualified", lambda: name)
    else:
        name = word(sx, "stack")

    def respond(call):
        if call.pos[:2] == ["stack", "init"]:
            if other:
                return C.Result(stderr="error: boom", code=255)
            if exists:
                return C.Result(stderr="error: stack 'dev' already exists", code=255)
        if call.pos[:2] == ["stack", "select"] and not exists:
            return C.Result(stderr="error: no stack named 'dev' found", code=255)
        return None

    with Scratch() as d, C.scratch_tmp():
        w = World(sx, d, respond)
        prog = lambda: None  # noqa
        with w.cli.installed():
            st = err = None
            try:
                if api == "Stack":
                    st = getattr(auto.Stack, how)(name, auto.LocalWorkspace(work_dir=d))
                elif api == "local":
                    st = getattr(auto, how + "_stack")(name, work_dir=d)
                else:
                    if api == "inline-existing":
                        with open(os.path.join(d, "Pulumi.yaml"), "w") as h:
                            h.write("name: theirs\nruntime: python\n")
                    st = getattr(auto, how + "_stack")(name, project_name="proj", program=prog, opts=auto.LocalWorkspaceOptions(work_dir=d))
            except auto.CommandError as e:
                err = e
            if st is not None and api.startswith("inline"):
                ps = st.workspace.project_settings()
                sx.check(ps.name == ("theirs" if api == "inline-existing" else "proj") and ps.runtime == "python", "project-named", lambda: vars(ps))
                sx.check(st.workspace.program is prog, "runs-the-program")
        init, sel = ["stack", "init"], ["stack", "select"]
        if how == "create":
            want, fail = [init], (auto.StackAlreadyExistsError if exists and not other else auto.CommandError if other else None)
        elif how == "select":
            want, fail = [sel], (None if exists else auto.StackNotFoundError)
        else:
            want, fail = ([init, sel] if exists and not other else [init]), (auto.CommandError if other else None)
        sx.check([c.pos[:2] for c in w.cli.calls] == want, "creates-or-selects", lambda: w.cli.calls)
        sx.check(sx.and_(*[sx.eq(c.pos[2], name) for c in w.cli.calls]), "by-name", lambda: w.cli.calls)
        sx.check((err is None) if fail is None else type(err) is fail, "failure-reported", lambda: (err, fail))
        sx.check(st is None or (sx.eq(st.name, name)), "named", lambda: st.name)


def sharing(sx):
    """Stacks made with the same options are independent, and the options stay as they were."""
    from pulumi import automation as auto

    hows = ["create", "select", "create_or_select"]
    kinds = [sx.choice("first", ["local", "inline"]), sx.choice("second", ["inline", "local"])]
    with Scratch() as d, C.scratch_tmp():
        w = World(sx, d)
        dirs = [os.path.join(d, x) for x in ("a", "b", "c")]
        for x in dirs:
            os.mkdir(x)
        here = sx.choice("work_dir", [True, False])
        a = {"env_vars": {"A": "x"}} if sx.choice("env", [True, False]) else {}
        if here:
            a["work_dir"] = dirs[2]
        if sx.choice("settings", [False, True]):
            a["project_settings"] = auto.ProjectSettings("given", "python")
        opts = auto.LocalWorkspaceOptions(**a)
        before = dict(vars(opts))
        with w.cli.installed():
            made = []
            for i, k in enumerate(kinds):
                f = getattr(auto, hows[sx.choice("how%d" % i, 3)] + "_stack")
                prog = lambda: None  # noqa
                if k == "local":
                    made.append((f("dev%d" % i, work_dir=dirs[i], opts=opts), None, dirs[i]))
                else:
                    made.append((f("dev%d" % i, project_name="proj%d" % i, program=prog, opts=opts), prog, dirs[2] if here else None))
                sx.check(vars(opts) == before, "options-untouched", lambda: (vars(opts), before))
            for i, (st, prog, wd) in enumerate(made):
                ws = st.workspace
                sx.check(ws.program is prog and ws.env_vars == a.get("env_vars", {}), "runs-the-program", lambda: (i, ws))  # noqa: B023
                sx.check(wd is None and ws.work_dir not in dirs or ws.work_dir == wd, "works-where-told", lambda: (i, ws, wd))  # noqa: B023
                if prog is not None:
                    n = "given" if "project_settings" in a else "proj0" if here and kinds[0] == "inline" else "proj%d" % i
                    sx.check(ws.project_settings().name == n, "project-named", lambda: (i, n, vars(ws.project_settings())))  # noqa: B023


def making(sx):
    """What a stack is made of: the arguments it takes, and every option passed on to its workspace."""
    from pulumi import automation as auto

    how = sx.choice("how", ["create", "select", "create_or_select"])
    given = sx.choice("given", ["work_dir", "project_name+program", "", "program", "project_name", "program+work_dir", "project_name+work_dir"])
    prog, theirs = lambda: None, lambda: None
    with Scratch() as d, C.scratch_tmp() as tmp, environ() as _:
        w = World(sx, d)
        a = {k: {"work_dir": d, "program": prog, "project_name": "proj"}[k] for k in given.split("+") if k}
        kind = {"work_dir": "local", "project_name+program": "inline"}.get(given, "local" if "work_dir" in given else "wrong")
        field = sx.choice("field", ["none", "empty", "home", "env", "secrets", "stack", "project", "program"])
        home, var, provider = text(sx, "home"), text(sx, "var"), text(sx, "provider")
        o = {"none": None, "empty": {}, "home": {"pulumi_home": home}, "env": {"env_vars": {"A": var}}, "secrets": {"secrets_provider": provider},
             "stack": {"stack_settings": {"dev": auto.StackSettings(config={"k": "v"})}}, "project": {"project_settings": auto.ProjectSettings("given", "python")},
             "program": {"program": theirs}}[field]
        opts = None if o is None else auto.LocalWorkspaceOptions(**o)
        if opts is not None or sx.choice("opts", ["left-out", "none"]) == "none":
            a["opts"] = opts
        st = err = None
        with w.cli.installed():
            try:
                st = getattr(auto, how + "_stack")("dev", **a)
            except ValueError as e:
                err = e
            sx.check((err is not None) == (kind == "wrong"), "incomplete-arguments-refused", lambda: (given, err))
            if kind == "wrong":
                sx.check(not w.cli.calls and os.listdir(tmp) == [], "refused-leaves-nothing", lambda: w.cli.calls)
                return
            ws = st.workspace
            o = o or {}
            sx.check(ws.program is (prog if kind == "inline" else o.get("program")), "runs-the-program", lambda: ws.program)
            sx.check(sx.eq(ws.pulumi_home, o.get("pulumi_home")), "at-home", lambda: ws.pulumi_home)
            sx.check(sx.eq(dict(ws.env_vars), o.get("env_vars", {})), "environment-passed-on", lambda: ws.env_vars)
            sx.check(sx.eq(ws.secrets_provider, o.get("secrets_provider")), "secrets-provider-passed-on", lambda: ws.secrets_provider)
            sx.check(ws.work_dir == d if kind == "local" else os.path.dirname(ws.work_dir) == tmp and os.path.isdir(ws.work_dir), "works-where-told",
                     lambda: ws.work_dir)
            n = "given" if field == "project" else "proj" if kind == "inline" else None
            if n is None:
                sx.check(not os.path.exists(os.path.join(d, "Pulumi.yaml")), "project-named")
            else:
                ps = ws.project_settings()
                sx.check(ps.name == n and ps.runtime == "python", "project-named", lambda: vars(ps))
            if field == "stack":
                sx.check(ws.stack_settings("dev").config == {"k": "v"}, "stack-settings-saved")
            else:
                sx.check([x for x in os.listdir(ws.work_dir) if x.startswith("Pulumi.") and x != "Pulumi.yaml"] == [], "stack-settings-saved",
                         lambda: os.listdir(ws.work_dir))
            for c in w.cli.calls:
                if c.pos[:2] == ["stack", "init"]:
                    sx.check(sx.eq(c.flags.get("secrets-provider"), [provider] if field == "secrets" else None), "secrets-provider-passed-on", lambda: c)  # noqa: B023


CELLS = [
    Cell("up", operations, dict(op="up")),
    Cell("preview", operations, dict(op="preview")),
    Cell("refresh", operations, dict(op="refresh")),
    Cell("destroy", operations, dict(op="destroy")),
] + [Cell("all-" + op, operations, dict(op=op, given="all", inline=(None, "workspace", "argument") if op in ("up", "preview") else (None, "workspace"),
                                        events=(False, True))) for op in OPTIONS] + [
    Cell("config", config_ops),
    Cell("stacks", stack_ops),
    Cell("surroundings", surroundings),
    Cell("selecting", selecting),
    Cell("sharing", sharing),
    Cell("making", making),
]
