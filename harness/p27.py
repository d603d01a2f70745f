"""Programs and policy packs started by the CLI get its settings, and their exit code says how they ended."""
import argparse
import contextlib
import contextvars
import json
import os
import sys

from .lib import *
from .lib import _empty
from .p16 import environ
from .p23 import World, Unsendable

ANCHORS = ("pulumi.runtime.config.", "pulumi.runtime.settings.", "pulumi.metadata.", "pulumi.runtime.stack.run_in_stack", "pulumi.runtime.stack.run_pulumi_func")
BOUNDS = ("the launcher sdk/python/cmd/pulumi-language-python-exec and pulumi/policy/__main__.py, executed whole; every option given or not, "
          "symbolic texts <= 3 (the dry-run option <= 5), up to two arguments and two configuration values; programs that declare a resource with "
          "an apply callback and an export and end normally, with every kind of exception, or with a failing engine call, callback or awaitable, "
          "in every order of completion")
OUTSIDE = "argparse and the interpreter's own start and exit, programs that never end, the text of stack traces"

REPO_LIB = os.environ.get("SYMX_REPO_LIB", "/repo/sdk/python/lib")
LAUNCHER = os.path.join(os.path.dirname(REPO_LIB), "cmd", "pulumi-language-python-exec")
POLICY = os.path.join(REPO_LIB, "pulumi", "policy", "__main__.py")
PROGRAM = "import builtins\nbuiltins.symx_program(__name__, __file__)\n"


def execute(path):
    """Runs a script as the interpreter would; symbolically it is instrumented as the SDK is."""
    with open(path, encoding="utf-8") as f:
        src = f.read()
    ns = {"__name__": "__main__", "__file__": path}
    if "symx.instrument" in sys.modules:
        from symx import instrument

        ns.update(instrument.HOOKS)
        code = instrument.instrument_source(src, path, "launched.__main__")
    else:
        code = compile(src, path, "exec", dont_inherit=True)
    exec(code, ns)


@contextlib.contextmanager
def replaced(obj, name, value):
    saved = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, saved)


FAILS = ("raise", "key-error", "run-error", "rpc-error", "assert", "rpc", "rpc-outputs", "callback", "awaitable", "export", "syntax")
EXITS = ("exit-0", "exit-3")


class Launch:
    def __init__(self, sx, end=""):
        self.sx, self.end = sx, end
        self.words = {}  # what stands for a symbolic text on the command line
        self.argv = []
        self.env = {}
        self.cwd = None
        self.ran = []
        self.logs = []
        self.printed = ""
        self.code = self.exc = None
        self.settings = dict(project=None, stack=None, organization=None, dry=False, parallel=4)
        self.config, self.secrets, self.args = {}, [], []
        self.monitored = self.engined = False
        self.what = {}
        self.source = PROGRAM

    def word(self, w, v):
        self.words[w] = v
        return w

    def program(self, name, file):
        import pulumi

        from pulumi.runtime import settings
        from pulumi.runtime.config import is_config_secret

        self.ran.append("main")
        try:
            org = pulumi.get_organization()
        except Exception as e:  # noqa
            org = None
        self.what = dict(
            project=pulumi.get_project(), stack=pulumi.get_stack(), organization=org, dry=pulumi.runtime.is_dry_run(),
            parallel=settings.SETTINGS.parallel, config={k: pulumi.runtime.get_config(k) for k in KEYS},
            secrets=[k for k in KEYS if is_config_secret(k)], monitor=settings.SETTINGS.monitor, engine=settings.SETTINGS.engine, name=name, file=file,
            argv=list(sys.argv), cwd=os.getcwd())
        if self.monitored:
            import asyncio

            self.loop = asyncio.get_event_loop()
            r = pulumi.CustomResource("pkg:mod:Typ", "res", {"p": "p"})

            def cb(urn):
                self.ran.append("callback")
                if self.end == "callback":
                    raise ValueError("gone wrong")
                return urn

            pulumi.export("out", r.urn.apply(cb))
            if self.end == "awaitable":
                pulumi.export("late", fut(self.loop, exc=ValueError("gone wrong"), ext=True))
            if self.end == "export":
                pulumi.export("bad", Unsendable())
        if self.end == "raise":
            raise ValueError("gone wrong")
        if self.end == "key-error":
            raise KeyError("gone wrong")
        if self.end == "assert":
            assert False, "gone wrong"
        if self.end == "run-error":
            raise pulumi.RunError("gone wrong")
        if self.end == "rpc-error":
            raise rpc_error("UNKNOWN", "gone wrong")
        if self.end == "exit-0":
            sys.exit(0)
        if self.end == "exit-3":
            sys.exit(3)

    def register(self, req):
        if self.end == "rpc" and req.type != "pulumi:pulumi:Stack":
            raise rpc_error("UNKNOWN", "gone wrong")
        return register_response(req, urn="urn:pulumi:s::p::%s::%s" % (req.type, "stack" if req.type == "pulumi:pulumi:Stack" else req.name))

    def outputs(self, req):
        if self.end == "rpc-outputs":
            raise rpc_error("UNKNOWN", "gone wrong")
        return _empty()

    def go(self, path, scratch):
        import builtins
        import io

        self.mon, self.eng = basic_monitor(), Monitor()
        self.mon.on["RegisterResource"] = self.register
        self.mon.on["RegisterResourceOutputs"] = self.outputs
        self.eng.on["Log"] = lambda r: (self.logs.append((r.severity, r.message)), _empty())[1]
        self.eng.on["SetRootResource"] = lambda r: None
        w = self.world = World(self.sx)
        w.at["monitor", "the-monitor"] = self.mon
        w.at["engine", "the-engine"] = self.eng
        parse = argparse.ArgumentParser.parse_args
        words = self.words

        def parse_args(ap, *a, **kw):
            r = parse(ap, *a, **kw)
            for k, v in list(vars(r).items()):
                if isinstance(v, list):
                    setattr(r, k, [words.get(x, x) for x in v])
                else:
                    setattr(r, k, words.get(v, v))
            return r

        out = io.StringIO()
        cwd = os.getcwd()
        limit = []

        def main():
            try:
                execute(path)
            except SystemExit as e:
                self.code = e.code
            except Exception as e:  # noqa
                if type(e).__name__ == "EngineLimit":
                    limit.append(e)
                self.exc = e

        builtins.symx_program = self.program
        try:
            os.chdir(scratch)
            with w.installed(), replaced(argparse.ArgumentParser, "parse_args", parse_args), replaced(sys, "argv", ["x"] + self.argv), \
                    contextlib.redirect_stderr(out), contextlib.redirect_stdout(out), environ(**self.env):
                contextvars.copy_context().run(main)
        finally:
            os.chdir(cwd)
            del builtins.symx_program
        if limit:
            raise limit[0]
        self.printed = out.getvalue()

    def judge(self, launcher):
        sx = self.sx
        sx.check(not any(l.hung for l in self.world.loops), "the-launcher-ends")
        sx.check(self.exc is None, "the-launcher-ends-with-an-exit-code", lambda: repr(self.exc))
        fails = self.end in FAILS
        if self.end == "syntax":
            sx.check(not self.ran, "nothing-else-runs")
        else:
            sx.check(self.ran[:1] == ["main"], "the-program-runs")
        errors = [m for s, m in self.logs if s == 3]
        if self.end in EXITS:
            sx.check(self.code == int(self.end[-1]), "the-exit-code-of-a-program-stands", lambda: self.code)
        elif fails:
            sx.check(self.code not in (0, None), "failed-programs-end-with-a-failure", lambda: (self.end, self.code))
            told = errors if self.engined else [self.printed]
            sx.check(len(told) == 1, "failures-are-reported-once", lambda: (self.end, told))
            why = {"syntax": "SyntaxError", "export": ""}.get(self.end, "gone wrong")
            sx.check(all(why in t and t for t in told), "failures-are-reported-with-their-reason", lambda: (self.end, told))
            if launcher:
                # 32 tells the language host that the user has seen why.
                sx.check(self.code == (1 if self.end == "run-error" else 32), "the-host-knows-that-the-failure-was-shown", lambda: (self.end, self.code))
        else:
            sx.check(self.code == 0, "programs-that-succeed-end-with-success", lambda: (self.code, errors, self.printed))
            sx.check(not errors, "programs-that-succeed-report-no-failure", lambda: errors)
            if self.monitored:
                sx.check(self.ran == ["main", "callback"], "all-of-the-program-runs", lambda: self.ran)
                outs = self.mon.sent("RegisterResourceOutputs")
                sx.check(len(outs) == 1 and plain(outs[0].outputs) == {"out": "urn:pulumi:s::p::pkg:mod:Typ::res"}, "exports-are-registered",
                         lambda: [plain(o.outputs) for o in outs])
        if self.ran:
            s = self.what
            for k, v in self.settings.items():
                got = s[k]
                sx.check((got is None) == (v is None) and (v is None or sx.eq(got, v)), "the-program-sees-its-settings", lambda: (k, got, v))
            for k in KEYS:
                sx.check(s["config"][k] == self.config.get(k), "the-program-sees-its-configuration", lambda: (k, s["config"]))
            if launcher:
                sx.check(s["secrets"] == self.secrets, "the-program-knows-which-values-are-secret", lambda: (s["secrets"], self.secrets))
                sx.check(len(s["argv"]) == 1 + len(self.args) and sx.and_(*[sx.eq(a, b) for a, b in zip(s["argv"][1:], self.args)]),
                         "the-program-sees-its-arguments", lambda: s["argv"])
                sx.check(s["argv"][0] == self.argv[-1 - len(self.args)], "the-program-sees-its-name", lambda: s["argv"])
                sx.check((s["monitor"] is self.mon) == self.monitored and (s["engine"] is self.eng) == self.engined, "the-program-reaches-its-engine")
            sx.check(s["name"] == "__main__", "the-program-is-the-main-module")
            sx.check(os.path.realpath(s["cwd"]) == os.path.realpath(self.cwd), "the-program-runs-where-it-should", lambda: s["cwd"])
        for l in self.world.loops:
            sx.check(l.is_closed(), "nothing-is-left-running")


KEYS = ("proj:a", "b:c")


def launched(sx, ends, symbolic, options):
    end = sx.choice("end", ends)
    with Scratch() as d:
        l = Launch(sx, end)
        os.mkdir(os.path.join(d, "work"))
        where = sx.choice("pwd", ("", "work")) if options else ""
        l.cwd = os.path.join(d, where)
        with open(os.path.join(l.cwd, "main.py"), "w") as f:
            f.write(PROGRAM if end != "syntax" else "import builtins\nx = = 1\n")
        text = (lambda n: l.word("w" + n, sx.str(n, 3))) if symbolic else (lambda n: l.word("w" + n, "v" + n))
        for o in ("project", "stack", "organization"):
            if o != "organization" or sx.choice("organization-given", 2):
                l.argv += ["--" + o, text(o)]
                l.settings[o] = l.words["w" + o]
        l.argv += ["--parallel", "4"]
        if symbolic:
            dry = sx.str("dry", 5, 1, chars="truefals")
            l.argv += ["--dry_run", l.word("wdry", dry)]
            l.settings["dry"] = sx.eq(dry, "true")
        elif options and sx.choice("dry-given", 2):
            l.argv += ["--dry_run", "true"]
            l.settings["dry"] = True
        if not options or sx.choice("monitor-given", 2):
            l.argv += ["--monitor", "the-monitor"]
            l.monitored = True
        if not options or sx.choice("engine-given", 2):
            l.argv += ["--engine", "the-engine"]
            l.engined = True
        if where:
            l.argv += ["--pwd", where]
        l.argv.append("main.py" if not options or sx.choice("relative", 2) else os.path.join(l.cwd, "main.py"))
        if options:
            for i in range(sx.choice("args", 2)):
                l.argv.append(l.word("warg%d" % i, sx.str("arg%d" % i, 2)))
                l.args.append(l.words["warg%d" % i])
            k = sx.choice("config", 4)
            if k:
                l.config = [{}, {"proj:a": "1"}, {"proj:a": "1", "b:c": "{\"x\": 2}"}][k - 1]
                l.env["PULUMI_CONFIG"] = json.dumps(l.config)
                s = sx.choice("secrets", (None, [], ["b:c"], ["proj:a", "b:c"]))
                if s is not None:
                    l.env["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps(s)
                    l.secrets = s
        if not l.monitored and end in ("", "rpc", "rpc-outputs", "callback", "awaitable", "export"):
            return  # nothing can be declared
        l.go(LAUNCHER, d)
        l.judge(True)


def policies(sx, ends):
    """The same for policy packs, which have no monitor."""
    end = sx.choice("end", ends)
    with Scratch() as d:
        l = Launch(sx, end)
        l.cwd = d
        with open(os.path.join(d, "main.py"), "w") as f:
            f.write(PROGRAM if end != "syntax" else "import builtins\nx = = 1\n")
        l.argv = ["the-engine", "main.py"]
        few = sx.choice("arguments", 3)
        l.argv = l.argv[:few]
        l.settings = {}
        if sx.choice("settings", 2):
            dry = sx.str("dry", 5, 1, chars="truefals")
            l.settings = dict(project=sx.str("project", 3), stack=sx.str("stack", 3), dry=sx.eq(dry, "true"))
            l.env.update(PULUMI_PROJECT=l.settings["project"], PULUMI_STACK=l.settings["stack"], PULUMI_DRY_RUN=dry)
            if sx.choice("organization-given", 2):
                l.settings["organization"] = l.env["PULUMI_ORGANIZATION"] = sx.str("organization", 3)
        k = sx.choice("config", 3)
        if k:
            l.config = [{"proj:a": "1"}, {"proj:a": "1", "b:c": "{\"x\": 2}"}][k - 1]
            l.env["PULUMI_CONFIG"] = json.dumps(l.config)
        l.go(POLICY, d)
        if few < 2:
            sx.check(l.exc is None and l.code == 1 and not l.ran and "usage" in l.printed, "missing-arguments-are-an-error", lambda: (l.exc, l.code, l.printed))
            return
        l.judge(False)


ENDS = ("",) + FAILS + EXITS
CELLS = [
    Cell("settings", launched, dict(ends=("",), symbolic=True, options=False)),
    Cell("options", launched, dict(ends=("", "exit-0"), symbolic=False, options=True)),
    Cell("endings", launched, dict(ends=ENDS, symbolic=False, options=False)),
    Cell("endings-with-options", launched, dict(ends=ENDS, symbolic=False, options=True), ("thorough",)),
    Cell("policies", policies, dict(ends=("", "raise", "key-error", "assert", "run-error", "exit-3", "syntax"))),
]
