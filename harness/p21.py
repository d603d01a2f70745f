"""Project and stack settings survive saving and loading."""
import contextlib
import json
import os

from . import cli as C
from .lib import *
from .p19 import World, text


def types():
    from pulumi.automation import _project_settings as p, _stack_settings as s

    return p.ProjectRuntimeInfo, p.ProjectTemplateConfigValue, p.ProjectTemplate, p.ProjectBackend, s.StackSettingsSecureConfigValue

ANCHORS = ("pulumi.automation._local_workspace.LocalWorkspace", "pulumi.automation._local_workspace._load_project_settings",
           "pulumi.automation._local_workspace.get_stack_settings_name", "pulumi.automation._project_settings.",
           "pulumi.automation._stack_settings.")
BOUNDS = ("every combination of optional settings with symbolic texts <= 3 and numbers; templates, back ends and run-time options; "
          "configuration of up to three values of every kind, plain or secure; stack names of up to three parts; no file or an existing file of "
          "each kind beforehand; up to three saves")
OUTSIDE = "YAML and JSON text (the real libraries are used in replays, plain data is handed over symbolically), comments in files, run times the SDK refuses"


class Tagged:
    pass


def plain_data(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain_data(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(plain_data(x) for x in v)
    return v is None or isinstance(v, (str, int, float, bool))


class Formats:
    """Stands for the YAML and JSON libraries: files hold tokens for plain data."""

    def __init__(self, sx):
        self.sx, self.values = sx, {}

    @contextlib.contextmanager
    def installed(self):
        import yaml

        if not self.sx.symbolic:
            yield self
            return
        names = {yaml: ["dump", "safe_dump", "safe_load", "load"], json: ["dump", "dumps", "load", "loads"]}
        saved = {(m, n): getattr(m, n) for m in names for n in names[m]}

        def put(kind, v):
            if not plain_data(v):
                if kind == "json":
                    raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)
                v = Tagged
            k = '{"%s": %d}' % (kind, len(self.values))
            self.values[k] = copied(v)
            return k

        def get(kind, t):
            if not isinstance(t, str):
                t = t.read()
            if t == "" and kind == "yaml":
                return None
            if t not in self.values or (kind == "json" and "yaml" in t):
                return saved[(json, "loads")](t)
            v = self.values[t]
            if v is Tagged:
                raise yaml.constructor.ConstructorError(None, None, "could not determine a constructor for the tag")
            return copied(v)

        def dump_yaml(v, stream=None, *a, **k):
            t = put("yaml", v)
            return t if stream is None else stream.write(t)

        yaml.dump = yaml.safe_dump = dump_yaml
        yaml.safe_load = yaml.load = lambda t, *a, **k: get("yaml", t)
        json.dump = lambda v, f, *a, **k: f.write(put("json", v))
        json.dumps = lambda v, *a, **k: put("json", v)
        json.load = lambda f, *a, **k: get("json", f)
        json.loads = lambda t, *a, **k: get("json", t)
        try:
            yield self
        finally:
            for (m, n), f in saved.items():
                setattr(m, n, f)


def copied(v):
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    return [copied(x) for x in v] if isinstance(v, (list, tuple)) else v


def write(path, value):
    import yaml

    with open(path, "w", encoding="utf-8") as f:
        if path.endswith(".json"):
            json.dump(value, f)
        else:
            yaml.dump(value, f)


def read(path):
    import yaml

    with open(path, "r", encoding="utf-8") as f:
        return json.load(f) if path.endswith(".json") else yaml.safe_load(f)


def norm(v):
    """Leaves out what is not set."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            x = norm(x)
            if x is not None and x is not False and not (isinstance(x, dict) and not x):
                out[k] = x
        return out
    return v


OPTIONAL = ["main", "description", "author", "website", "license", "config"]


def pick(sx, nm, names):
    """All of the names, none, any one of them, or all but one."""
    k = sx.choice(nm, ["all", "none", "one", "but"])
    if k in ("one", "but"):
        n = sx.choice(nm + "which", names)
        return [n] if k == "one" else [x for x in names if x != n]
    return names if k == "all" else []


def project(sx, nm="", full=True):
    """Settings made by the user, and what the file then says."""
    from pulumi import automation as auto

    ProjectRuntimeInfo, ProjectTemplateConfigValue, ProjectTemplate, ProjectBackend, _ = types()
    kw, data = {}, {}
    for n in pick(sx, nm + "fields", OPTIONAL) if full else OPTIONAL[:sx.choice(nm + "fields", [6, 0])]:
        kw[n] = data[n] = text(sx, nm + n)
    rt = sx.choice(nm + "runtime", ["name", "info", "options"])
    if rt == "name":
        kw["runtime"] = data["runtime"] = sx.choice(nm + "language", ["python", "go", "nodejs", "dotnet"])
    elif rt == "info":
        kw["runtime"], data["runtime"] = ProjectRuntimeInfo("python"), {"name": "python"}
    else:
        o = {"virtualenv": text(sx, nm + "venv"), "nested": {"none": None, "n": [sx.int(nm + "n", 0, 9)]}, "off": False}
        kw["runtime"], data["runtime"] = ProjectRuntimeInfo("python", copied(o)), {"name": "python", "options": o}
    tp = sx.choice(nm + "template", ["none", "empty", "full", "some"])
    if tp == "empty":
        kw["template"], data["template"] = ProjectTemplate(), {}
    elif tp != "none":
        d, q = text(sx, nm + "tdesc"), text(sx, nm + "quick")
        cd, cv, sec = text(sx, nm + "cdesc"), text(sx, nm + "cdefault", 3, 0), sx.concrete(sx.bool(nm + "csecret"))
        if tp == "full":
            cfg = {"a:b": ProjectTemplateConfigValue(cd, cv, sec), "c": ProjectTemplateConfigValue(secret=True)}
            kw["template"] = ProjectTemplate(d, q, cfg, sx.concrete(sx.bool(nm + "important")))
            data["template"] = {"description": d, "quickstart": q, "config": {"a:b": {"description": cd, "default": cv, "secret": sec},
                                                                             "c": {"secret": True}}, "important": kw["template"].important}
        else:
            kw["template"] = ProjectTemplate(description=d, config={"c": ProjectTemplateConfigValue(default=cv)})
            data["template"] = {"description": d, "config": {"c": {"default": cv}}}
    be = sx.choice(nm + "backend", ["none", "url", "empty"])
    if be != "none":
        u = text(sx, nm + "url") if be == "url" else None
        kw["backend"], data["backend"] = ProjectBackend(u), {"url": u}
    kw["name"] = data["name"] = text(sx, nm + "name")
    return auto.ProjectSettings(**kw), data


def check_project(sx, got, data, label):
    ProjectRuntimeInfo, ProjectTemplateConfigValue, ProjectTemplate, ProjectBackend, _ = types()
    for n in ["name"] + OPTIONAL:
        sx.check(sx.eq(getattr(got, n), data.get(n)), label, lambda: (n, getattr(got, n), data))  # noqa: B023
    rt = data["runtime"]
    if isinstance(rt, dict):
        sx.check(isinstance(got.runtime, ProjectRuntimeInfo), label, lambda: got.runtime)
        if isinstance(got.runtime, ProjectRuntimeInfo):
            sx.check(sx.and_(sx.eq(got.runtime.name, rt["name"]), sx.eq(got.runtime.options, rt.get("options"))), label, lambda: vars(got.runtime))
    else:
        sx.check(got.runtime == rt, label, lambda: got.runtime)
    t = data.get("template")
    if t is None:
        sx.check(got.template is None, label)
    else:
        sx.check(isinstance(got.template, ProjectTemplate), label, lambda: got.template)
        if isinstance(got.template, ProjectTemplate):
            for n in ["description", "quickstart", "important"]:
                sx.check(sx.eq(getattr(got.template, n), t.get(n)), label, lambda: (n, vars(got.template)))  # noqa: B023
            cfg = t.get("config", {})
            sx.check(sorted(got.template.config) == sorted(cfg), label, lambda: got.template.config)
            for k in cfg:
                c = got.template.config[k]
                sx.check(isinstance(c, ProjectTemplateConfigValue), label, lambda: c)  # noqa: B023
                if isinstance(c, ProjectTemplateConfigValue):
                    sx.check(sx.and_(sx.eq(c.description, cfg[k].get("description")), sx.eq(c.default, cfg[k].get("default")),
                                     c.secret == cfg[k].get("secret", False)), label, lambda: vars(c))  # noqa: B023
    b = data.get("backend")
    if b is None:
        sx.check(got.backend is None, label)
    else:
        sx.check(isinstance(got.backend, ProjectBackend), label, lambda: got.backend)
        if isinstance(got.backend, ProjectBackend):
            sx.check(sx.eq(got.backend.url, b.get("url")), label, lambda: vars(got.backend))


def projects(sx):
    """What is saved is what the CLI reads, and what is loaded."""
    from pulumi import automation as auto

    before = sx.choice("before", [None, ".yaml", ".yml", ".json"])
    how = sx.choice("how", ["save", "construct", "twice"])
    with Scratch() as d, Formats(sx).installed():
        if before:
            write(os.path.join(d, "Pulumi" + before), {"name": "old", "runtime": "go", "description": "old", "license": "old"})
        settings, data = project(sx, full=before is None and how == "save")
        w = World(sx, d)
        with w.cli.installed():
            if how == "construct":
                ws = auto.LocalWorkspace(work_dir=d, project_settings=settings)
            else:
                ws = auto.LocalWorkspace(work_dir=d)
                if how == "twice":
                    ws.save_project_settings(auto.ProjectSettings("first", "go", description="first", website="first", template=types()[2]()))
                ws.save_project_settings(settings)
            sx.check(os.listdir(d) == ["Pulumi" + (before or ".yaml")], "saved-in-place", lambda: os.listdir(d))
            raw = None
            try:
                raw = read(os.path.join(d, "Pulumi" + (before or ".yaml")))
            except Exception as e:  # noqa
                sx.check(False, "file-readable", lambda: e)  # noqa: B023
            sx.check(raw is None or sx.eq(norm(raw), norm(data)), "saved-as-the-cli-reads", lambda: (raw, data))
            check_project(sx, settings, data, "own-settings-untouched")
            check_project(sx, ws.project_settings(), data, "loaded-as-saved")
            sx.check(w.cli.calls == [], "runs-no-command")


def loading(sx):
    """Files written for the CLI are read, and keep what the SDK does not know."""
    from pulumi import automation as auto

    ext = sx.choice("ext", [".yaml", ".yml", ".json"])
    extra = pick(sx, "extra", ["options", "plugins", "stackConfigDir"])
    with Scratch() as d, Formats(sx).installed():
        data = {"name": text(sx, "name"), "runtime": sx.choice("runtime", ["go", {"name": "nodejs", "options": {"typescript": False}}])}
        for n in pick(sx, "fields", ["main", "description", "config"]):
            data[n] = text(sx, n)
        if sx.choice("template", [True, False]):
            data["template"] = {"description": text(sx, "t"), "config": {"k": {"default": text(sx, "def"), "secret": sx.concrete(sx.bool("sec"))}}}
        if sx.choice("backend", [True, False]):
            data["backend"] = {"url": text(sx, "url")}
        if "options" in extra:
            data["options"] = {"refresh": "always"}
        if "plugins" in extra:
            data["plugins"] = {"providers": [{"name": "p", "path": text(sx, "path")}]}
        if "stackConfigDir" in extra:
            data["stackConfigDir"] = text(sx, "dir")
        write(os.path.join(d, "Pulumi" + ext), data)
        w = World(sx, d)
        with w.cli.installed():
            ws = auto.LocalWorkspace(work_dir=d)
            got = ws.project_settings()
            check_project(sx, got, data, "loaded-as-written")
            new = text(sx, "new")
            got.description = data["description"] = new
            ws.save_project_settings(got)
        raw = read(os.path.join(d, "Pulumi" + ext))
        sx.check(sx.eq(norm(raw), norm(data)), "rest-is-kept", lambda: (raw, data))


def stack_config(sx, nm, n):
    """Configuration made by the user, what the file says, and the values themselves."""
    StackSettingsSecureConfigValue = types()[-1]

    cfg, data = {}, {}
    for i in range(n):
        kind = sx.choice(nm + "kind%d" % i, ["text", "secure", "number", "flag", "list", "map", "like-secure", "null"])
        v = {"text": lambda: text(sx, nm + "v%d" % i, 3, 0), "secure": lambda: text(sx, nm + "v%d" % i), "number": lambda: sx.int(nm + "n%d" % i, -9, 9),  # noqa
             "flag": lambda: sx.concrete(sx.bool(nm + "f%d" % i)), "list": lambda: ["secure", text(sx, nm + "v%d" % i)],  # noqa
             "map": lambda: {"a": {"secure": text(sx, nm + "v%d" % i)}, "b": 1.5}, "like-secure": lambda: {"secure": "x", "b": text(sx, nm + "v%d" % i)},  # noqa
             "null": lambda: None}[kind]()
        k = "p:k%d" % i
        if kind == "secure":
            cfg[k], data[k] = StackSettingsSecureConfigValue(v), {"secure": v}
        else:
            cfg[k], data[k] = copied(v), v
    return cfg, data


def stack(sx, nm="", most=3):
    from pulumi import automation as auto

    kw, data = {}, {}
    for n, f in [("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt")]:
        if sx.choice(nm + n, [True, False]):
            kw[n] = data[f] = text(sx, nm + f)
    n = sx.choice(nm + "n", [None] + list(range(most, 0, -1)))
    if n is not None:
        kw["config"], data["config"] = stack_config(sx, nm, n)
    return auto.StackSettings(**kw), data


def check_stack(sx, got, data, label):
    StackSettingsSecureConfigValue = types()[-1]

    for n, f in [("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt")]:
        sx.check(sx.eq(getattr(got, n), data.get(f)), label, lambda: (n, vars(got), data))  # noqa: B023
    want = data.get("config")
    if not want:
        sx.check(not got.config, label, lambda: got.config)
        return
    sx.check(got.config is not None and list(got.config) == list(want), label, lambda: (got.config, want))
    for k in want:
        g, x = got.config[k], want[k]
        if isinstance(x, dict) and list(x) == ["secure"]:
            sx.check(isinstance(g, StackSettingsSecureConfigValue) and sx.eq(g.secure, x["secure"]), label, lambda: (k, g, x))  # noqa: B023
        else:
            sx.check(not isinstance(g, StackSettingsSecureConfigValue) and type(g) is type(x) and sx.eq(g, x), label, lambda: (k, g, x))  # noqa


NAMES = ["dev", "org/dev", "org/proj/dev"]


def stacks(sx, most):
    from pulumi import automation as auto

    before = sx.choice("before", [None, ".yaml", ".yml", ".json"])
    how = sx.choice("how", ["save", "construct", "twice", "other"])
    name, again = sx.choice("name", NAMES), sx.choice("again", NAMES[:2])
    file = "Pulumi.dev" + (before or ".yaml")
    with Scratch() as d, Formats(sx).installed():
        if before:
            write(os.path.join(d, file), {"encryptionsalt": "old", "secretsprovider": "old", "config": {"p:old": "old"}})
        settings, data = stack(sx, most=most)
        w = World(sx, d)
        with w.cli.installed():
            if how == "construct":
                ws = auto.LocalWorkspace(work_dir=d, stack_settings={name: settings})
            else:
                ws = auto.LocalWorkspace(work_dir=d)
                if how == "twice":
                    ws.save_stack_settings(name, auto.StackSettings("first", "first", "first", {"p:first": "first"}))
                ws.save_stack_settings(name, settings)
                if how == "other":
                    ws.save_stack_settings("dev2", auto.StackSettings("second", config={"p:k0": "second"}))
                    sx.check(ws.stack_settings("dev2").secrets_provider == "second", "loaded-as-saved")
            sx.check(sorted(os.listdir(d)) == [file] + (["Pulumi.dev2.yaml"] if how == "other" else []), "saved-in-place", lambda: os.listdir(d))
            raw = None
            try:
                raw = read(os.path.join(d, file))
            except Exception as e:  # noqa
                sx.check(False, "file-readable", lambda: e)  # noqa: B023
            sx.check(raw is None or sx.eq({k: v for k, v in raw.items() if k != "config" or v}, data), "saved-as-the-cli-reads", lambda: (raw, data))
            check_stack(sx, settings, data, "own-settings-untouched")
            check_stack(sx, ws.stack_settings(again), data, "loaded-as-saved")
            sx.check(w.cli.calls == [], "runs-no-command")


def several(sx):
    """Settings in several formats side by side: what is loaded is what was saved last, and no other file changes."""
    from pulumi import automation as auto

    what = sx.choice("what", ["project", "stack"])
    exts = [e for e in [".yaml", ".yml", ".json"] if sx.choice("has" + e, [True, False])]
    base = "Pulumi" if what == "project" else "Pulumi.dev"
    with Scratch() as d, Formats(sx).installed():
        for e in exts:
            write(os.path.join(d, base + e), {"name": "old" + e, "runtime": "go"} if what == "project" else {"secretsprovider": "old" + e})
        w = World(sx, d)
        with w.cli.installed():
            ws = auto.LocalWorkspace(work_dir=d)
            if exts:
                first = ws.project_settings().name if what == "project" else ws.stack_settings("dev").secrets_provider
                sx.check(first == "old" + exts[0], "loaded-as-written", lambda: first)
            new = text(sx, "new")
            if what == "project":
                ws.save_project_settings(auto.ProjectSettings(new, "python"))
                got = ws.project_settings().name
            else:
                ws.save_stack_settings("dev", auto.StackSettings(secrets_provider=new))
                got = ws.stack_settings("dev").secrets_provider
        sx.check(sx.eq(got, new), "loaded-as-saved", lambda: (got, new))
        sx.check(sorted(os.listdir(d)) == sorted(base + e for e in exts or [".yaml"]), "saved-in-place", lambda: os.listdir(d))
        for e in exts[1:]:
            raw = read(os.path.join(d, base + e))
            sx.check(raw.get("name", raw.get("secretsprovider")) == "old" + e, "other-files-untouched", lambda: raw)  # noqa: B023


def missing(sx):
    """What was never saved is reported missing; an empty file says nothing."""
    from pulumi import automation as auto

    what = sx.choice("what", ["project", "stack", "empty-stack", "other-stack"])
    with Scratch() as d:
        w = World(sx, d)
        ext = sx.choice("ext", [".yaml", ".yml"])
        if what == "empty-stack":
            open(os.path.join(d, "Pulumi.dev" + ext), "w").close()
        elif what == "other-stack":
            with open(os.path.join(d, "Pulumi.dev2" + ext), "w") as f:
                f.write("config: {}\n")
        with w.cli.installed():
            ws = auto.LocalWorkspace(work_dir=d)
            err = r = None
            try:
                r = ws.project_settings() if what == "project" else ws.stack_settings("dev")
            except FileNotFoundError as e:
                err = e
        if what == "empty-stack":
            check_stack(sx, r, {}, "loaded-as-written")
        else:
            sx.check(err is not None, "missing-reported", lambda: r)


CELLS = [
    Cell("projects", projects, weight=3),
    Cell("loading", loading),
    Cell("stacks", stacks, dict(most=1), weight=2),
    Cell("stacks-more", stacks, dict(most=2), tiers=("thorough",), weight=4),
    Cell("several", several),
    Cell("missing", missing),
]
