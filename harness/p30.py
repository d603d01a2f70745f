"""Malformed declarations are refused and register nothing."""
import os

from .lib import *

ANCHORS = ("pulumi.resource.Resource.__init__", "pulumi.resource.ResourceOptions", "pulumi.resource.ProviderResource",
           "pulumi.asset.", "pulumi.output.Output.all", "pulumi.runtime.stack.Stack.__init__", "pulumi.resource.export",
           "pulumi.runtime.stack.register_stack_transformation", "pulumi.urn._parse_urn")
BOUNDS = ("one malformed declaration out of 24 kinds (type, name, options, parent, dependencies, provider, timeouts, id, "
          "transformation, inputs, each wrong in one way; names and types also as symbolic strings) of a custom, component, remote "
          "or provider resource, inside a program with a parent component, a resource before and one after that depends on the "
          "parent; the program catching the error or not; symbolic preview flag; 14 kinds of malformed values, assets and calls, "
          "texts symbolic; all completion orders of up to 4 futures")
OUTSIDE = "declarations wrong in several ways; wrongly typed options the engine checks itself"

KINDS = ["custom", "component", "remote", "provider"]


def mistakes(loop, kind, bad):
    """-> (type, name, props, opts) and whether the declaration itself can be refused (not only its registration)"""
    import pulumi

    U = "urn:pulumi:stack::project::pulumi:providers:%s::%s"
    R = pulumi.ResourceOptions
    typ, name, props, opts = "pkg:mod:Typ", "bad", {}, R
    kw = {}
    if bad == "type-none":
        typ = None
    elif bad == "type-number":
        typ = 3
    elif bad == "name-none":
        name = None
    elif bad == "name-number":
        name = 7
    elif bad == "name-output":
        name = mk_output(loop, "bad", True, False, [])
    elif bad == "opts-dict":
        opts = dict
    elif bad == "opts-text":
        opts = lambda **k: "opts"  # noqa
    elif bad == "opts-invoke":
        opts = pulumi.InvokeOptions
    elif bad == "parent-text":
        kw["parent"] = "urn:p"
    elif bad == "parent-output":
        kw["parent"] = mk_output(loop, "urn:p", True, False, [])
    elif bad == "parent-options":
        kw["parent"] = R()
    elif bad == "depends-text":
        kw["depends_on"] = "a"
    elif bad == "depends-list":
        kw["depends_on"] = [mk_resource(loop, "urn:x", True, "x"), "a"]
    elif bad == "depends-urn":
        kw["depends_on"] = [mk_resource(loop, "urn:x", True, "x").urn]
    elif bad == "depends-later":
        kw["depends_on"] = fut(loop, ["a"])
    elif bad == "timeouts-text":
        kw["custom_timeouts"] = "5m"
    elif bad == "timeouts-list":
        kw["custom_timeouts"] = ["5m"]
    elif bad == "provider-other":
        kw["provider"] = mk_provider(loop, U % ("other", "o"), "o", "other")
    elif bad == "provider-given":
        kw["provider"] = mk_provider(loop, U % ("pkg", "o"), "o", "pkg")
    elif bad == "id-given":
        kw["id"] = "existing"
    elif bad == "moved":
        kw["transformations"] = [lambda a: pulumi.ResourceTransformationResult(
            a.props, R(parent=mk_resource(loop, "urn:other", False)))]
    elif bad == "unparented":
        kw["transformations"] = [lambda a: pulumi.ResourceTransformationResult(a.props, R(protect=True))]
    elif bad == "input":
        props = {"x": ["y", object()]}
    elif bad == "inputs-failed":
        props = {"x": mk_output(loop, "v", True, False, [], exc=Boom("input"))}
    return typ, name, props, opts, kw


BAD = {"type-none": "custom component remote", "type-number": "custom component remote", "name-none": "*", "name-number": "*",
       "name-output": "*", "opts-dict": "custom component remote", "opts-text": "custom component remote",
       "opts-invoke": "custom component remote", "parent-text": "*", "parent-output": "*", "parent-options": "*",
       "depends-text": "*", "depends-list": "*", "depends-urn": "*", "depends-later": "*", "timeouts-text": "*",
       "timeouts-list": "*", "provider-other": "custom", "provider-given": "provider", "id-given": "component remote", "moved": "*", "unparented": "*",
       "input": "*", "inputs-failed": "*"}
# these are only noticed when the registration is prepared
LATE = ("depends-later", "depends-urn", "timeouts-text", "timeouts-list", "input", "inputs-failed")


def declare(kind, typ, name, props, opts):
    import pulumi

    if kind == "custom":
        return pulumi.CustomResource(typ, name, props, opts)
    if kind == "provider":
        return pulumi.ProviderResource("pkg", name, props, opts)
    return pulumi.ComponentResource(typ, name, props, opts, kind == "remote")


class Program:
    """p; a (child of p); the declaration in question; z (depends on p)."""

    def __init__(self, sx, preempt=0):
        from pulumi.runtime.stack import run_in_stack

        self.sx, self.run_in_stack = sx, run_in_stack
        self.mon = basic_monitor()
        configure(dry_run=sx.concrete(sx.bool("dry_run")), monitor=self.mon)
        self.refused = self.late = self.made = None

    async def run(self, make, caught):
        import pulumi

        def f():
            p = pulumi.ComponentResource("pkg:mod:P", "p")
            pulumi.CustomResource("pkg:mod:Typ", "a", {}, pulumi.ResourceOptions(parent=p))
            if caught:
                try:
                    self.made = make(p)
                except Exception as e:  # noqa
                    self.refused = e
            else:
                self.made = make(p)
            pulumi.CustomResource("pkg:mod:Typ", "z", {}, pulumi.ResourceOptions(depends_on=[p]))

        self.err = None
        try:
            await self.run_in_stack(f)
        except Exception as e:  # noqa
            self.err = e

    def names(self):
        return [q.name for q in self.mon.sent("RegisterResource")] + [q.name for q in self.mon.sent("ReadResource")]

    def req(self, name):
        return [q for q in self.mon.sent("RegisterResource") if q.name == name]


def resources(sx, kinds, bads, preempt=0):
    import pulumi

    kind = sx.choice("kind", kinds)
    bad = sx.choice("bad", [b for b in bads if BAD[b] == "*" or kind in BAD[b].split()])
    caught = sx.choice("caught", [False, True])
    w = Program(sx)

    async def main(loop):
        def make(p):
            typ, name, props, opts, kw = mistakes(loop, kind, bad)
            if "parent" not in kw:
                kw["parent"] = p
            return declare(kind, typ, name, props, opts(**kw))

        await w.run(make, caught)
        names = w.names()
        sx.check(all(n in ("p", "a", "z", "project-stack") for n in names), "malformed-is-not-sent", lambda: names)
        if bad in LATE:
            sx.check(w.err is not None, "malformed-is-reported", lambda: (kind, bad))
        elif caught and bad == "parent-output":
            # its attributes are looked up once its value is there: refused at once or then
            sx.check(w.made is None and (w.refused or w.err) is not None, "malformed-is-reported", lambda: (kind, bad))
        elif caught:
            sx.check(w.refused is not None and w.made is None, "malformed-is-reported", lambda: (kind, bad))
            sx.check(w.err is None, "refused-leaves-nothing-behind", lambda: repr(w.err))
            z = w.req("z")
            ok = len(z) == 1 and len(w.req("a")) == 1 and len(w.req("p")) == 1
            sx.check(ok, "others-registered", lambda: names)
            if not ok:
                return
            a = urn_of(w.req("a")[0])
            sx.check(list(z[0].dependencies) == [a], "refused-leaves-nothing-behind", lambda: z)
        else:
            sx.check(w.err is not None, "malformed-is-reported", lambda: (kind, bad))
            sx.check("z" not in names, "stops-there", lambda: names)

    run(sx, main, preempt=preempt)


def texts(sx, which):
    """Names and types are refused exactly when they are empty."""
    kind = sx.choice("kind", ["custom", "component", "remote"])
    s = sx.str("s", 3, chars="bB:$-_ .0\u00e9")
    caught = sx.choice("caught", [False, True])
    w = Program(sx)

    async def main(loop):
        import pulumi

        typ, name = ("pkg:mod:Typ", s) if which == "name" else (s, "good")
        await w.run(lambda p: declare(kind, typ, name, {}, pulumi.ResourceOptions(parent=p)), caught)
        reqs = [q for q in w.mon.sent("RegisterResource") if not (type(q.name) is str and q.name in ("p", "a", "z", "project-stack"))]
        empty = sx.concrete(sx.eq(s, ""))
        if empty:
            sx.check(not reqs, "malformed-is-not-sent", lambda: reqs)
            sx.check((w.refused if caught else w.err) is not None, "malformed-is-reported", lambda: (w.refused, w.err))
        else:
            sx.check(w.err is None and w.refused is None, "well-formed-is-accepted", lambda: (w.refused, w.err))
            sx.check(len(reqs) == 1, "well-formed-is-sent", lambda: reqs)
            sx.check(sx.and_(sx.eq(reqs[0].type, typ), sx.eq(reqs[0].name, name)), "well-formed-is-sent", lambda: reqs)

    run(sx, main, fifo=True)


def values(sx):
    """Values, assets and calls that cannot mean anything are refused where they are made."""
    import pulumi
    from pulumi.runtime import stack as rstack

    s = sx.str("s", 2)
    other = sx.choice("other", [None, 3, ["x"], {"x": "y"}, b"x"])
    cases = ["file-asset", "string-asset", "remote-asset", "file-archive", "remote-archive", "assets", "asset-keys", "asset-values", "asset-text",
             "all-mixed", "iterate", "export", "transformation", "stack-twice", "merge-options", "merge-invoke", "nothing"]
    case = sx.choice("case", cases)
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        good = pulumi.StringAsset(s)
        o = lambda: mk_output(loop, s, True, False, [])  # noqa
        do = {
            "file-asset": lambda: pulumi.FileAsset(other if other != b"x" else None),
            "string-asset": lambda: pulumi.StringAsset(other),
            "remote-asset": lambda: pulumi.RemoteAsset(other),
            "file-archive": lambda: pulumi.FileArchive(other),
            "remote-archive": lambda: pulumi.RemoteArchive(other),
            "assets": lambda: pulumi.AssetArchive(other if not isinstance(other, dict) else [good]),
            "asset-keys": lambda: pulumi.AssetArchive({"a": good, 3: good}),
            "asset-values": lambda: pulumi.AssetArchive({"a": good, "b": other}),
            "asset-text": lambda: pulumi.AssetArchive({"a": good, "b": s}),
            "all-mixed": lambda: pulumi.Output.all(o(), x=o()),
            "iterate": lambda: list(o()),
            "export": lambda: pulumi.export("x", s),
            "transformation": lambda: pulumi.runtime.register_stack_transformation(lambda a: None),
            "merge-options": lambda: pulumi.ResourceOptions.merge(pulumi.ResourceOptions(), other if other is not None else 1),
            "merge-invoke": lambda: pulumi.InvokeOptions.merge(pulumi.InvokeOptions(), other if other is not None else 1),
        }
        if case in do:
            err = None
            try:
                do[case]()
            except Exception as e:  # noqa
                err = e
            sx.check(err is not None, "malformed-is-reported", lambda: (case, other))
        elif case == "stack-twice":
            err = None
            await rstack.run_in_stack(lambda: None)
            n = len(mon.sent("RegisterResource"))
            try:
                rstack.Stack(lambda: None)
            except Exception as e:  # noqa
                err = e
            await rstack.wait_for_rpcs() if hasattr(rstack, "wait_for_rpcs") else None
            sx.check(err is not None, "malformed-is-reported", lambda: case)
            sx.check(len(mon.sent("RegisterResource")) == n, "malformed-is-not-sent", lambda: mon.requests)
        else:
            a = pulumi.AssetArchive({"a": good, "b": pulumi.AssetArchive({}), "c": pulumi.FileArchive("./x")})
            sx.check(set(a.assets) == {"a", "b", "c"} and a.assets["a"] is good, "well-formed-is-accepted", lambda: a.assets)

            class Path(os.PathLike):
                def __fspath__(self):
                    return "dir/x"

                def __str__(self):
                    return "other"

                __repr__ = __str__
            sx.check(pulumi.FileAsset(Path()).path == "dir/x", "well-formed-is-accepted", lambda: pulumi.FileAsset(Path()).path)
            sx.check(sx.and_(*[sx.eq(x, s) for x in (good.text, pulumi.FileAsset(s).path, pulumi.RemoteAsset(s).uri,
                                                     pulumi.FileArchive(s).path, pulumi.RemoteArchive(s).uri)]), "well-formed-is-accepted")

    run(sx, main, fifo=True)


CELLS = [
    Cell("resources", resources, dict(kinds=KINDS, bads=list(BAD))),
    Cell("names", texts, dict(which="name")),
    Cell("types", texts, dict(which="type")),
    Cell("values", values),
    Cell("resources-orders", resources, dict(kinds=KINDS, bads=list(BAD), preempt=2), tiers=("thorough",)),
]
