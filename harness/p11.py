"""Inheritance down the resource tree: providers per package, protection, transformations."""
from .lib import *

ANCHORS = ("pulumi.resource.Resource.__init__", "pulumi.resource.Resource._get_providers",
           "pulumi.resource.Resource.get_provider", "pulumi.runtime.resource.prepare_resource",
           "pulumi.runtime.stack.register_stack_transformation")
BOUNDS = ("chains of up to three resources (component or custom ancestors of one of two packages, or of an unqualified "
          "type), each level giving nothing, a provider of its own or another package, or a list / map of one or two "
          "providers; protection unset/false/true at each of four levels; up to two transformations at each of two levels and "
          "on the stack, each doing nothing, changing properties, options, both, leaving no properties, or re-parenting; an earlier sibling with "
          "its own provider; options objects shared between resources")
OUTSIDE = "a provider given both alone and in the list for one package (documented as a conflict); maps under foreign keys"

U = "urn:pulumi:stack::project::pulumi:providers:%s::%s"
PK = {"a": "az", "b": "az-native"}  # names of packages may contain those of others, and dashes
A = PK["a"]


class Engine:
    def Log(self, req):
        return None


def setup(D=False):
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon, engine=Engine())
    return mon


FORMS = ["none", "prov-a", "prov-b", "list-a", "map-ab", "list-b", "tuple-ab"]


def options(loop, form, tag):
    """-> (options, {package: provider name} it contributes, explicit provider package)"""
    mk = lambda p: mk_provider(loop, U % (PK[p], p + tag), p + tag, PK[p])  # noqa
    if form == "none":
        return {}, {}, None
    if form == "prov-a":
        return {"provider": mk("a")}, {"a": "a" + tag}, "a"
    if form == "prov-b":
        return {"provider": mk("b")}, {"b": "b" + tag}, "b"
    if form == "list-a":
        return {"providers": [mk("a")]}, {"a": "a" + tag}, None
    if form == "list-b":
        return {"providers": [mk("b")]}, {"b": "b" + tag}, None
    if form == "map-ab":
        return {"providers": {PK["a"]: mk("a"), PK["b"]: mk("b")}}, {"a": "a" + tag, "b": "b" + tag}, None
    if form == "tuple-ab":
        return {"providers": (mk("a"), mk("b"))}, {"a": "a" + tag, "b": "b" + tag}, None
    if form == "prov-a+list-b":
        return {"provider": mk("a"), "providers": [mk("b")]}, {"a": "a" + tag, "b": "b" + tag}, "a"
    if form == "prov-b+map-a":
        return {"provider": mk("b"), "providers": {PK["a"]: mk("a")}}, {"a": "a" + tag, "b": "b" + tag}, "b"
    raise AssertionError(form)


def providers(sx, depth, kinds, forms, leafpkgs, leafforms, sibling=False, action="register"):
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = setup(D)
    from pulumi.runtime.proto import resource_pb2
    mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn="urn:read")

    async def main(loop):
        parent, have = None, {}
        for i in range(depth):
            kind = sx.choice("kind%d" % i, kinds)
            form = sx.choice("form%d" % i, forms)
            o, add, expl = options(loop, form, str(i))
            t = {"comp-a": A + ":m:C", "comp-x": "x:m:C", "comp-plain": "Plain", "cust-a": A + ":m:R", "cust-b": PK["b"] + ":m:R"}[kind]
            if kind.startswith("cust") and expl not in (None, kind[-1]):
                sx.assume(False)  # (rejected: asserted for the leaf)
            ro = pulumi.ResourceOptions(parent=parent, **o)
            parent = (pulumi.CustomResource if kind.startswith("cust") else pulumi.ComponentResource)(t, "n%d" % i, {}, ro)
            have = {**have, **add}
        if sibling:
            so, _, _ = options(loop, sx.choice("sform", ["prov-a", "map-ab"]), "s")
            pulumi.CustomResource(A + ":m:R", "sib", {}, pulumi.ResourceOptions(parent=parent, **so))
        pkg = sx.choice("pkg", leafpkgs)
        lform = sx.choice("lform", leafforms)
        o, add, expl = options(loop, lform, "L")
        kw = dict(o)
        if action == "read":
            kw["id"] = "some-id"
        ro = pulumi.ResourceOptions(parent=parent, **kw)
        before = dict(ro.__dict__)
        try:
            leaf = pulumi.CustomResource(PK[pkg] + ":m:R", "leaf", {}, ro)
        except ValueError:
            leaf = None
        sx.check((leaf is None) is (expl is not None and expl != pkg), "foreign-provider-is-rejected",
                 lambda: (lform, pkg, leaf))
        sx.check({k: v for k, v in ro.__dict__.items() if k != "merge"} ==
                 {k: v for k, v in before.items() if k != "merge"}, "options-are-not-modified",
                 lambda: (before, ro.__dict__))
        if leaf is None:
            return
        await observe(leaf.urn)
        q = [r for r in mon.sent("ReadResource" if action == "read" else "RegisterResource") if r.name == "leaf"][0]
        name = add.get(pkg) or have.get(pkg)
        exp = "" if name is None else (U % (PK[pkg], name)) + "::" + name
        sx.check(q.provider == exp, "selected-provider", lambda: (pkg, add, have, q.provider, exp))
        # what a child of the leaf would inherit
        for p in ("a", "b"):
            n = {**have, **add}.get(p)
            got = leaf.get_provider(PK[p] + ":m:R")
            sx.check((got is None) if n is None else (got is not None and got.package == PK[p]
                                                      and await got.id.future() == n),
                     "inheritable-providers", lambda: (p, n, got))
        sx.check(leaf.get_provider("c:m:R") is None and leaf.get_provider("a:m:R") is None and leaf.get_provider("weird") is None, "unknown-package-no-provider")

    run(sx, main, fifo=True)


def remote(sx, forms):
    """A remote component passes its own providers, plus the one it inherits for its own package."""
    import pulumi

    mon = setup(sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        o, have, _ = options(loop, sx.choice("form0", forms), "0")
        top = pulumi.ComponentResource("x:m:C", "top", {}, pulumi.ResourceOptions(**o))
        o, add, _ = options(loop, sx.choice("form1", forms), "1")
        c = pulumi.ComponentResource(A + ":m:C", "leaf", {}, pulumi.ResourceOptions(parent=top, **o), remote=True)
        await observe(c.urn)
        q = [r for r in mon.sent("RegisterResource") if r.name == "leaf"][0]
        got = dict(q.providers)
        for p, n in add.items():
            sx.check(got.get(PK[p]) == (U % (PK[p], n)) + "::" + n, "remote-own-providers", lambda: (p, n, got))
        if "a" in have and "a" not in add:
            n = have["a"]
            sx.check(got.get(A) == (U % (A, n)) + "::" + n or "provider" in o, "remote-inherited-provider",
                     lambda: (n, got))
        sx.check(q.provider == "", "remote-has-no-single-provider", lambda: q)

    run(sx, main, fifo=True)


def protect(sx, depth, kinds):
    import pulumi

    mon = setup(sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        parent, eff, exp = None, False, {}
        for i in range(depth):
            p = sx.choice("p%d" % i, [None, False, True])
            k = sx.choice("k%d" % i, kinds)
            eff = eff if p is None else p
            exp["n%d" % i] = eff
            o = pulumi.ResourceOptions(parent=parent, protect=p)
            if k == "cust":
                parent = pulumi.CustomResource(A + ":m:R", "n%d" % i, {}, o)
            else:
                parent = pulumi.ComponentResource(A + ":m:C", "n%d" % i, {}, o, remote=(k == "remote"))
            sx.check(o.protect is p, "options-are-not-modified")
        await observe(parent.urn)
        got = {r.name: r.protect for r in mon.sent("RegisterResource")}
        sx.check(got == exp, "protection", lambda: (exp, got))

    run(sx, main, fifo=True)


TK = ["nothing", "props", "opts", "both", "empty", "reparent"]


def transforms(sx, where, kinds, counts, typed=False):
    """Transformations run in order, own first, then the parent's, then the stack's; each sees the previous result."""
    import pulumi
    from pulumi.runtime import stack as stackmod, settings

    mon = setup(sx.concrete(sx.bool("dry_run")))
    log = []

    def mk(name, kind):
        def t(args):
            if args.name != "leaf":
                return None
            log.append((name, args.type_, dict(args.props), args.opts.version, args.resource))
            if kind == "nothing":
                return None
            props, opts = dict(args.props), args.opts
            if kind in ("props", "both"):
                props["t"] = props.get("t", "") + name
                props.pop("drop", None)
            if kind == "empty":
                props = {}
            if kind in ("opts", "both"):
                opts = pulumi.ResourceOptions.merge(args.opts, pulumi.ResourceOptions(
                    version=(args.opts.version or "") + name))
            if kind == "reparent":
                opts = pulumi.ResourceOptions.merge(args.opts, pulumi.ResourceOptions(parent=holder["other"]))
            return pulumi.ResourceTransformationResult(props, opts)
        t.name = name
        return t

    holder = {}

    async def main(loop):
        spec = {}
        for w in ("own", "parent", "stack"):
            n = sx.choice("n." + w, counts) if w in where else 0
            spec[w] = [(w[0] + str(i), sx.choice("k.%s%d" % (w, i), kinds)) for i in range(n)]
        T = {w: [mk(n, k) for n, k in v] for w, v in spec.items()}
        if "stack" in where:
            root = pulumi.runtime.stack.Stack.__new__(pulumi.runtime.stack.Stack)
            pulumi.Resource.__init__(root, "pulumi:pulumi:Stack", "project-stack", False)
            root._remote = False
            settings.set_root_resource(root)
            for t in T["stack"]:
                pulumi.runtime.register_stack_transformation(t)
        holder["other"] = pulumi.ComponentResource(A + ":m:C", "other")
        parent = pulumi.ComponentResource(A + ":m:C", "parent", {}, pulumi.ResourceOptions(
            transformations=list(T["parent"]) or None)) if "parent" in where else None
        own = list(T["own"])
        ver = sx.str("version", 2, 1) if sx.choice("hasver", 2) else None
        o = pulumi.ResourceOptions(parent=parent, transformations=own or None, version=ver)
        s = sx.str("val", 3)
        props = {"p": s, "drop": "x"}
        if typed:
            @pulumi.input_type
            class Args:
                def __init__(self, p, drop):
                    pulumi.set(self, "p", p)
                    pulumi.set(self, "drop", drop)

                @property
                @pulumi.getter(name="pWire")
                def p(self):
                    return pulumi.get(self, "p")

                @property
                @pulumi.getter
                def drop(self):
                    return pulumi.get(self, "drop")

            given = Args(s, "x")
        else:
            given = props
        order = spec["own"] + spec["parent"] + spec["stack"]
        bad = any(k == "reparent" for _, k in order)
        before = dict(o.__dict__)
        try:
            leaf = pulumi.CustomResource(A + ":m:R", "leaf", given, o)
        except Exception:  # noqa
            leaf = None
        sx.check((leaf is None) is bad, "re-parenting-is-rejected", lambda: (order, leaf))
        sx.check(own == T["own"] and {k: v for k, v in before.items() if k != "merge"} == {
            k: v for k, v in o.__dict__.items() if k != "merge"}, "options-are-not-modified")
        if leaf is None:
            return
        if not typed:
            sx.check(props == {"p": s, "drop": "x"} and sx.eq(props["p"], s), "properties-are-not-modified")
        ep, ev = {"p": s, "drop": "x"}, ver
        sx.check([x[0] for x in log] == [n for n, _ in order], "transformation-order", lambda: (order, log))
        for (n, k), x in zip(order, log):
            sx.check(x[1] == A + ":m:R" and x[4] is leaf, "transformation-sees-the-resource")
            sx.check(wire_eq(sx, x[2], ep), "transformation-sees-properties", lambda: (n, ep, x[2]))
            sx.check(sx.eq(x[3], ev) if ev is not None else x[3] is None, "transformation-sees-options", lambda: (n, ev, x[3]))
            if k in ("props", "both"):
                ep["t"] = ep.get("t", "") + n
                ep.pop("drop", None)
            if k == "empty":
                ep = {}
            if k in ("opts", "both"):
                ev = (ev or "") + n
        await observe(leaf.urn)
        q = [r for r in mon.sent("RegisterResource") if r.name == "leaf"][0]
        if typed:
            ep = {"pWire" if x == "p" else x: v for x, v in ep.items()}
        sx.check(wire_eq(sx, q.object, ep), "transformed-properties-are-registered", lambda: (ep, plain(q.object)))
        sx.check(sx.eq(q.version, ev or ""), "transformed-options-are-used", lambda: (ev, q.version))

    run(sx, main, fifo=True)


def shared_opts(sx):
    """One options object used for several resources gives each of them the same options."""
    import pulumi

    mon = setup(sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        top = pulumi.ComponentResource("x:m:C", "top", {}, pulumi.ResourceOptions(
            protect=sx.choice("protect0", [None, True]), providers=[mk_provider(loop, U % (A, "a0"), "a0", A)]))
        dep = pulumi.CustomResource(A + ":m:R", "dep")
        o = pulumi.ResourceOptions(
            parent=sx.choice("parent", [None, top]), protect=sx.choice("protect", [None, False, True]),
            ignore_changes=["x"] if sx.choice("ign", 2) else None, aliases=["urn:al"] if sx.choice("al", 2) else None,
            depends_on=[dep] if sx.choice("dep", 2) else None,
            **(options(loop, sx.choice("form", FORMS), "1")[0]))
        sx.assume(o.provider is None or o.provider.package == A)
        r = [pulumi.CustomResource(A + ":m:R", "r%d" % i, {}, o) for i in range(3)]
        for x in r:
            await observe(x.urn)
        qs = [q for q in mon.sent("RegisterResource") if q.name.startswith("r")]
        f = lambda q: (q.parent, q.protect, q.provider, list(q.ignoreChanges), list(q.aliases), sorted(q.dependencies))  # noqa
        sx.check(len(qs) == 3 and f(qs[0]) == f(qs[1]) == f(qs[2]), "shared-options-mean-the-same", lambda: [f(q) for q in qs])

    run(sx, main, fifo=True)


CK = ["comp-a", "comp-x", "comp-plain", "cust-a", "cust-b"]
CELLS = [
    Cell("providers-flat", providers, dict(depth=0, kinds=CK, forms=FORMS, leafpkgs=["a", "b"],
                                           leafforms=FORMS + ["prov-a+list-b", "prov-b+map-a"])),
    Cell("providers-one", providers, dict(depth=1, kinds=CK, forms=FORMS + ["prov-a+list-b", "prov-b+map-a"],
                                          leafpkgs=["a", "b"], leafforms=FORMS), weight=2),
    Cell("providers-two", providers, dict(depth=2, kinds=["comp-a", "comp-x", "cust-a"], forms=FORMS[:5],
                                          leafpkgs=["a", "b"], leafforms=["none", "list-b", "prov-a"]), weight=4),
    Cell("providers-three", providers, dict(depth=3, kinds=CK, forms=FORMS + ["prov-a+list-b", "prov-b+map-a"],
                                            leafpkgs=["a", "b"], leafforms=["none", "list-b"]), tiers=("thorough",),
         weight=4),
    Cell("providers-sibling", providers, dict(depth=1, kinds=["comp-a", "comp-x"], forms=["none", "list-a", "prov-b"],
                                              leafpkgs=["a", "b"], leafforms=["none", "list-b"], sibling=True)),
    Cell("providers-read", providers, dict(depth=1, kinds=["comp-x", "cust-a"], forms=FORMS, leafpkgs=["a"],
                                           leafforms=FORMS, action="read")),
    Cell("providers-remote", remote, dict(forms=FORMS)),
    Cell("protect", protect, dict(depth=3, kinds=["cust", "comp"])),
    Cell("protect-remote", protect, dict(depth=2, kinds=["cust", "comp", "remote"])),
    Cell("protect-four", protect, dict(depth=4, kinds=["cust", "comp", "remote"]), tiers=("thorough",)),
    Cell("transformations-own", transforms, dict(where=("own",), kinds=TK, counts=[0, 1, 2])),
    Cell("transformations-tree", transforms, dict(where=("own", "parent", "stack"), kinds=["nothing", "both", "reparent"],
                                                  counts=[0, 1]), weight=2),
    Cell("transformations-tree-two", transforms, dict(where=("parent", "stack"), kinds=["props", "opts"],
                                                      counts=[0, 1, 2]), weight=2),
    Cell("transformations-typed", transforms, dict(where=("own", "parent"), kinds=["nothing", "props", "both"],
                                                   counts=[0, 1], typed=True)),
    Cell("transformations-deep", transforms, dict(where=("own", "parent", "stack"), kinds=TK, counts=[0, 1, 2]),
         tiers=("thorough",), weight=3),
    Cell("shared-options", shared_opts),
]
