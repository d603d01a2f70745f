"""Which resources the engine is told a resource depends on: components expand to what they contain, never a cycle."""
from .lib import *

ANCHORS = ("pulumi.runtime.resource._add_dependency", "pulumi.runtime.resource._expand_dependencies",
           "pulumi.runtime.resource._resolve_depends_on_urns", "pulumi.runtime.resource_cycle_breaker",
           "pulumi.runtime.resource.prepare_resource")
BOUNDS = ("trees of up to five resources (thorough: six), every shape and every assignment of custom / local component / "
          "remote component, depended on through depends_on or through a property; children added while the dependency "
          "is being resolved; up to three siblings that depend on each other or on their own parent, all completion "
          "orders")
OUTSIDE = "larger trees"

def new(kind, name, parent=None, depends_on=None, props=None):
    import pulumi

    kw = {}
    if parent is not None:
        kw["parent"] = parent
    if depends_on is not None:
        kw["depends_on"] = depends_on
    o = pulumi.ResourceOptions(**kw)
    if kind == "custom":
        return pulumi.CustomResource("pkg:mod:Typ", name, props or {}, o)
    return pulumi.ComponentResource("pkg:mod:Comp", name, props or {}, o, remote=(kind == "remote"))


def tree(sx, n, via):
    import pulumi

    mon = basic_monitor()
    configure(dry_run=sx.concrete(sx.bool("dry_run")), monitor=mon)

    async def main(loop):
        kinds = [sx.choice("kind0", ["comp", "remote", "custom"])]
        parents = [None]
        for i in range(1, n):
            kinds.append(sx.choice("kind%d" % i, ["custom", "comp", "remote"]))
            parents.append(sx.choice("parent%d" % i, i))
        res = []
        for i in range(n):
            res.append(new(kinds[i], "r%d" % i, None if parents[i] is None else res[parents[i]]))

        def expand(i):
            if kinds[i] != "comp":
                return {i}
            out = set()
            for j in range(n):
                if parents[j] == i:
                    out |= expand(j)
            return out
        v = sx.choice("via", via)
        if v == "depends_on":
            d = new("custom", "down", None, [res[0]])
        elif v == "two":
            d = new("custom", "down", None, [res[0], res[n - 1]])
        elif v == "prop":
            d = new("custom", "down", None, None, {"p": res[0].urn})
        else:
            d = new("custom", "down", None, None, {"p": mk_output(loop, 1, True, False, [res[0], res[n - 1]])})
        exp = expand(0) | (expand(n - 1) if v in ("two", "prop2") else set())
        await observe(d.urn)
        q = [x for x in mon.sent("RegisterResource") if x.name == "down"]
        sx.check(len(q) == 1, "exactly-one-request", lambda: mon.requests)
        urns = {i: urn_of(x) for x in mon.sent("RegisterResource") for i in range(n) if x.name == "r%d" % i}
        sx.check(sorted(q[0].dependencies) == sorted(urns[i] for i in exp), "expanded-dependencies",
                 lambda: (kinds, parents, v, list(q[0].dependencies), exp))
        if v in ("prop", "prop2"):
            sx.check(sorted(q[0].propertyDependencies["p"].urns) == sorted(urns[i] for i in exp),
                     "expanded-property-dependencies", lambda: (kinds, parents, v, q))

    run(sx, main, fifo=True)


def growing(sx, via, preempt=0):
    """The component gets more children while something is waiting for it."""
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        comp = new("comp", "comp")
        c1 = new("custom", "c1", comp)
        c2 = new("custom", "c2", comp)
        added = []

        def grow(v):
            k = sx.choice("grow", ["none", "child", "nested"])
            if k == "child":
                added.append(new("custom", "late", comp))
            elif k == "nested":
                added.append(new("custom", "late", new("comp", "late-comp", comp)))
            return v
        c2.urn.apply(grow)
        if via == "depends_on":
            d = new("custom", "down", None, [comp])
        else:
            d = new("custom", "down", None, None, {"p": comp.urn})
        s = await observe(d.urn)
        sx.check(s.exc is None, "growing-component-is-no-error", lambda: s)
        q = [x for x in mon.sent("RegisterResource") if x.name == "down"]
        got = {x.split("::")[-1] for x in q[0].dependencies}
        sx.check({"c1", "c2"} <= got <= {"c1", "c2", "late"}, "children-known-in-time-are-included", lambda: got)

    run(sx, main, preempt=preempt)


def cycles(sx, n, preempt=0, fifo=True):
    """Siblings may depend on their own parent (directly or by property): no deadlock, no cycle, nothing else lost."""
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        comp = new("comp", "comp")
        ch, want = [], {}
        for i in range(n):
            pool = [comp] + ch
            how = sx.choice("dep%d" % i, ["none"] + list(range(len(pool))) + ["prop-parent"])
            kind = sx.choice("kind%d" % i, ["custom", "remote"]) if i == 0 else "custom"
            nm = "c%d" % i
            if how == "none":
                r = new(kind, nm, comp)
                want[nm] = set()
            elif how == "prop-parent":
                r = new(kind, nm, comp, None, {"p": mk_output(loop, 1, True, False, [comp])})
                want[nm] = {"c%d" % j for j in range(n)} - {nm}
            else:
                r = new(kind, nm, comp, [pool[how]])
                want[nm] = {"c%d" % (how - 1)} if how else {"c%d" % j for j in range(n)} - {nm}
            ch.append(r)
        for r in ch:
            s = await observe(r.urn)
            sx.check(s.exc is None, "registers", lambda: s)
        deps = {x.name: {u.split("::")[-1] for u in x.dependencies} for x in mon.sent("RegisterResource")}

        def reach(a, b, seen=()):
            return any(x == b or (x not in seen and reach(x, b, seen + (x,))) for x in deps[a])
        for a in want:
            sx.check(deps[a] <= want[a], "no-spurious-dependency", lambda: (deps, want))
            sx.check(not reach(a, a), "acyclic", lambda: deps)
            for b in want[a] - deps[a]:
                sx.check(reach(b, a), "only-cycles-are-broken", lambda: (a, b, deps, want))

    run(sx, main, preempt=preempt, fifo=fifo)


CELLS = [
    Cell("tree-3", tree, dict(n=3, via=["depends_on", "two", "prop", "prop2"])),
    Cell("tree-4", tree, dict(n=4, via=["depends_on", "two", "prop2"]), weight=3),
    Cell("tree-5", tree, dict(n=5, via=["depends_on"]), weight=4),
    Cell("tree-6", tree, dict(n=6, via=["depends_on"]), tiers=("thorough",), weight=4),
    Cell("growing", growing, dict(via="depends_on")),
    Cell("growing-prop", growing, dict(via="prop")),
    Cell("growing-preempt", growing, dict(via="depends_on", preempt=2)),
    Cell("cycles-2", cycles, dict(n=2, fifo=False)),
    Cell("cycles-3", cycles, dict(n=3)),
    Cell("cycles-3-orders", cycles, dict(n=3, fifo=False)),
    Cell("cycles-4", cycles, dict(n=4)),
]
