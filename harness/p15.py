"""Stack exports: what the engine is told the stack's outputs are."""
import enum

from .lib import *

ANCHORS = ("pulumi.runtime.stack.massage", "pulumi.runtime.stack.Stack.", "pulumi.runtime.stack.is_primitive",
           "pulumi.runtime.stack.reference_contains", "pulumi.resource.export",
           "pulumi.runtime.resource.register_resource_outputs", "pulumi.resource.ComponentResource.register_outputs")
BOUNDS = ("up to three exports of values of depth <= 2 (symbolic strings <= 3, numbers, booleans, None, empty and one/two element "
          "lists, tuples, sets, generators, dictionaries with 9 kinds of keys, objects, enum members, awaitables, outputs with symbolic "
          "secrecy and knownness, custom and component resources); one object reached along two paths in 8 ways; cycles of "
          "length 1-2 through every kind of container; the program succeeding or failing; all completion orders of up to 4 futures")
OUTSIDE = "exports made after the program's top level has finished (in applies); keys that are not strings; deeper values"

KEYS = ["a", "_p", "__q", "p_", "items", "", "keys", "4dab", "urn"]


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Num(float, enum.Enum):
    A = 1.5


class Txt(str, enum.Enum):
    B = "bee"


class Gen:
    def __init__(self, sx, loop, D, kinds, leaves, ext=()):
        self.sx, self.loop, self.D, self.kinds, self.leaves, self.ext = sx, loop, D, kinds, leaves, ext
        self.n = 0

    def leaf(self, nm):
        sx = self.sx
        k = sx.choice(nm + ".leaf", self.leaves)
        return {"str": lambda: (sx.str(nm + ".s", 3),) * 2, "num": lambda: (sx.int(nm + ".i", 0, 3),) * 2,
                "none": lambda: (None, None), "bool": lambda: (sx.bool(nm + ".b"),) * 2, "float": lambda: (1.5, 1.5),
                "empty": lambda: ([], []), "emptyd": lambda: ({}, {}), "emptyt": lambda: ((), []),
                "enum": lambda: (Num.A, 1.5), "enums": lambda: (Txt.B, "bee"), "zero": lambda: (0, 0),
                "false": lambda: (False, False), "emptys": lambda: ("", "")}[k]()

    def build(self, nm, depth, kinds=None, plain_only=False):
        """-> (value, wire tree)"""
        sx = self.sx
        k = sx.choice(nm + ".kind", (kinds or self.kinds) if depth > 0 else ["leaf"])
        def B(i):
            r = self.build(nm + "." + str(i), depth - 1)
            if k != "output":
                self.kind = k
            return r

        self.kind = k
        if k == "leaf":
            return self.leaf(nm)
        if k == "output":
            self.kind = None
            v, w = B("o")
            K, S = (sx.concrete(sx.bool(nm + ".K")) if self.D else True), sx.concrete(sx.bool(nm + ".S"))
            from pulumi.output import UNKNOWN

            o = mk_output(self.loop, v if K else UNKNOWN, K, S, ext=self.ext)
            if not K or w is UNKNOWN_WIRE and self.kind == "output":
                w = UNKNOWN_WIRE
            elif S and not (self.kind == "output" and isinstance(w, dict) and SIG in w):
                w = {SIG: SECRET, "value": w}
            self.kind = k
            return o, w
        if k in ("await", "coro"):
            v, w = self.leaf(nm)
            v, w = {"leaf": (v, w), "list": ([v], [w]), "tuple": ((v,), [w]), "obj": (Obj(a=v), {"a": w})}[
                sx.choice(nm + ".of", ["leaf", "list", "tuple", "obj"])]
            if k == "await":
                return fut(self.loop, v, ext=nm if self.ext else None), w

            async def c():
                return v

            return c(), w
        if k in ("list", "tuple", "gen"):
            ps = [B(0), B(1)]
            vs = [p[0] for p in ps]
            return {"list": lambda: vs, "tuple": lambda: tuple(vs), "gen": lambda: (x for x in vs)}[k](), [p[1] for p in ps]
        if k == "list1":
            v, w = B(0)
            return [v], [w]
        if k == "set":
            return {"x"}, ["x"]
        if k in ("dict", "dict1"):
            key = sx.choice(nm + ".key", KEYS if k == "dict" else ["a"])
            v, w = B(0)
            return {key: v, "z": "z"}, {"z": "z", **({} if key.startswith("_") else {key: w})}
        if k == "obj":
            v, w = B(0)
            return Obj(a=v, _b=[v], c_d="x"), {"a": w, "c_d": "x"}
        if k in ("custom", "component"):
            self.n += 1
            u = "urn:r%d" % self.n
            r = mk_resource(self.loop, u, k == "custom", "id%d" % self.n)
            v, w = B(0)
            r.__dict__["attr"] = v
            e = {"urn": u, "attr": w}
            if k == "custom":
                e["id"] = "id" + u[5:]
            if self.D:
                e["@isPulumiResource"] = True
            return r, e
        raise AssertionError(k)


def go(sx, program, expected, features=("secrets", "resourceReferences", "outputValues"), D=False, fails=False):
    """Run `program(loop)` as the stack's program; then compare what was registered with expected()."""
    from pulumi.runtime import stack as st

    mon = basic_monitor(features)
    configure(dry_run=D, monitor=mon, engine=None)

    async def main(loop):
        try:
            await st.run_in_stack(lambda: program(loop))
            failed = False
        except Boom:
            failed = True
        sx.check(failed is fails, "program-fails-iff-it-raises")
        regs = mon.sent("RegisterResource")
        sx.check(len(regs) == 1 and regs[0].type == "pulumi:pulumi:Stack" and regs[0].name == "project-stack",
                 "stack-registered-once", lambda: regs)
        outs = mon.sent("RegisterResourceOutputs")
        sx.check(len(outs) == 1 and outs[0].urn == urn_of(regs[0]), "outputs-registered-once", lambda: outs)
        exp = {k: v for k, v in expected().items() if v is not None and not k.startswith("_")}
        got = plain(outs[0].outputs)
        sx.check(wire_eq(sx, got, exp), "stack-outputs", lambda: (got, exp))

    run(sx, main)


def values(sx, kinds, leaves, depth=1, n=1, ext=(), features=None):
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    exp = {}

    def program(loop):
        g = Gen(sx, loop, D, kinds, leaves, ext)
        for i in range(n):
            nm = "e%d" % i
            v, exp[nm] = g.build(nm, depth)
            pulumi.export(nm, v)

    go(sx, program, lambda: exp, D=D)


def names(sx):
    """The last value exported under a name counts; every name is kept; a failing program still registers its exports."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    fails = sx.choice("fails", [False, True])
    exp = {}

    def program(loop):
        for i in range(3):
            k = sx.choice("name%d" % i, ["a", "b", "some_name", ""])
            v = sx.str("v%d" % i, 3)
            how = sx.choice("how%d" % i, ["plain", "none", "secret"]) if i else "plain"
            pulumi.export(k, {"plain": v, "none": None, "secret": mk_output(loop, v, True, True)}[how])
            exp[k] = {"plain": v, "none": None, "secret": {SIG: SECRET, "value": v}}[how]
        if fails:
            raise Boom("program")

    go(sx, program, lambda: exp, D=D, fails=fails)


def shared(sx, kinds, leaves, depth=1):
    """One object reached along several paths appears in full at each."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    exp = {}

    def program(loop):
        g = Gen(sx, loop, D, kinds, leaves)
        v, w = g.build("v", depth)
        shape = sx.choice("shape", ["two-names", "list", "dict", "nested", "output", "object", "resource", "two-lists"])
        x, e = {
            "two-names": lambda: (v, w),
            "list": lambda: ([v, v], [w, w]),
            "dict": lambda: ({"a": v, "b": v}, {"a": w, "b": w}),
            "nested": lambda: ([v, {"k": [v]}], [w, {"k": [w]}]),
            "output": lambda: ([v, mk_output(loop, [v])], [w, [w]]),
            "object": lambda: ([Obj(a=v), Obj(b=v)], [{"a": w}, {"b": w}]),
            "resource": lambda: ([v, holder(loop, v)], [w, {"urn": "urn:h", "attr": w, **({"@isPulumiResource": True} if D else {})}]),
            "two-lists": lambda: ([[v], [v]], [[w], [w]]),
        }[shape]()
        pulumi.export("first", x)
        exp["first"] = e
        if shape == "two-names":
            pulumi.export("second", v)
            exp["second"] = w

    go(sx, program, lambda: exp, D=D)


def holder(loop, v):
    r = mk_resource(loop, "urn:h", False)
    r.__dict__["attr"] = v
    return r


def cycles(sx, first, second):
    """An object inside itself is left out there (a resource appears as its urn)."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    exp = {}
    P = {"@isPulumiResource": True} if D else {}

    def program(loop):
        a, b = sx.choice("a", first), sx.choice("b", second)

        def put(kind, inner, i):
            """a container of `kind` to be filled -> (object, fill, wire(inner wire), what a reference back to it gives)"""
            if kind == "list":
                o = ["x"]
                return o, o.append, lambda w: ["x", w], None
            if kind == "dict":
                o = {"x": "y"}
                return o, lambda v: o.update(k=v), lambda w: {"x": "y", "k": w}, None
            if kind == "obj":
                o = Obj(x="y")
                return o, lambda v: setattr(o, "k", v), lambda w: {"x": "y", "k": w}, None
            if kind == "res":
                o = holder(loop, None)
                return o, lambda v: o.__dict__.update(attr=v), lambda w: {"urn": "urn:h", "attr": w, **P}, "urn:h"
            raise AssertionError(kind)

        x, fillx, wx, backx = put(a, None, 0)
        via = lambda v: mk_output(loop, v) if sx.choice("via", ["plain", "output"]) == "output" else v  # noqa
        if b == "self":
            fillx(x)
            e = wx(backx)
        else:
            y, filly, wy, backy = put(b, None, 1)
            fillx(via(y))
            filly(x)
            e = wx(wy(backx))
        pulumi.export("out", x)
        pulumi.export("after", "ok")
        exp.update(out=e, after="ok")

    go(sx, program, lambda: exp, D=D)


def real(sx):
    """Resources the program made: exported with their attributes, wherever they are, children or not, and as urns where they repeat."""
    import pulumi
    from pulumi.runtime import stack as st

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon, engine=None)
    exp = {}

    def program(loop):
        c = pulumi.ComponentResource("a:m:C", "c")
        kids = sx.choice("children", ["none", "custom", "component"])
        child = None
        if kids == "custom":
            child = pulumi.CustomResource("a:m:R", "r", {"p": sx.str("p", 2)}, pulumi.ResourceOptions(parent=c))
        elif kids == "component":
            child = pulumi.ComponentResource("a:m:C", "k", opts=pulumi.ResourceOptions(parent=c))
        P = {"@isPulumiResource": True} if D else {}
        u = "urn:pulumi:stack::project::a:m:C::c"
        uk = {"none": None, "custom": "urn:pulumi:stack::project::a:m:R::r", "component": "urn:pulumi:stack::project::a:m:C::k"}[kids]
        e = {"urn": u, **P}
        c.size = sx.str("size", 2)
        e["size"] = c.size
        if child is not None and sx.choice("attribute", [True, False]):
            c.child = child
            e["child"] = {"urn": uk, **P}
            if kids == "custom":
                e["child"].update(id="<id>", p="<p>")
            if sx.choice("upwards", [True, False]):
                child.owner = c
                e["child"]["owner"] = u
        back = sx.choice("back", ["none", "direct", "list", "dict", "output"])
        if back != "none":
            c.back = {"direct": lambda: c, "list": lambda: [c], "dict": lambda: {"k": c}, "output": lambda: mk_output(loop, c)}[back]()
            e["back"] = {"direct": u, "list": [u], "dict": {"k": u}, "output": u}[back]
        how = sx.choice("how", ["itself", "list", "child"])
        if how == "child" and child is not None and kids == "component":
            child.up = c
            pulumi.export("out", child)
            # seen from the child
            if "child" in e:
                e["child"] = uk
            exp["out"] = {"urn": uk, "up": e, **P, **({"owner": e} if hasattr(child, "owner") else {})}
        else:
            pulumi.export("out", [c, c] if how == "list" else c)
            exp["out"] = [e, e] if how == "list" else e

    def strip(got, e):
        """Attributes a resource has of its own accord are not claimed: id where it has none."""
        if isinstance(e, dict):
            got = {k: v for k, v in got.items() if k in e or not (k == "id" and v is None)} if isinstance(got, dict) else got
            return {k: strip(v, e.get(k)) for k, v in got.items()} if isinstance(got, dict) else got
        if isinstance(e, list) and isinstance(got, list) and len(e) == len(got):
            return [strip(g, x) for g, x in zip(got, e)]
        return got

    async def main(loop):
        await st.run_in_stack(lambda: program(loop))
        outs = [o for o in mon.sent("RegisterResourceOutputs") if "Stack" in o.urn]
        sx.check(len(outs) == 1, "outputs-registered-once", lambda: outs)
        got, e = plain(outs[0].outputs), dict(exp)
        for r in mon.sent("RegisterResource"):
            if r.type == "a:m:R":
                fill(e["out"], plain(r.object)["p"])
        got = {"out": strip(got.get("out"), e["out"])}
        sx.check(wire_eq(sx, got, e), "stack-outputs", lambda: (got, e))

    def fill(e, p):
        if isinstance(e, list):
            for x in e:
                fill(x, p)
        elif isinstance(e, dict):
            for k in e:
                if isinstance(e[k], str) and e[k] == "<p>":
                    e[k] = p
                elif isinstance(e[k], str) and e[k] == "<id>":
                    e[k] = "r-id"
                else:
                    fill(e[k], p)

    run(sx, main)


def component(sx):
    """A component's registered outputs reach the engine as they are, under the component's urn."""
    import pulumi
    from .p03 import Gen as G3, eq

    D = sx.concrete(sx.bool("dry_run"))
    feats = {"secrets": sx.concrete(sx.bool("secrets")), "resourceReferences": True, "outputValues": True}
    mon = basic_monitor([f for f in feats if feats[f]])
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        g = G3(sx, loop, feats, ["leaf", "output", "list1", "dict1", "await", "custom"], ["str", "none", "unk"])
        v, m = g.build("v", 2)
        exp = g.ser(m, False, set())
        c = pulumi.ComponentResource("a:m:C", "c")
        o = {"p_q": v, "z": "z"}
        c.register_outputs(o)
        from pulumi.runtime.stack import wait_for_rpcs

        await wait_for_rpcs(False)
        outs = mon.sent("RegisterResourceOutputs")
        sx.check(len(outs) == 1 and outs[0].urn == urn_of(mon.sent("RegisterResource")[0]), "outputs-registered-once",
                 lambda: outs)
        e = {"z": "z", **({} if exp is None else {"p_q": exp})}
        got = plain(outs[0].outputs)
        sx.check(eq(sx, got, e), "component-outputs", lambda: (got, e))

    run(sx, main)


ALLK = ["leaf", "output", "await", "coro", "list", "tuple", "gen", "set", "dict", "obj", "custom", "component"]
LEAVES = ["str", "num", "none", "bool", "float", "empty", "emptyd", "emptyt", "enum", "enums", "zero", "false", "emptys"]
CELLS = [
    Cell("leaves", values, dict(kinds=["leaf", "output", "await", "coro", "list1", "dict1", "obj"], leaves=LEAVES)),
    Cell("kinds", values, dict(kinds=ALLK, leaves=["str", "none"])),
    Cell("nested", values, dict(kinds=["output", "list1", "dict1", "obj", "custom", "tuple"], leaves=["str"], depth=2)),
    Cell("nested3", values, dict(kinds=["output", "list1", "dict1", "obj"], leaves=["str"], depth=3)),
    Cell("two", values, dict(kinds=["leaf", "output", "list1", "obj", "custom"], leaves=["str", "none"], n=2)),
    Cell("orders", values, dict(kinds=["output", "await"], leaves=["str"], n=2, ext=("val", "sec"))),
    Cell("none", values, dict(kinds=["leaf"], leaves=["str"], n=0)),
    Cell("names", names),
    Cell("shared", shared, dict(kinds=["output", "list1", "dict1", "obj", "custom", "component", "tuple"], leaves=["str"])),
    Cell("shared-nested", shared, dict(kinds=["output", "list1", "obj", "custom"], leaves=["str"], depth=2)),
    Cell("cycles", cycles, dict(first=["list", "dict", "obj", "res"], second=["self", "list", "dict", "obj"])),
    Cell("real", real),
    Cell("component", component),
]
