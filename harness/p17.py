"""Typed resource classes: names and types on the way to the engine and back."""
import functools
from enum import Enum
from typing import Any, Dict, List, Mapping, Optional, Sequence

from .lib import *

ANCHORS = ("pulumi._types.", "pulumi.runtime.rpc.translate_output_properties", "pulumi.runtime.rpc.serialize_propert",
           "pulumi.runtime.rpc._get_list_element_type", "pulumi.runtime.rpc.resolve_outputs", "pulumi.runtime.resource.register_resource",
           "pulumi.runtime.resource.read_resource")
BOUNDS = ("one typed resource (generated-provider style and annotation style, with inheritance), one symbolic choice of property among 12 "
          "types (text, number, float, flag, text/number/float enums, nested type, list, map, list of maps, any), values of depth <= 3, nested "
          "types given as objects or as dictionaries with either naming, each possibly an output (symbolic secrecy, unknown in previews); "
          "answers of every shape including missing, null, secret and unknown parts; symbolic strings <= 3; shapes of classes: three levels of inheritance over three modules with forward references into them, "
          "overridden properties (renamed and retyped), a property named get, empty lists and maps, resources read and got by urn, "
          "names in options, bare and parameterised containers)")
OUTSIDE = "answers that do not fit the declared types (values outside an enum); union types"


class Color(str, Enum):
    RED = "red"
    DARK_BLUE = "darkBlue"


class Size(int, Enum):
    ONE = 1
    TWO = 2


class Ratio(float, Enum):
    HALF = 0.5
    ONE = 1.0


ENUMS = {"color": Color, "size": Size, "ratio": Ratio}
# Every property is declared with a Python name that differs from its engine name, by more than case.
NAMES = {"the_str": "theStr", "num_": "num", "flag_on": "flagOn", "a_float": "aFloat", "col": "theColor", "size_of": "sizeOf", "ratio_r": "ratioR",
         "sub_leaf": "subLeaf", "leaf_list": "leafs", "leaf_map": "byName", "map_list": "mapList", "any_value": "anyValue"}
TYPES = {"the_str": "str", "num_": "int", "flag_on": "bool", "a_float": "float", "col": "color", "size_of": "size", "ratio_r": "ratio",
         "sub_leaf": "leaf", "leaf_list": ("seq", "leaf"), "leaf_map": ("map", "leaf"), "map_list": ("seq", ("map", "size")), "any_value": "any"}


@functools.lru_cache(None)
def declare(style_in, style_out):
    """-> (Args, LeafArgs, Resource class, OutLeaf)"""
    import pulumi
    from pulumi import Input, Output

    if style_in == "generated":
        @pulumi.input_type
        class LeafArgs:
            def __init__(__self__, *, some_str, from_=None):
                pulumi.set(__self__, "some_str", some_str)
                if from_ is not None:
                    pulumi.set(__self__, "from_", from_)

            @property
            @pulumi.getter(name="someStr")
            def some_str(self) -> Input[str]:
                return pulumi.get(self, "some_str")

            @some_str.setter
            def some_str(self, value: Input[str]):
                pulumi.set(self, "some_str", value)

            @property
            @pulumi.getter(name="from")
            def from_(self) -> Optional[Input[int]]:
                ...

            @from_.setter
            def from_(self, value: Optional[Input[int]]):
                ...
    else:
        @pulumi.input_type
        class LeafArgs:
            some_str: Input[str] = pulumi.property("someStr")
            from_: Optional[Input[int]] = pulumi.property("from", default=None)

    def input_types(L):
        return {"str": str, "int": int, "bool": bool, "float": float, "color": Color, "size": Size, "ratio": Ratio, "any": Any,
                "leaf": pulumi.InputType[L]}

    def input_hint(t, L):
        if isinstance(t, tuple):
            return {"seq": lambda: Sequence[Input[input_hint(t[1], L)]], "map": lambda: Mapping[str, Input[input_hint(t[1], L)]]}[t[0]]()
        return input_types(L)[t]

    def prop(name, wname, hint):
        def fget(self):
            return pulumi.get(self, name)

        def fset(self, v):
            pulumi.set(self, name, v)

        fget.__name__ = fset.__name__ = name
        fget.__annotations__ = {"return": hint}
        return property(pulumi.getter(name=wname)(fget), fset)

    def init(self, **kw):
        for k, v in kw.items():
            pulumi.set(self, k, v)

    Args = pulumi.input_type(type("Args", (), {
        "__init__": init, **{n: prop(n, w, Optional[Input[input_hint(TYPES[n], LeafArgs)]]) for n, w in NAMES.items()}}))

    if style_out == "generated":
        @pulumi.output_type
        class OutLeaf(dict):
            def __init__(__self__, *, some_str, from_=None):
                pulumi.set(__self__, "some_str", some_str)
                if from_ is not None:
                    pulumi.set(__self__, "from_", from_)

            @property
            @pulumi.getter(name="someStr")
            def some_str(self) -> str:
                return pulumi.get(self, "some_str")

            @property
            @pulumi.getter(name="from")
            def from_(self) -> Optional[int]:
                return pulumi.get(self, "from_")
    elif style_out == "plain":
        @pulumi.output_type
        class OutLeaf:
            some_str: str = pulumi.property("someStr")
            from_: Optional[int] = pulumi.property("from")
    elif style_out == "translated":
        @pulumi.output_type
        class OutLeaf(dict):
            some_str: str = pulumi.property("someStr")
            from_: Optional[int] = pulumi.property("from")

            def _translate_property(self, prop):
                return {"someStr": "some_str", "from": "from_"}.get(prop) or prop
    else:
        @pulumi.output_type
        class OutLeaf(dict):
            some_str: str = pulumi.property("someStr")
            from_: Optional[int] = pulumi.property("from")

    def out_hint(t):
        if isinstance(t, tuple):
            return {"seq": lambda: Sequence[out_hint(t[1])], "map": lambda: Mapping[str, out_hint(t[1])]}[t[0]]()
        return {"str": str, "int": int, "bool": bool, "float": float, "color": Color, "size": Size, "ratio": Ratio, "any": Any,
                "leaf": OutLeaf}[t]

    half = list(NAMES)[::2]

    def outs(names):
        if style_out == "generated":
            return {n: property(out_getter(n, NAMES[n], Output[Optional[out_hint(TYPES[n])]])) for n in names}
        return {"__annotations__": {n: Output[Optional[out_hint(TYPES[n])]] for n in names},
                **{n: pulumi.property(NAMES[n]) for n in names}}

    def out_getter(name, wname, hint):
        def fget(self):
            return pulumi.get(self, name)

        fget.__name__ = name
        fget.__annotations__ = {"return": hint}
        return pulumi.getter(name=wname)(fget)

    def rinit(self, name, args, opts=None):
        props = Args.__new__(Args)
        for n in NAMES:
            props.__dict__[n] = args.get(n)
        pulumi.CustomResource.__init__(self, "pkg:mod:Typ", name, props, opts)

    # (annotations declare the properties of their own class only)
    half = half if style_out == "generated" else []
    Base = type("Base", (pulumi.CustomResource,), outs(half))
    # With types declared, the resource's own translators have no say (neither over declared names nor over the keys of maps).
    Res = type("Res", (Base,), {"__init__": rinit, **outs([n for n in NAMES if n not in half]),
                                "translate_input_property": lambda self, prop: "in_" + prop,
                                "translate_output_property": lambda self, prop: "out_" + prop})
    return Args, LeafArgs, Res, OutLeaf


class In:
    """Type-directed inputs with the wire form they must get."""

    def __init__(self, sx, loop, D, Leaf):
        self.sx, self.loop, self.D, self.Leaf = sx, loop, D, Leaf

    def build(self, nm, t):
        sx = self.sx
        v, w = self.bare(nm, t)
        k = sx.choice(nm + ".wrap", ["plain", "output"] + (["await", "coro"] if nm == "v" else []))
        if k == "output":
            K, S = (sx.concrete(sx.bool(nm + ".K")) if self.D else True), sx.concrete(sx.bool(nm + ".S"))
            from pulumi.output import UNKNOWN

            o = mk_output(self.loop, v if K else UNKNOWN, K, S)
            return o, (UNKNOWN_WIRE if not K else {SIG: SECRET, "value": w} if S else w)
        if k == "await":
            return fut(self.loop, v), w
        if k == "coro":
            return coro(v), w
        return v, w

    def bare(self, nm, t):
        sx = self.sx
        if t == "str":
            s = sx.str(nm, 3)
            return s, s
        if t == "int":
            i = sx.int(nm, -1, 2)
            return i, i
        if t == "float":
            return 0.25, 0.25
        if t == "bool":
            b = sx.bool(nm)
            return b, b
        if t in ENUMS:
            m = sx.choice(nm + ".member", list(ENUMS[t]) + ["raw"])
            return (m, m.value) if m != "raw" else (list(ENUMS[t])[0].value,) * 2
        if t == "any":
            return {"some_key": [{"other_key": "x"}], "someKey": 1}, {"some_key": [{"other_key": "x"}], "someKey": 1}
        if t == "leaf":
            form = sx.choice(nm + ".form", ["object", "set", "dict-py", "dict-engine", "dict-extra", "subclass"])
            v, w = self.build(nm + ".some", "str")
            if form == "object":
                return self.Leaf(some_str=v, from_=3), {"someStr": w, "from": 3}
            if form == "set":
                o = self.Leaf(some_str="old")
                o.some_str = v
                return o, {"someStr": w}
            if form == "subclass":
                return type("Sub", (self.Leaf,), {})(some_str=v), {"someStr": w}
            if form == "dict-py":
                return {"some_str": v, "from_": 3}, {"someStr": w, "from": 3}
            if form == "dict-engine":
                return {"someStr": v, "from": 3}, {"someStr": w, "from": 3}
            return {"some_str": v, "the_str": "x"}, {"someStr": w, "the_str": "x"}
        if t[0] == "seq":
            v, w = self.build(nm + ".0", t[1])
            return sx.choice(nm + ".list", [([v], [w]), ([v, {"some_str": "z"}], [w, {"someStr": "z"}]) if t[1] == "leaf"
                                            else ([], [])])
        if t[0] == "map":
            v, w = self.build(nm + ".v", t[1])
            k = sx.choice(nm + ".key", ["some_str", "someStr", "x-y"])
            return {k: v}, {k: w}
        raise AssertionError(t)


class Wire:
    """Type-directed answers with the Python value they must become: -> (wire, expected, secret, unknown)."""

    def __init__(self, sx, OutLeaf, rich):
        self.sx, self.OutLeaf, self.rich = sx, OutLeaf, rich

    def build(self, nm, t):
        sx = self.sx
        k = sx.choice(nm + ".mark", ["plain", "secret", "unknown"] if self.rich else ["plain"])
        if k == "unknown":
            return UNKNOWN_WIRE, None, False, True
        w, e, s, u = self.bare(nm, t)
        return ({SIG: SECRET, "value": w}, e, True, u) if k == "secret" else (w, e, s, u)

    def bare(self, nm, t):
        sx = self.sx
        if t == "str":
            s = sx.str(nm, 3)
            return s, s, False, False
        if t == "int":
            n = sx.choice(nm + ".n", [0, 7, -3])
            return float(n), n, False, False
        if t == "float":
            return 0.25, 0.25, False, False
        if t == "bool":
            b = sx.bool(nm)
            return b, b, False, False
        if t in ENUMS:
            m = sx.choice(nm + ".member", list(ENUMS[t]))
            return m.value, m, False, False
        if t == "any":
            v = {"some_key": [{"other_key": "x"}], "someKey": True}
            return v, v, False, False
        if t == "leaf":
            w, e, s, u = self.build(nm + ".some", "str")
            f = sx.choice(nm + ".from", [{}, {"from": 4.0}, {"from": 4, "some_str": "no", "newer": {"x": 1}}])
            return {"someStr": w, **f}, Obj(self.OutLeaf, some_str=e, from_=4 if f else None), s, u
        if t[0] == "seq":
            n = sx.choice(nm + ".n", [1, 0, 2])
            ps = [self.build(nm + "." + str(i), t[1]) for i in range(n)]
            return [p[0] for p in ps], [p[1] for p in ps], any(p[2] for p in ps), any(p[3] for p in ps)
        if t[0] == "map":
            k = sx.choice(nm + ".key", ["some_str", "someStr"])
            w, e, s, u = self.build(nm + ".v", t[1])
            return {k: w}, {k: e}, s, u
        raise AssertionError(t)


class Obj:
    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields


def matches(sx, got, exp):
    """`got` is the typed value described by `exp`."""
    import pulumi

    if isinstance(exp, Obj):
        if type(got) is not exp.cls:
            return False
        return sx.and_(*[sx.and_(matches(sx, getattr(got, n), v), matches(sx, pulumi.get(got, n), v)) for n, v in exp.fields.items()])
    if isinstance(exp, Enum):
        return got is exp
    if isinstance(exp, list):
        return isinstance(got, list) and len(got) == len(exp) and sx.and_(*[matches(sx, g, e) for g, e in zip(got, exp)])
    if isinstance(exp, dict):
        return type(got) is dict and list(got) == list(exp) and sx.and_(*[matches(sx, got[k], exp[k]) for k in exp])
    if isinstance(exp, bool) or exp is None or isinstance(exp, int) and not isinstance(exp, bool):
        if type(exp) in (int, bool) and type(got) is not type(exp):
            return False
    return same(sx, got, exp)


def inputs(sx, names, style):
    """What the engine is told: engine names, values by the declared types."""
    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        Args, Leaf, Res, OutLeaf = declare(style, "generated")
        n = sx.choice("prop", names)
        t = TYPES[n]
        g = In(sx, loop, D, Leaf)
        v, w = g.build("v", t)
        other = "the_str" if n != "the_str" else "any_value"
        Res("r", {n: v, other: "z"})
        from pulumi.runtime.stack import wait_for_rpcs

        await wait_for_rpcs(False)
        (req,) = mon.sent("RegisterResource")
        got, exp = plain(req.object), {NAMES[n]: w, NAMES[other]: "z"}
        sx.check(wire_eq(sx, got, exp), "inputs-under-engine-names", lambda: (got, exp))

    run(sx, main)


def outputs(sx, names, style, rich=True, op=("register", "read")):
    """What the program sees: Python names, declared types, secrecy and unknowns kept."""
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        Args, Leaf, Res, OutLeaf = declare("annotated", style)
        n = sx.choice("prop", names)
        w, e, s, u = Wire(sx, OutLeaf, rich).build("w", TYPES[n])
        if not D:
            sx.assume(not u)
        resp = {NAMES[n]: w, "other_prop": 1}
        mon.on["RegisterResource"] = lambda req: register_response(req, resp)
        mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn="urn:pulumi:stack::project::pkg:mod:Typ::r", properties=struct(resp))
        opts = pulumi.ResourceOptions(id="the-id") if sx.choice("op", list(op)) == "read" else None
        r = Res("r", {}, opts)
        o = getattr(r, n)
        seen = await observe(o)
        if seen.exc is not None:
            raise seen.exc
        sx.check(sx.iff(seen.known, not u), "known-unless-a-part-is-unknown", lambda: (seen.known, u))
        sx.check(sx.iff(seen.secret, s), "secret-iff-a-part-is-secret", lambda: (seen.secret, s))
        if not u:
            sx.check(matches(sx, seen.value, e), "declared-type-and-names", lambda: (seen.value, e))
            if TYPES[n] == "leaf":
                via = await observe(sx.choice("via", [lambda: o.some_str, lambda: o.apply(lambda v: v.some_str)])())
                sx.check(same(sx, via.value, e.fields["some_str"]), "attribute-through-output", lambda: via.value)
        other = await observe(getattr(r, "the_str" if n != "the_str" else "col"))
        sx.check(other.value is None and other.known is (not D), "unanswered-property-is-empty", lambda: other)

    run(sx, main)


def roundtrip(sx, names, style_in, style_out):
    """An input the engine does not answer becomes the output, typed as declared."""
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        Args, Leaf, Res, OutLeaf = declare(style_in, style_out)
        n = sx.choice("prop", names)
        t = TYPES[n]
        form = sx.choice("form", ["object", "dict-py", "dict-engine"])
        s = sx.str("s", 3)
        leaf = {"object": lambda: Leaf(some_str=s, from_=3), "dict-py": lambda: {"some_str": s, "from_": 3},
                "dict-engine": lambda: {"someStr": s, "from": 3}}[form]()
        el = Obj(OutLeaf, some_str=s, from_=3)
        v, e = {"sub_leaf": lambda: (leaf, el), "leaf_list": lambda: ([leaf, leaf], [el, el]), "leaf_map": lambda: ({"a_b": leaf}, {"a_b": el}),
                "col": lambda: ("darkBlue", Color.DARK_BLUE), "map_list": lambda: ([{"a_b": Size.TWO}], [{"a_b": Size.TWO}])}[n]()
        sec = sx.concrete(sx.bool("secret"))
        mon.on["RegisterResource"] = lambda req: register_response(
            req, {} if sx.choice("answer", ["nothing", "echo"]) == "nothing" else None)
        r = Res("r", {n: mk_output(loop, v, True, True) if sec else v})
        seen = await observe(getattr(r, n))
        if seen.exc is not None:
            raise seen.exc
        sx.check(seen.known is True and sx.iff(seen.secret, sec), "input-flags-kept", lambda: seen)
        sx.check(matches(sx, seen.value, e), "declared-type-and-names", lambda: (seen.value, e))

    run(sx, main)


def classes(sx):
    """Typed values on their own: attributes, items, equality, defaults, setters."""
    import pulumi

    configure(dry_run=False)

    async def main(loop):
        style = sx.choice("style", ["generated", "annotated"])
        out = sx.choice("out", ["generated", "plain", "annotated", "translated"])
        Args, Leaf, Res, OutLeaf = declare(style, out)
        s, s2 = sx.str("s", 2), sx.str("s2", 2)
        a, b = Leaf(some_str=s), Leaf(some_str=s2)
        sx.check(sx.and_(sx.eq(a.some_str, s), a.from_ is None, sx.eq(pulumi.get(a, "some_str"), s)), "attributes-of-inputs")
        a.from_ = 5
        pulumi.set(b, "from_", 5)
        sx.check(a.from_ == 5 and b.from_ == 5, "setters")
        sx.check(sx.iff(a == b, sx.eq(s, s2)), "equality-of-inputs")
        sx.check(sx.not_(a == {"some_str": s}), "not-equal-to-other-types")
        o, p = OutLeaf(some_str=s, from_=1), OutLeaf(some_str=s2, from_=1)
        sx.check(sx.and_(sx.eq(o.some_str, s), o.from_ == 1), "attributes-of-outputs")
        sx.check(sx.iff(o == p, sx.eq(s, s2)), "equality-of-outputs")
        if isinstance(o, dict):
            sx.check(sx.and_(sx.eq(o["some_str"], s), o["from_"] == 1, set(o) == {"some_str", "from_"}), "items-of-outputs", lambda: dict(o))

    run(sx, main)


SHAPES = {
    "symx_p17_part": """
import pulumi
from typing import Any, Dict, Mapping, Optional, Sequence
from pulumi import Input

@pulumi.output_type
class Part(dict):
    def __init__(__self__, *, text=None, get=None, tags=None, sub=None):
        pulumi.set(__self__, "text", text)
        pulumi.set(__self__, "get", get)
        pulumi.set(__self__, "tags", tags)
        pulumi.set(__self__, "sub", sub)
    @property
    @pulumi.getter(name="theText")
    def text(self) -> Optional[str]:
        return pulumi.get(self, "text")
    @property
    @pulumi.getter
    def get(self) -> Optional[str]:
        return pulumi.get(self, "get")
    @property
    @pulumi.getter(name="allTags")
    def tags(self) -> Optional[Sequence[str]]:
        return pulumi.get(self, "tags")
    @property
    @pulumi.getter(name="subPart")
    def sub(self) -> Optional['Part']:
        return pulumi.get(self, "sub")

@pulumi.input_type
class PartArgs:
    def __init__(__self__, *, text=None, get=None, tags=None, sub=None, labels=None, raw=None):
        for k, v in (("text", text), ("get", get), ("tags", tags), ("sub", sub), ("labels", labels), ("raw", raw)):
            if v is not None:
                pulumi.set(__self__, k, v)
    @property
    @pulumi.getter(name="theText")
    def text(self) -> Optional[Input[str]]:
        return pulumi.get(self, "text")
    @property
    @pulumi.getter
    def get(self) -> Optional[Input[str]]:
        return pulumi.get(self, "get")
    @property
    @pulumi.getter(name="allTags")
    def tags(self) -> Optional[Input[Sequence[Input[str]]]]:
        return pulumi.get(self, "tags")
    @property
    @pulumi.getter(name="subPart")
    def sub(self) -> Optional[pulumi.InputType['PartArgs']]:
        return pulumi.get(self, "sub")
    @property
    @pulumi.getter(name="allLabels")
    def labels(self) -> Optional[Input[Mapping[str, Input[str]]]]:
        return pulumi.get(self, "labels")
    @property
    @pulumi.getter(name="rawPart")
    def raw(self) -> Optional['PartArgs']:
        return pulumi.get(self, "raw")
""",
    "symx_p17_base": """
import pulumi
from typing import Optional, Sequence
from symx_p17_part import Part as OnlyHere

class Grand(pulumi.CustomResource):
    @property
    @pulumi.getter(name="grandPart")
    def grand_part(self) -> pulumi.Output[Optional['OnlyHere']]:
        return pulumi.get(self, "grand_part")
    @property
    @pulumi.getter(name="overOld")
    def over(self) -> pulumi.Output[Optional[str]]:
        return pulumi.get(self, "over")
    @property
    @pulumi.getter(name="theKind")
    def kind(self) -> pulumi.Output[Optional[str]]:
        return pulumi.get(self, "kind")
""",
    "symx_p17_res": """
import collections.abc
import pulumi
from typing import Mapping, Optional, Sequence, Union
from pulumi import Input
import symx_p17_part as parts
from symx_p17_base import Grand

class Mid(Grand):
    @property
    @pulumi.getter(name="overNew")
    def over(self) -> pulumi.Output[Optional['parts.Part']]:
        return pulumi.get(self, "over")
    @property
    @pulumi.getter(name="theKind")
    def kind(self) -> pulumi.Output[Optional['parts.Part']]:
        return pulumi.get(self, "kind")

class Res(Mid):
    bare_list: pulumi.Output[Optional[list]] = pulumi.property("bareList")
    bare_seq: pulumi.Output[Optional[collections.abc.Sequence]] = pulumi.property("bareSeq")
    typing_seq: pulumi.Output[Optional[Sequence]] = pulumi.property("typingSeq")
    bare_dict: pulumi.Output[Optional[dict]] = pulumi.property("bareDict")
    list_of: pulumi.Output[Optional[list['parts.Part']]] = pulumi.property("listOf")
    abc_seq_of: pulumi.Output[Optional[Sequence[Optional['parts.Part']]]] = pulumi.property("abcSeqOf")
    map_of: pulumi.Output[Optional[Mapping[str, 'parts.Part']]] = pulumi.property("mapOf")
    noted: pulumi.Output[Optional['parts.Part']] = pulumi.property("notedPart")
    @property
    @pulumi.getter(name="gotPart")
    def got(self) -> pulumi.Output[Optional['parts.Part']]:
        return pulumi.get(self, "got")

    def __init__(self, name, opts=None, **args):
        props = Args.__new__(Args)
        for k in ("bare_list", "bare_seq", "typing_seq", "bare_dict", "list_of", "abc_seq_of", "map_of", "grand_part", "over", "kind", "noted", "got", "plain_in", "dict_in", "seq_in"):
            props.__dict__[k] = args.get(k)
        super().__init__("pkg:mod:Typ", name, props, opts)

@pulumi.input_type
class Args:
    @property
    @pulumi.getter(name="gotPart")
    def got(self) -> Optional[Input[pulumi.InputType['parts.PartArgs']]]:
        return pulumi.get(self, "got")
    @property
    @pulumi.getter(name="notedPart")
    def noted(self) -> Input[pulumi.InputType['parts.PartArgs']]:
        return pulumi.get(self, "noted")
    @property
    @pulumi.getter(name="overNew")
    def over(self) -> Optional[pulumi.InputType['parts.PartArgs']]:
        return pulumi.get(self, "over")
    @property
    @pulumi.getter(name="grandPart")
    def grand_part(self) -> pulumi.InputType['parts.PartArgs']:
        return pulumi.get(self, "grand_part")
    @property
    @pulumi.getter(name="plainIn")
    def plain_in(self) -> Input['parts.PartArgs']:
        return pulumi.get(self, "plain_in")
    @property
    @pulumi.getter(name="dictIn")
    def dict_in(self) -> Optional[Input[Union['parts.PartArgs', dict]]]:
        return pulumi.get(self, "dict_in")
    @property
    @pulumi.getter(name="seqIn")
    def seq_in(self) -> Optional[Input[Sequence[Input[pulumi.InputType['parts.PartArgs']]]]]:
        return pulumi.get(self, "seq_in")
"""}


@functools.lru_cache(None)
def shapes():
    """Classes of several modules: forward references, inheritance, overridden and oddly named properties."""
    import sys
    import types

    for n, src in SHAPES.items():
        m = sys.modules[n] = types.ModuleType(n)
        exec(compile(src, n, "exec"), m.__dict__)  # noqa
    return sys.modules["symx_p17_part"], sys.modules["symx_p17_res"]


HOLDERS = {"bare_list": "bareList", "bare_seq": "bareSeq", "typing_seq": "typingSeq", "bare_dict": "bareDict", "list_of": "listOf",
           "abc_seq_of": "abcSeqOf", "map_of": "mapOf"}
OUT_SHAPES = {"grand_part": "grandPart", "over": "overNew", "kind": "theKind", "noted": "notedPart", "got": "gotPart"}
IN_SHAPES = {"got": "gotPart", "noted": "notedPart", "over": "overNew", "grand_part": "grandPart", "plain_in": "plainIn", "dict_in": "dictIn",
             "seq_in": "seqIn"}


def shaped_inputs(sx):
    """However a property is annotated and wherever its type is defined, nested values go under their engine names, and nothing is lost."""
    import pulumi

    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        parts, m = shapes()
        n = sx.choice("prop", list(IN_SHAPES) + ["names"])
        s = sx.str("s", 2)
        if n == "names":
            names, eng = ["over", "grand_part", "unknownName", "got"], ["overNew", "grandPart", "unknownName", "gotPart"]
            m.Res("r", pulumi.ResourceOptions(additional_secret_outputs=names, ignore_changes=names, replace_on_changes=names))
            from pulumi.runtime.stack import wait_for_rpcs

            await wait_for_rpcs(False)
            (req,) = mon.sent("RegisterResource")
            sx.check(list(req.additionalSecretOutputs) == eng and list(req.ignoreChanges) == eng and list(req.replaceOnChanges) == eng,
                     "options-under-engine-names", lambda: (list(req.additionalSecretOutputs), list(req.ignoreChanges), list(req.replaceOnChanges)))
            return
        as_dict = sx.choice("form", ["object", "dict"]) == "dict"

        def part(**kw):
            return kw if as_dict else parts.PartArgs(**kw)

        kw, w = sx.choice("what", [
            lambda: ({"text": s, "get": "g"}, {"theText": s, "get": "g"}), lambda: ({"tags": []}, {"allTags": []}),
            lambda: ({"labels": {}}, {"allLabels": {}}), lambda: ({"labels": {"text": s}, "tags": [s]}, {"allLabels": {"text": s}, "allTags": [s]}),
            lambda: ({"sub": part(text=s)}, {"subPart": {"theText": s}}), lambda: ({"raw": part(text=s, tags=[])}, {"rawPart": {"theText": s, "allTags": []}}),
            lambda: ({"text": ""}, {"theText": ""}), lambda: ({}, {})])()
        v = part(**kw)
        if n == "seq_in":
            v, w = sx.choice("n", [([v], [w]), ([v, v], [w, w]), ([], [])])
        m.Res("r", **{n: mk_output(loop, v) if sx.choice("wrap", 2) else v})
        from pulumi.runtime.stack import wait_for_rpcs

        await wait_for_rpcs(False)
        (req,) = mon.sent("RegisterResource")
        sx.check(wire_eq(sx, req.object, {IN_SHAPES[n]: w}), "inputs-under-engine-names", lambda: (plain(req.object), w))

    run(sx, main)


def shaped_outputs(sx):
    """Wherever a property and its type are declared, the program sees it typed and named as declared - also when got by its urn."""
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        parts, m = shapes()
        every = {**OUT_SHAPES, **HOLDERS}
        n = sx.choice("prop", list(every))
        s = sx.str("s", 2)
        P = lambda **kw: Obj(parts.Part, **{**dict(text=None, get=None, tags=None, sub=None), **kw})  # noqa
        w, e = sx.choice("what", [
            lambda: ({"theText": s, "get": "g"}, P(text=s, get="g")), lambda: ({"allTags": [s, ""]}, P(tags=[s, ""])), lambda: ({"allTags": []}, P(tags=[])),
            lambda: ({"allTags": [s, None]}, P(tags=[s, None])), lambda: ({"subPart": {"theText": s, "get": s}}, P(sub=P(text=s, get=s))), lambda: ({}, P()), lambda: (None, None)])()
        if n in HOLDERS:
            if n.startswith("bare") or n.startswith("typing"):
                e = w
            if n in ("bare_dict", "map_of"):
                w, e = {"theText": w}, {"theText": e}
                if w["theText"] is None:
                    w, e = {}, {}
            elif w is None and n != "list_of":
                w, e = [None], [None]
            elif w is None:
                w, e = [], []
            else:
                w, e = [w, w], [e, e]
        resp = {every[n]: w}
        mon.on["RegisterResource"] = lambda req: register_response(req, resp)
        urn = "urn:pulumi:stack::project::pkg:mod:Typ::r"
        mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn=urn, properties=struct(resp))
        mon.on["Invoke"] = lambda req: invoke_response({"urn": urn, "id": "i", "state": resp})
        opts = sx.choice("op", [lambda: None, lambda: pulumi.ResourceOptions(id="i"), lambda: pulumi.ResourceOptions(urn=urn)])()
        r = m.Res("r", opts)
        for k in every:
            seen = await observe(getattr(r, k))
            if seen.exc is not None:
                raise seen.exc
            sx.check(seen.known is True and matches(sx, seen.value, e if k == n else None), "declared-type-and-names", lambda: (k, seen.value, e))  # noqa: B023

    run(sx, main)


def translated(sx):
    """A type that translates its names keeps its items under the translated ones; equality is mutual."""
    import pulumi

    configure(dry_run=False)

    async def main(loop):
        @pulumi.output_type
        class T(dict):
            def __init__(self, text_=None, other=None):
                pulumi.set(self, "text_", text_)
                pulumi.set(self, "other", other)

            text_: Optional[str] = pulumi.property("theText")
            other: Optional[str] = pulumi.property("other")

            def _translate_property(self, prop):
                return {"theText": "the_text", "other": "an_other"}.get(prop) or prop

        s = sx.str("s", 2)
        o = T(text_=s, other="x")
        sx.check(set(o) == {"the_text", "an_other"} and sx.eq(o["the_text"], s) and o["an_other"] == "x", "items-under-translated-names",
                 lambda: dict(o))
        sx.check(sx.and_(sx.eq(o.text_, s), o.other == "x", sx.eq(pulumi.get(o, "text_"), s)), "attributes-of-outputs")
        style = sx.choice("style", ["generated", "annotated"])
        Args, Leaf, Res, OutLeaf = declare(style, style)
        for C in (Leaf, OutLeaf):
            a, b = C(some_str=s, from_=1), type("Sub", (C,), {})(some_str=s, from_=1)
            sx.check(sx.iff(a == b, b == a), "equality-is-mutual")
            sx.check(sx.not_(a == b), "not-equal-to-other-types")

    run(sx, main)


ALL = list(NAMES)
SIMPLE = ["the_str", "num_", "flag_on", "a_float", "col", "size_of", "ratio_r", "any_value"]
NESTED = ["sub_leaf", "leaf_list", "leaf_map", "map_list"]
CELLS = [
    Cell("in-simple", inputs, dict(names=SIMPLE, style="generated")),
    Cell("in-nested", inputs, dict(names=NESTED, style="generated")),
    Cell("in-annotated", inputs, dict(names=NESTED, style="annotated")),
    Cell("out-simple", outputs, dict(names=SIMPLE, style="generated")),
    Cell("out-nested", outputs, dict(names=NESTED, style="generated")),
    Cell("out-annotated", outputs, dict(names=ALL, style="annotated")),
    Cell("out-plain", outputs, dict(names=NESTED, style="plain")),
    Cell("out-translated", outputs, dict(names=NESTED, style="translated")),
    Cell("roundtrip", roundtrip, dict(names=["sub_leaf", "leaf_list", "leaf_map", "col", "map_list"], style_in="generated", style_out="generated")),
    Cell("roundtrip-annotated", roundtrip, dict(names=["sub_leaf", "leaf_list", "leaf_map"], style_in="annotated", style_out="annotated")),
    Cell("classes", classes),
    Cell("shaped-inputs", shaped_inputs),
    Cell("shaped-outputs", shaped_outputs),
    Cell("translated", translated),
]
