"""Structured provider settings are encoded as JSON, under the names the provider knows."""
import contextlib
import json
from collections import abc
from typing import Any, Mapping, Optional, Sequence

from .lib import *

ANCHORS = ("pulumi.runtime._json.", "pulumi._types.input_type_to_dict")
BOUNDS = ("values of up to three levels (thorough: four) of lists, maps and input classes written as generated ones or plain ones, with every subset of their fields; "
          "symbolic texts <= 2, numbers and flags; given plainly, as outputs and inside outputs")
OUTSIDE = "the text that json.dumps makes of plain lists and maps (replayed concretely only), tuples, other sequences"


@contextlib.contextmanager
def encoder(sx):
    """Symbolically, json.dumps keeps what it was given; replayed, it is real."""
    from pulumi.runtime import _json
    import sys

    if "symx.instrument" not in sys.modules:
        yield json.loads
        return
    kept = []

    class Fake:
        def __getattr__(self, n):
            return getattr(json, n)

        @staticmethod
        def dumps(obj, **kw):
            kept.append(jsonable(obj))
            return "json-%d" % (len(kept) - 1)

    saved = _json.json
    _json.json = Fake()
    try:
        yield lambda s: kept[int(s[5:])]
    finally:
        _json.json = saved


def jsonable(v):
    """What json.dumps accepts, as a tree; it knows dicts, lists and tuples only."""
    if isinstance(v, dict):
        for k in v:
            if not isinstance(k, str):
                raise TypeError("keys must be str")
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if v is None or hasattr(v, "__sx__") or isinstance(v, (str, bool, int, float)):
        return v
    raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)


def classes():
    import pulumi
    from pulumi import Input

    @pulumi.input_type
    class Generated:
        def __init__(__self__, *, some_str=None, from_=None, inner_values=None, same=None):
            if some_str is not None:
                pulumi.set(__self__, "some_str", some_str)
            if from_ is not None:
                pulumi.set(__self__, "from_", from_)
            if inner_values is not None:
                pulumi.set(__self__, "inner_values", inner_values)
            if same is not None:
                pulumi.set(__self__, "same", same)

        @property
        @pulumi.getter(name="someStr")
        def some_str(self) -> Optional[Input[str]]:
            return pulumi.get(self, "some_str")

        @some_str.setter
        def some_str(self, value: Optional[Input[str]]):
            pulumi.set(self, "some_str", value)

        @property
        @pulumi.getter(name="from")
        def from_(self) -> Optional[Input[Any]]:
            return pulumi.get(self, "from_")

        @property
        @pulumi.getter(name="innerValues")
        def inner_values(self) -> Optional[Input[Any]]:
            return pulumi.get(self, "inner_values")

        @property
        @pulumi.getter
        def same(self) -> Optional[Input[Any]]:
            return pulumi.get(self, "same")

    @pulumi.input_type
    class Plain:
        some_str: Optional[Input[str]] = pulumi.property("someStr", default=None)
        from_: Optional[Input[Any]] = pulumi.property("from", default=None)
        inner_values: Optional[Input[Any]] = pulumi.property("innerValues", default=None)
        same: Optional[Input[Any]] = None

    return {"generated": Generated, "plain": Plain}


WIRE = dict(some_str="someStr", from_="from", inner_values="innerValues", same="same")


class ReadOnly(abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Values(abc.Sequence):
    """A sequence that is not a list."""

    def __init__(self, l):
        self.l = l

    def __getitem__(self, i):
        return self.l[i]

    def __len__(self):
        return len(self.l)


def build(sx, cls, nm, depth, top=False, kinds=("list", "dict", "generated", "plain", "mapping", "sequence")):
    """-> (value, what JSON should hold)"""
    leaves = ("str", "int", "bool", "none", "text")
    k = sx.choice(nm + "-kind", (kinds if depth else ()) + (() if top and depth else leaves))
    if k in leaves:
        v = {"str": lambda: sx.str(nm + "-s", 2), "int": lambda: sx.int(nm + "-i", -2, 2), "bool": lambda: sx.concrete(sx.bool(nm + "-b")), "none": lambda: None,
             "text": lambda: "some_text"}[k]()
        return v, v
    sub = lambda s: build(sx, cls, nm + s, depth - 1, kinds=kinds)  # noqa
    if k in ("list", "sequence"):
        vs = [sub("-%d" % i) for i in range(sx.choice(nm + "-n", 3) if depth < 2 else sx.choice(nm + "-n", 2))]
        l = [v for v, _ in vs]
        return (Values(l) if k == "sequence" else l), [w for _, w in vs]
    if k in ("dict", "mapping"):
        ks = [["some_str"], [], ["some_str", "innerValues"]][sx.choice(nm + "-keys", 3 if depth < 2 else 2)]
        vs = {x: sub("-" + x) for x in ks}
        d = {x: v for x, (v, _) in vs.items()}
        return (ReadOnly(d) if k == "mapping" else d), {x: w for x, (_, w) in vs.items()}
    fs = sx.choice(nm + "-fields", [("inner_values",), (), ("some_str", "inner_values"), ("from_", "same")][:4 if depth < 2 else 3])
    vs = {}
    for f in fs:
        vs[f] = sub("-" + f) if f in ("inner_values", "from_") else (lambda v: (v, v))(sx.str(nm + f, 2))
    return cls[k](**{f: v for f, (v, _) in vs.items()}), {WIRE[f]: w for f, (v, w) in vs.items() if v is not None}


def equal(sx, got, want):
    if isinstance(want, (dict, list)) or isinstance(got, (dict, list)):
        return wire_eq(sx, got, want)
    if want is None or got is None:
        return want is None and got is None
    if isinstance(want, bool) != isinstance(got, bool) and not hasattr(got, "__sx__"):
        return False
    return sx.eq(got, want)


def encoded(sx, depth, kinds, top=True):
    import pulumi

    configure(dry_run=False, monitor=basic_monitor())
    v, want = build(sx, classes(), "v", depth, top=top, kinds=kinds)
    with encoder(sx) as decode:
        got = decode(pulumi.runtime.to_json(v))
    sx.check(equal(sx, got, want), "settings-are-encoded-under-their-names", lambda: (got, want))
    sx.check(equal(sx, back(v), want), "settings-are-not-changed", lambda: (v, want))


def back(v):
    """The value of a built setting, as it is now."""
    import pulumi

    if isinstance(v, (abc.Mapping,)) and not pulumi._types.is_input_type(type(v)):
        return {k: back(x) for k, x in v.items()}
    if isinstance(v, (list, Values)):
        return [back(x) for x in v]
    if type(v).__name__ in ("Generated", "Plain"):
        d = {WIRE[f]: getattr(v, f) for f in WIRE}
        return {k: back(x) for k, x in d.items() if x is not None}
    return v


def provider(sx, kinds):
    """As generated providers do it: settings that are or contain outputs."""
    import pulumi

    how = sx.choice("how", ("plain", "output", "inside"))
    secret = sx.choice("secret", 2) if how != "plain" else 0
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)
    cls = classes()
    with encoder(sx) as decode:
        async def main(loop):
            v, want = build(sx, cls, "v", 1, top=True, kinds=kinds)
            if how == "output":
                v = pulumi.Output.secret(v) if secret else pulumi.Output.from_input(v)
            if how == "inside":
                x = sx.str("x", 2)
                v = cls[sx.choice("style", ("generated", "plain"))](some_str=mk_output(loop, x, True, bool(secret)), from_=v)
                want = dict({"someStr": x}, **({"from": want} if want is not None else {}))
            p = pulumi.ProviderResource("pkg", "prov", {"features": pulumi.Output.from_input(v).apply(pulumi.runtime.to_json)})
            await observe(p.urn)
            return want

        from .lib import run_loop

        want, exc, loop = run_loop(sx, main)
        if exc is not None:
            raise exc
        reqs = mon.sent("RegisterResource")
        sx.check(len(reqs) == 1, "providers-are-registered-once", lambda: len(reqs))
        for r in reqs:
            f = plain(r.object).get("features")
            if secret:
                sx.check(isinstance(f, dict) and f.get(SIG) == SECRET, "secret-settings-stay-secret", lambda: f)
                f = f["value"]
            sx.check(isinstance(f, str), "settings-are-texts", lambda: f)
            got = decode(f)
            sx.check(equal(sx, got, want), "settings-are-encoded-under-their-names", lambda: (got, want))


ALL = ("list", "dict", "generated", "plain", "mapping", "sequence")
CELLS = [
    Cell("flat", encoded, dict(depth=1, kinds=ALL, top=False)),
    Cell("nested", encoded, dict(depth=2, kinds=("list", "dict", "generated", "plain")), ("quick",)),
    Cell("mappings", encoded, dict(depth=2, kinds=("mapping", "sequence", "generated")), ("quick",)),
    Cell("deep", encoded, dict(depth=3, kinds=("generated", "list"))),
    Cell("provider", provider, dict(kinds=("list", "dict", "generated", "plain"))),
    Cell("nested-all", encoded, dict(depth=2, kinds=ALL)),
    Cell("deep-all", encoded, dict(depth=3, kinds=("list", "dict", "generated", "plain"))),
    Cell("deepest", encoded, dict(depth=4, kinds=("generated", "list"))),
]
