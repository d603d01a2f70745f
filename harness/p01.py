"""Output.apply: secrecy, knownness, dependencies, execution and failure of derived values."""
from .lib import *

ANCHORS = ("pulumi.output.Output.apply", "pulumi.output.Output.__", "pulumi.output.Output.future",
           "pulumi.output.Output.is_", "pulumi.runtime.rpc.contains_unknowns")
BOUNDS = ("one apply on an arbitrary source output (symbolic known/secret flags, symbolic payload, value kinds: "
          "string, number, None, list/dict with and without a nested unknown (lists of 13, depth 10), failing), symbolic preview flag and "
          "run_with_unknowns; callback result kinds: plain, None, unknown-bearing, awaitable, failing awaitable, "
          "arbitrary output, raising; chains of two applies; all completion orders of up to 4 (quick) / 7 (thorough) "
          "outstanding futures")
OUTSIDE = "deeper chains follow inductively (the source output is arbitrary); custom event loop implementations"


def gen_value(sx, nm, kinds):
    from pulumi.output import UNKNOWN

    k = sx.choice(nm + ".kind", kinds)
    if k == "str":
        return sx.str(nm + ".s", 4)
    if k == "num":
        return sx.int(nm + ".n", -2, 2)
    if k == "none":
        return None
    if k == "bool":
        return sx.bool(nm + ".b")
    if k == "unk":
        return UNKNOWN
    if k == "listunk":
        return [sx.str(nm + ".s", 2), UNKNOWN]
    if k == "dictunk":
        return {"a": 1, "b": {"c": [UNKNOWN]}}
    if k == "wideunk":
        return [sx.str(nm + ".s", 2)] * 12 + [UNKNOWN]
    if k == "wide":
        return [sx.str(nm + ".s", 2)] * 13
    if k == "deepunk":
        v = [sx.str(nm + ".s", 2), UNKNOWN]
        for i in range(9):
            v = [i, v] if i % 2 else {"x": 1, "y": v}
        return v
    if k == "list":
        return [sx.str(nm + ".s", 2), None]
    if k == "dict":
        return {"a": sx.str(nm + ".s", 2)}
    if k == "elist":
        return []
    if k == "edict":
        return {}
    raise AssertionError(k)


ALLV = ["str", "num", "none", "unk", "listunk", "dictunk", "list", "dict", "bool", "elist",
        "edict"]


def apply_cell(sx, vkinds, results, ext=(), inner_ext=(), fails=False, preempt=0, instance=True):
    from pulumi import Output
    from pulumi.output import Unknown

    D = sx.bool("dry_run")
    configure(dry_run=D)
    R = [Tok(i) for i in range(4)]

    async def main(loop):
        K, S = sx.bool("K"), sx.bool("S")
        W = sx.choice("W", [None, True, False])
        V = gen_value(sx, "V", vkinds)
        F = sx.choice("F", [False, True]) if fails else False
        outer_exc = Boom("outer") if F else None
        deps = subset_choice(sx, "deps", R[:2])
        o = mk_output(loop, V, K, S, deps, exc=outer_exc, ext=set(ext))
        vu = has_unknown(V)
        calls = []
        res = sx.choice("res", results)
        inner = {}

        def func(v):
            calls.append(v)
            if res == "raise":
                raise Boom("cb")
            if res == "plain":
                inner.update(v=gen_value(sx, "I", ["str", "none", "listunk", "bool", "elist"]), k=True, s=False, d=[])
                return inner["v"]
            if res == "identity":
                inner.update(v=v, k=True, s=False, d=[])
                return v
            if res == "await":
                inner.update(v=gen_value(sx, "I", ["str", "unk"]), k=True, s=False, d=[])
                return quiet(fut(loop, inner["v"], ext="aw" if "aw" in inner_ext else None))
            if res == "awaitfail":
                inner.update(exc=True)
                return quiet(fut(loop, None, Boom("aw"), ext="aw" if "aw" in inner_ext else None))
            if res == "coro":
                inner.update(v=sx.str("I.s", 3), k=True, s=False, d=[])

                async def c():
                    return inner["v"]

                return c()
            if res == "output":
                inner.update(v=gen_value(sx, "I", ["str", "none", "listunk"]), k=sx.bool("IK"), s=sx.bool("IS"),
                             d=subset_choice(sx, "Ideps", R[1:3]))
                return mk_output(loop, inner["v"], inner["k"], inner["s"], inner["d"], ext=set(inner_ext))
            if res == "outputfail":
                inner.update(exc=True, s=True)
                return mk_output(loop, None, True, True, [R[3]], exc=Boom("inner"), ext=set(inner_ext))
            raise AssertionError(res)

        r = o.apply(func, W) if W is not None else o.apply(func)
        got = await observe(r)
        kk = False if vu else K  # effective knownness of the source
        sx.check(len(calls) <= 1, "callback-at-most-once", lambda: calls)
        if F:
            sx.check(not calls, "callback-not-run-on-failed-source")
            sx.check(isinstance(got.exc, Boom), "failure-propagates", lambda: got)
            return
        should = sx.or_(sx.not_(D), kk, W is True)
        sx.check(sx.iff(len(calls) == 1, should), "callback-runs-iff", lambda: (len(calls), W))
        if not calls:
            sx.check(got.exc is None, "skipped-no-exception", lambda: got)
            sx.check(sx.not_(got.known), "skipped-unknown", lambda: got)
            sx.check(sx.iff(got.secret, S), "skipped-secret-kept", lambda: got)
            sx.check(got.deps == set(deps), "skipped-deps-kept", lambda: got)
            return
        arg = calls[0]
        # what the callback sees: the value, or unknown when asked to run on a value that is not known
        collapse = sx.and_(D, sx.not_(kk), not vu)
        if isinstance(arg, Unknown) and not isinstance(V, Unknown):
            sx.check(collapse, "callback-sees-unknown-only-if-unknown", lambda: arg)
        else:
            sx.check(sx.not_(collapse), "callback-must-see-unknown", lambda: arg)
            sx.check(same(sx, arg, V), "callback-sees-value", lambda: (arg, V))
        if res in ("raise", "awaitfail", "outputfail"):
            sx.check(isinstance(got.exc, Boom), "failure-propagates", lambda: got)
            sx.check(got.exc_deps is None and got.deps is not None and set(deps) <= got.deps, "failure-deps-settle",
                     lambda: got)
            if res in ("awaitfail",):
                sx.check(sx.implies(S, got.secret), "failure-secret-kept", lambda: got)
            return
        sx.check(got.exc is None, "no-exception", lambda: got.exc)
        exp = inner["v"]
        sx.check(same(sx, got.value, exp), "result-value", lambda: (got.value, exp))
        sx.check(sx.iff(got.secret, sx.or_(S, inner["s"])), "result-secret-is-or", lambda: got)
        sx.check(sx.iff(got.known, sx.and_(inner["k"], not has_unknown(exp))), "result-known", lambda: got)
        sx.check(got.deps == set(deps) | set(inner["d"]), "result-deps-union", lambda: (got.deps, deps, inner))
        if has_unknown(exp):
            sx.check(got.plainvalue is None, "unknown-hidden-by-default", lambda: got.plainvalue)
        else:
            sx.check(same(sx, got.plainvalue, exp), "future-value", lambda: got.plainvalue)

    _, exc, loop = run_loop(sx, main, preempt=preempt)
    if isinstance(exc, Hang):
        sx.check(False, "never-hangs", lambda: loop.fired)
    elif exc is not None:
        raise exc
    else:
        sx.check(True, "never-hangs")


def chain_cell(sx, preempt=0):
    """Two chained applies, secrecy/known/deps compose (source arbitrary)."""
    D = sx.bool("dry_run")
    configure(dry_run=D)
    R = [Tok(i) for i in range(3)]

    async def main(loop):
        K, S = sx.bool("K"), sx.bool("S")
        K1, S1 = sx.bool("K1"), sx.bool("S1")
        K2, S2 = sx.bool("K2"), sx.bool("S2")
        a, b, c = sx.str("a", 3), sx.str("b", 3), sx.str("c", 3)
        o = mk_output(loop, a, K, S, [R[0]])
        ran = []

        def f1(v):
            ran.append(1)
            return mk_output(loop, b, K1, S1, [R[1]])

        def f2(v):
            ran.append(2)
            sx.check(sx.eq(v, b), "chain-second-sees-first-result", lambda: v)
            return mk_output(loop, c, K2, S2, [R[2]])

        r = o.apply(f1).apply(f2)
        got = await observe(r)
        r1, r2 = 1 in ran, 2 in ran
        sx.check(sx.iff(r1, sx.or_(sx.not_(D), K)), "chain-first-runs")
        sx.check(sx.iff(r2, sx.or_(sx.not_(D), sx.and_(K, K1))), "chain-second-runs")
        sx.check(sx.iff(got.secret, sx.or_(S, sx.and_(r1, S1), sx.and_(r2, S2))), "chain-secret", lambda: got)
        sx.check(sx.iff(got.known, sx.and_(r1, r2, K2)), "chain-known", lambda: got)
        exp = {R[0]} | ({R[1]} if r1 else set()) | ({R[2]} if r2 else set())
        sx.check(got.deps == exp, "chain-deps", lambda: (got.deps, exp))

    _, exc, loop = run_loop(sx, main, preempt=preempt)
    if exc is not None:
        raise exc


def lift_cell(sx):
    """Attribute access and indexing on outputs."""
    from pulumi.output import UNKNOWN, Unknown

    D = sx.bool("dry_run")
    configure(dry_run=D)
    R = [Tok(0)]

    class Obj:
        pass

    async def main(loop):
        K, S = sx.bool("K"), sx.bool("S")
        leafk = sx.choice("leaf", ["str", "unk", "none"])
        leaf = {"str": lambda: sx.str("leaf.s", 3), "unk": lambda: UNKNOWN, "none": lambda: None}[leafk]()
        how = sx.choice("how", ["item", "index", "attr", "whole-unknown", "item2"])
        ob = Obj()
        ob.foo = leaf
        V = {"item": {"foo": leaf, "z": 1}, "index": [0, leaf], "attr": ob, "whole-unknown": UNKNOWN,
             "item2": {"foo": {"bar": leaf}}}[how]
        o = mk_output(loop, V, K, S, R)
        r = {"item": lambda: o["foo"], "index": lambda: o[1], "attr": lambda: o.foo,
             "whole-unknown": lambda: o["foo"], "item2": lambda: o["foo"]["bar"]}[how]()
        got = await observe(r)
        sx.check(got.exc is None, "lift-no-exception", lambda: got.exc)
        sx.check(sx.iff(got.secret, S), "lift-secret", lambda: got)
        sx.check(got.deps == set(R), "lift-deps", lambda: got)
        vu = has_unknown(V) or leaf is UNKNOWN and how != "attr"
        if how == "whole-unknown" or leaf is UNKNOWN:
            sx.check(sx.not_(got.known), "lift-unknown", lambda: got)
        else:
            # in an update the value is used as is; in a preview only a known source yields a known result
            sx.check(sx.implies(sx.and_(D, sx.not_(K)), sx.not_(got.known)), "lift-unknown-source", lambda: got)
            sx.check(sx.implies(K, got.known), "lift-known-source", lambda: got)
            if sx.concrete(sx.or_(K, sx.not_(D))):
                sx.check(same(sx, got.value, leaf), "lift-value", lambda: (got.value, leaf))

    _, exc, loop = run_loop(sx, main)
    if exc is not None:
        raise exc


def partial_cell(sx):
    """Reaching into a value of which other parts are unknown gives the known part; reaching for what is not there fails."""
    from pulumi.output import UNKNOWN

    configure(dry_run=sx.bool("dry_run"))
    R = [Tok(0)]

    class Obj:
        pass

    class Both(dict):
        """A typed value: attributes and items (what `@output_type` classes of older providers are)."""

        foo = property(lambda self: self["foo"])

    async def main(loop):
        S = sx.bool("S")
        leaf = sx.str("leaf", 3)
        other = sx.choice("other", ["unknown", "known", "deep-unknown"])
        rest = {"unknown": UNKNOWN, "known": 1, "deep-unknown": [{"x": UNKNOWN}]}[other]
        ob = Obj()
        ob.foo, ob.rest = leaf, rest
        how = sx.choice("how", ["item", "index", "last", "attr", "attr-dict", "item2", "no-item", "no-index", "no-attr", "no-value"])
        V = {"item": {"z": rest, "foo": leaf}, "index": [rest, leaf], "last": [rest, leaf], "attr": ob, "attr-dict": Both(foo=leaf, z=rest), "item2": {"foo": {"bar": leaf, "z": rest}, "y": rest},
             "no-item": {"z": rest}, "no-index": [rest], "no-attr": ob, "no-value": None}[how]
        o = mk_output(loop, V, True, S, R)
        r = {"item": lambda: o["foo"], "index": lambda: o[1], "last": lambda: o[-1], "attr": lambda: o.foo, "attr-dict": lambda: o.foo, "item2": lambda: o["foo"]["bar"],
             "no-item": lambda: o["foo"], "no-index": lambda: o[1], "no-attr": lambda: o.bar, "no-value": lambda: o["foo"]}[how]()
        got = await observe(r)
        if how.startswith("no-"):
            sx.check(isinstance(got.exc, (KeyError, IndexError, AttributeError, TypeError)), "lift-missing-fails", lambda: (how, got))
            return
        sx.check(got.exc is None, "lift-no-exception", lambda: got.exc)
        sx.check(sx.iff(got.secret, S), "lift-secret", lambda: got)
        sx.check(got.deps == set(R), "lift-deps", lambda: got)
        sx.check(sx.and_(got.known, sx.eq(got.value, leaf)), "lift-known-part", lambda: (how, other, got))

    _, exc, loop = run_loop(sx, main)
    if exc is not None:
        raise exc


E4 = ("val", "known", "sec", "res")
CELLS = [
    Cell("apply", apply_cell, dict(vkinds=ALLV, results=["raise", "plain", "identity", "await", "awaitfail", "coro",
                                                         "output", "outputfail"], fails=True), weight=3),
    Cell("apply-orders-outer", apply_cell, dict(vkinds=["str", "listunk"], results=["plain", "output", "raise"],
                                                ext=E4, fails=True), weight=3),
    Cell("apply-orders-inner", apply_cell, dict(vkinds=["str"], results=["output", "await", "awaitfail",
                                                                         "outputfail"],
                                                inner_ext=E4 + ("aw",)), weight=3),
    Cell("apply-orders-both", apply_cell, dict(vkinds=["str"], results=["output"], ext=("val", "sec", "known"),
                                               inner_ext=("val", "sec", "res"), preempt=1), tiers=("thorough",)),
    Cell("apply-large", apply_cell, dict(vkinds=["wide", "wideunk", "deepunk"], results=["identity", "plain", "output"])),
    Cell("chain", chain_cell),
    Cell("lift", lift_cell),
    Cell("lift-partial", partial_cell),
]
