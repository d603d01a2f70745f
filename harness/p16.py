"""Configuration: every getter returns the configured value, typed, defaulted and secret as asked."""
import contextlib
import json
import os

from .lib import *

ANCHORS = ("pulumi.config.", "pulumi.runtime.config.", "pulumi.metadata.get_project")
BOUNDS = ("every getter (get/require x plain/secret x text, bool, int, float, object); symbolic values of up to 6 characters (any "
          "Unicode text; numbers over ASCII), symbolic defaults; values from the program's configuration, a "
          "PULUMI_CONFIG_<KEY> variable and the PULUMI_CONFIG variable in every combination; symbolic bag or key names of "
          "up to 3 characters; histories of three assignments")
OUTSIDE = ("numbers written with non-ASCII digits or spaces; the value of fractional and underscored number literals is compared "
           "for enumerated literals only; configured JSON `null`")

ASCII = [("\x00", "\x7f")]
INT = "[ \\t\\n\\r\\x0b\\x0c]*[+-]?[0-9](_?[0-9])*[ \\t\\n\\r\\x0b\\x0c]*"


@contextlib.contextmanager
def environ(**kw):
    """A process environment holding (possibly symbolic) values."""
    saved = os.environ
    env = os.environ = dict(kw)
    try:
        yield env
    finally:
        os.environ = saved


def config(name=None):
    import pulumi

    return pulumi.Config(name) if name is not None else pulumi.Config()


def get(sx, loop_main):
    run(sx, loop_main)


async def outcome(c, fn, args, kw):
    """-> (kind, value, secret): what the getter answers; errors come at the call."""
    import pulumi

    try:
        r = getattr(c, fn)(*args, **kw)
    except pulumi.ConfigMissingError as e:
        return "missing", e.key, None
    except pulumi.ConfigTypeError as e:
        return "type", (e.key, e.value, e.expect_type), None
    if isinstance(r, pulumi.Output):
        seen = await observe(r)
        if seen.exc is not None:
            raise seen.exc
        return "value", seen.value, seen.secret
    return "value", r, None


def text_value(sx, t, nm):
    """-> (text, valid?, value or None when not known)"""
    if t == "":
        v = sx.str(nm, 6)
        return v, True, v
    if t == "bool":
        v = sx.str(nm, 6)
        return v, sx.or_(*[sx.eq(v, x) for x in ("true", "True", "false", "False")]), sx.or_(sx.eq(v, "true"), sx.eq(v, "True"))
    if t == "int":
        k = sx.choice(nm + ".form", ["digits", "minus", "any", "lit"])
        if k in ("digits", "minus"):
            v = sx.str(nm, 6, 1, [("0", "9")])
            n = sx.to_int(v)
            return (v, True, n) if k == "digits" else ("-" + v, True, -n)
        if k == "lit":
            return sx.choice(nm + ".lit", [(" 7\n", True, 7), ("+12", True, 12), ("1_0", True, 10), ("0x10", False, None), ("1.0", False, None),
                                          ("", False, None), ("true", False, None), ("1e3", False, None)])
        v = sx.str(nm, 3, 0, ASCII)
        ok = sx.match(v, INT)
        sx.assume(sx.not_(ok))
        return v, False, None
    if t == "float":
        k = sx.choice(nm + ".form", ["digits", "lit", "any"])
        if k == "digits":
            v = sx.str(nm, 6, 1, [("0", "9")])
            return v, True, sx.to_int(v)
        if k == "lit":
            return sx.choice(nm + ".lit", [("1.5", True, 1.5), ("-0.25", True, -0.25), ("1e3", True, 1000.0), (".5", True, 0.5), ("0", True, 0.0),
                                          ("", False, None), ("1,5", False, None), ("true", False, None), ("0x1", False, None)])
        v = sx.str(nm, 3, 1, [("a", "f"), ("A", "F"), (" ", "*"), ("/", "/"), (":", "@")])
        return v, False, None
    if t == "object":
        return sx.choice(nm + ".json", [("{}", True, {}), ("[]", True, []), ('{"a": [1, null, "x"], "b": {"c": false}}', True,
                                                                            {"a": [1, None, "x"], "b": {"c": False}}),
                                       ("0", True, 0), ("false", True, False), ('""', True, ""), ('"x"', True, "x"), ("1.5", True, 1.5),
                                       ("", False, None), ("{", False, None), ("'x'", False, None), ("True", False, None)])
    raise AssertionError(t)


EXPECT = {"bool": "bool", "int": "int", "float": "float", "object": "JSON object"}
PYT = {"bool": bool, "int": int, "float": float}


def getters(sx, types):
    import pulumi
    from pulumi.runtime import config as rc

    configure(dry_run=sx.concrete(sx.bool("dry_run")))

    async def main(loop):
        t = sx.choice("type", types)
        req, sec = sx.choice("require", [False, True]), sx.choice("secret", [False, True])
        fn = ("require" if req else "get") + ("_secret" if sec else "") + ("_" + t if t else "")
        state = sx.choice("state", ["set", "unset", "elsewhere"])
        cfg = {"other:k": "1", "p:j": "true"}
        text, valid, val = text_value(sx, t, "v")
        if state == "set":
            cfg["p:k"] = text
        elif state == "elsewhere":
            cfg["p:K"] = text
        kw, default = {}, None
        if not req and fn != "get_secret" and sx.choice("with-default", [False, True]):
            default = {"": lambda: sx.str("d", 2), "bool": lambda: sx.bool("d"), "int": lambda: sx.int("d", 0, 3), "float": lambda: 0.5,
                       "object": lambda: {"d": 1}}[t]()
            kw = {"default": default}
        with environ():
            rc.set_all_config(cfg, sx.choice("secret-keys", [None, [], ["p:k"]]))
            kind, got, secret = await outcome(config("p"), fn, ("k",), kw)
        if state != "set":
            if req:
                sx.check(kind == "missing" and got == "p:k", "missing-value-reported", (fn, kind, got))
                return
            sx.check(kind == "value" and same(sx, got, default), "default-used-when-unset", lambda: (fn, kind, got, default))
            sx.check(secret is (True if sec and default is not None else None), "secret-getters-give-secret-outputs", (fn, secret))
            return
        ok = sx.concrete(valid)
        if not ok:
            sx.check(kind == "type", "ill-typed-value-reported", lambda: (fn, text, kind, got))
            sx.check(sx.and_(got[0] == "p:k", same(sx, got[1], text), got[2] == EXPECT[t]), "ill-typed-value-named",
                     lambda: (fn, text, got))
            return
        sx.check(kind == "value", "well-typed-value-accepted", lambda: (fn, text, kind, got))
        sx.check(same(sx, got, val), "configured-value-returned", lambda: (fn, text, got, val))
        if t in PYT:
            sx.check(isinstance(got, PYT[t]) and (t == "bool" or not isinstance(got, bool)), "value-has-the-asked-type",
                     lambda: (fn, got))
        sx.check(secret is (True if sec else None), "secret-getters-give-secret-outputs", (fn, secret))

    run(sx, main)


def names(sx):
    """A bag sees exactly the keys of its own name; the default bag is the project's."""
    from pulumi.runtime import config as rc

    configure(dry_run=False)

    async def main(loop):
        v = {k: sx.str("v%d" % i, 2) for i, k in enumerate(["p:a", "p:b", "pa:a", "p:a:a", "project:a"])}
        bag = sx.choice("bag", ["given", "default", "empty"])
        sym = sx.choice("symbolic", ["key", "name", "none"])
        if bag != "given":
            name = "project"
        elif sym == "name":
            name = sx.str("name", 3, 1)
        else:
            name = sx.choice("name", ["p", "p:a", "q", "pa"])
        key = sx.str("key", 3) if sym == "key" else sx.choice("key", ["a", "b", "a:a", "A", "", "a ", ":a"])
        with environ():
            rc.set_all_config(v)
            c = config({"given": name, "default": None, "empty": ""}[bag])
            sx.check(sx.eq(c.name, name), "bag-name")
            full = name + ":" + key
            sx.check(sx.eq(c.full_key(key), full), "full-key")
            if sym != "none":
                # (the keys of no value are concrete: looking for them in the environment spells them out)
                sx.assume(sx.or_(*[sx.eq(full, k) for k in v]))
            kind, got, _ = await outcome(c, "get", (key,), {})
            for k, x in v.items():
                sx.check(sx.implies(sx.eq(full, k), sx.eq(got, x)), "own-key-returned", lambda: (name, key, got))
            sx.check(sx.implies(sx.not_(sx.or_(*[sx.eq(full, k) for k in v])), got is None), "other-keys-are-unset",
                     lambda: (name, key, got))

    run(sx, main)


def sources(sx):
    """The program's configuration wins over PULUMI_CONFIG_<KEY>, which wins over PULUMI_CONFIG."""
    from pulumi.runtime import config as rc

    configure(dry_run=False)

    async def main(loop):
        bag, key, var = sx.choice("key", [("p", "k", "P_K"), ("my-app", "some.Key9", "MY_APP_SOME_KEY9"), ("a:b", "_x y", "A_B__X_Y"),
                                         ("p", "\u00e9Z", "P__Z")])
        full = bag + ":" + key
        where = {w: sx.choice(w, [False, True]) for w in ("explicit", "var", "json")}
        val = {w: sx.str("v." + w, 2) for w in ("explicit", "var")}
        val["json"] = sx.choice("v.json", ["from json", ""])
        env = {}
        if where["var"]:
            env["PULUMI_CONFIG_" + var] = val["var"]
        j = sx.choice("bag-var", ["unset", "empty", "null"]) if not where["json"] else "set"
        if j != "unset":
            env["PULUMI_CONFIG"] = {"empty": "{}", "null": "null", "set": json.dumps({full: val["json"], "x": "y"})}[j]
        how = sx.choice("how", ["get", "require", "get_secret", "require_secret"])
        with environ(**env):
            rc.set_all_config({full: val["explicit"], "p:z": "z"} if where["explicit"] else {"p:z": "z"})
            kind, got, _ = await outcome(config(bag), how, (key,), {})
        exp = next((val[w] for w in ("explicit", "var", "json") if where[w]), None)
        if exp is None and how.startswith("require"):
            sx.check(kind == "missing", "missing-value-reported", (kind, got))
        else:
            sx.check(kind == "value" and same(sx, got, exp), "first-source-wins", lambda: (kind, got, exp))

    run(sx, main)


def scrub(sx):
    """PULUMI_CONFIG_<KEY> is the key's letters (as capitals), digits and underscores, with `_` for all else."""
    from pulumi.runtime import config as rc

    configure(dry_run=False)

    async def main(loop):
        c = sx.str("c", 1, 1)
        last = sx.choice("last", ["A", "M", "Z", "0", "9", "_", "a", "\u00c9"])
        low = last.lower()
        inrange = lambda a, b: sx.match(c, "[%s-%s]" % (a, b))  # noqa
        if last == "_":
            hit = sx.not_(sx.or_(inrange("a", "z"), inrange("A", "Z"), inrange("0", "9")))
        elif last in ("a", "\u00c9"):
            hit = False
        else:
            hit = sx.or_(sx.eq(c, last), sx.eq(c, low))
        v = sx.str("v", 2)
        with environ(**{"PULUMI_CONFIG_P_X" + last: v}):
            rc.set_all_config({})
            kind, got, _ = await outcome(config("p"), "get", ("x" + c,), {})
        sx.check(sx.implies(hit, same(sx, got, v)), "variable-found", lambda: (c, last, got))
        sx.check(sx.implies(sx.not_(hit), got is None), "other-variable-ignored", lambda: (c, last, got))

    run(sx, main)


def history(sx):
    """What was assigned last counts; replacing the whole configuration forgets the rest; the caller's own dictionary stays its own."""
    import pulumi
    from pulumi.runtime import config as rc

    configure(dry_run=False)

    async def main(loop):
        with environ():
            rc.set_all_config({"p:a": "start"}, [])
            cur, secret = {"p:a": "start"}, set()
            mine = []
            for i in range(3):
                op = sx.choice("op%d" % i, ["set", "all", "all-secret", "mutate"])
                v = sx.str("v%d" % i, 2)
                k = sx.choice("k%d" % i, ["p:a", "p:b"])
                if op == "set":
                    pulumi.runtime.set_config(k, v)
                    cur[k] = v
                elif op == "mutate":
                    for d, s in mine:
                        d[k] = "changed"
                        s.append("p:z")
                else:
                    d, s = {k: v}, [k]
                    mine.append((d, s))
                    if op == "all":
                        pulumi.runtime.set_all_config(d)
                    else:
                        pulumi.runtime.set_all_config(d, s)
                        secret = {k}
                    cur = {k: v}
            c = config("p")
            for k in ("a", "b", "z"):
                kind, got, _ = await outcome(c, "get", (k,), {})
                sx.check(same(sx, got, cur.get("p:" + k)), "last-assignment-counts", lambda: (k, got, cur))
                sx.check(pulumi.runtime.is_config_secret("p:" + k) is ("p:" + k in secret), "secret-keys-kept", (k, secret))

    run(sx, main)


def tasks(sx):
    """Programs running side by side in their own contexts each see their own configuration."""
    import asyncio
    import contextvars
    from pulumi.runtime import config as rc

    configure(dry_run=False)

    async def main(loop):
        rc.set_all_config({"p:a": "outer"}, ["p:a"])
        va = {n: sx.str("v" + n, 2) for n in "xy"}
        gate = {n: fut(loop, None, ext="gate" + n) for n in "xy"}
        res = {}

        async def prog(n):
            if sx.choice("own" + n, [True, False]):
                rc.set_all_config({"p:a": va[n]}, [])
                exp, sec = va[n], False
            else:
                exp, sec = "outer", True
            await gate[n]
            _, got, _ = await outcome(config("p"), "get", ("a",), {})
            res[n] = sx.and_(same(sx, got, exp), rc.is_config_secret("p:a") is sec)

        with environ():
            ts = [contextvars.copy_context().run(asyncio.ensure_future, prog(n)) for n in "xy"]
            for t in ts:
                await t
            for n in "xy":
                sx.check(res[n], "own-configuration-seen", n)
            _, got, _ = await outcome(config("p"), "get", ("a",), {})
            sx.check(same(sx, got, "outer"), "own-configuration-seen", "outer")

    run(sx, main)


CELLS = [
    Cell("text", getters, dict(types=["", "object"])),
    Cell("bool", getters, dict(types=["bool"])),
    Cell("int", getters, dict(types=["int"])),
    Cell("float", getters, dict(types=["float"])),
    Cell("names", names),
    Cell("sources", sources),
    Cell("scrub", scrub),
    Cell("history", history),
    Cell("tasks", tasks),
]
