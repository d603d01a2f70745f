"""Merging option bags: later values win, collections accumulate, nothing else changes."""
from .lib import *

ANCHORS = ("pulumi.resource.ResourceOptions.merge", "pulumi.resource._collapse_providers", "pulumi.resource._merge_lists",
           "pulumi.invoke.InvokeOptions.merge", "pulumi.output._map2_input", "pulumi.output._map_input")
BOUNDS = ("two or three option bags, each attribute unset or set to a symbolic value (strings of up to 3 characters, "
          "booleans) in each; collections of 0-2 items given as list, tuple or map; dependencies as a resource, list, "
          "future or output (prompt or completed in any order); static, instance and chained calls")
OUTSIDE = "unknown dependency lists in previews; more than three bags"

SCALARS = [("protect", "bool"), ("delete_before_replace", "bool"), ("retain_on_delete", "bool"), ("version", "str"),
           ("plugin_download_url", "str"), ("id", "str"), ("import_", "str"), ("urn", "str"), ("parent", "obj"),
           ("provider", "prov"), ("custom_timeouts", "obj")]
LISTS = ["ignore_changes", "replace_on_changes", "additional_secret_outputs", "aliases", "transformations"]
HOW = ["static", "instance", "chain-static", "chain-instance"]


class Engine:
    def Log(self, req):
        return None


def combine(sx, R, how, bags):
    """bags: list of options or None"""
    if how == "static" or how == "chain-static":
        r = bags[0]
        for b in bags[1:]:
            r = R.merge(r, b)
        return r
    r = bags[0]
    for b in bags[1:]:
        r = r.merge(b)
    return r


def snap(o):
    """Attributes of an options bag, collections copied one level."""
    if o is None:
        return None
    d = {}
    for k, v in o.__dict__.items():
        if k != "merge":
            d[k] = (v, list(v) if isinstance(v, (list, tuple)) else dict(v) if isinstance(v, dict) else v)
    return d


def unchanged(sx, o, s):
    if o is None:
        return True
    n = snap(o)
    if set(n) != set(s):
        return False
    return all(n[k][0] is s[k][0] and (n[k][1] is s[k][1] or same_items(n[k][1], s[k][1])) for k in n)


def same_items(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return a is b


def mkopts(R, nones, i, **kw):
    return R(**kw)


def scalars(sx, names, n, hows, cls="ResourceOptions"):
    import pulumi

    R = getattr(pulumi, cls)

    async def main(loop):
        how = sx.choice("how", hows)
        objs = [object() for _ in range(n)]
        kinds = dict(SCALARS)
        bags, exp = [], {}
        for i in range(n):
            if how == "static" and sx.choice("none%d" % i, 2):
                bags.append(None)
                continue
            kw = {}
            for a in names:
                if not sx.choice("set.%s.%d" % (a, i), 2):
                    continue
                k = kinds[a]
                if k == "bool":
                    v = sx.bool("%s.%d" % (a, i))
                elif k == "str":
                    v = sx.str("%s.%d" % (a, i), 3, 1)
                else:
                    v = objs[i]
                kw[a] = v
                exp[a] = v
            bags.append(R(**kw))
        before = [snap(b) for b in bags]
        got = combine(sx, R, how, bags)
        for a in names:
            v = getattr(got, a)
            if a in exp:
                e = exp[a]
                sx.check(v is e if kinds[a] not in ("bool", "str") else v is not None and sx.eq(v, e), "last-set-value-wins",
                         lambda: (a, how, e, v))
            else:
                sx.check(v is None or (a == "version" and sx.concrete(sx.eq(v, ""))), "unset-stays-unset", lambda: (a, how, v))
        sx.check(isinstance(got, R) and all(got is not b for b in bags), "result-is-new")
        sx.check(all(unchanged(sx, b, s) for b, s in zip(bags, before)), "originals-unchanged",
                 lambda: ([snap(b) for b in bags], before))

    run(sx, main)


def lists(sx, names, n, hows, forms):
    import pulumi

    R = pulumi.ResourceOptions

    async def main(loop):
        how = sx.choice("how", hows)
        bags, exp = [], {a: None for a in names}
        for i in range(n):
            kw = {}
            for a in names:
                form = sx.choice("form.%s.%d" % (a, i), forms)
                if form == "unset":
                    continue
                m = {"empty": 0, "one": 1, "two": 2, "tuple": 2}[form]
                if a == "transformations":
                    v = [(lambda args: None) for j in range(m)]
                else:
                    v = [sx.str("%s.%d.%d" % (a, i, j), 2) for j in range(m)]
                exp[a] = (exp[a] or []) + v
                kw[a] = tuple(v) if form == "tuple" else v
            bags.append(R(**kw))
        before = [snap(b) for b in bags]
        got = combine(sx, R, how, bags)
        for a in names:
            v = getattr(got, a)
            e = exp[a]
            if e is None or not e:
                sx.check(not v, "empty-stays-empty", lambda: (a, v))
            else:
                sx.check(v is not None and len(v) == len(e) and sx.and_(*[
                    (x is y) if a == "transformations" else sx.eq(x, y) for x, y in zip(v, e)]), "collections-accumulate",
                         lambda: (a, how, e, v))
        sx.check(all(unchanged(sx, b, s) for b, s in zip(bags, before)), "originals-unchanged",
                 lambda: ([snap(b) for b in bags], before))

    run(sx, main)


def providers(sx, n, hows, forms):
    """The providers of the merged bag, per package, and the single provider."""
    import pulumi

    R = pulumi.ResourceOptions
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon, engine=Engine())

    async def main(loop):
        how = sx.choice("how", hows)
        bags, exp, single = [], {}, None
        mk = lambda p, i, s="": mk_provider(loop, "urn:%s%d%s" % (p, i, s), "id", p)  # noqa
        for i in range(n):
            form = sx.choice("form%d" % i, forms)
            kw = {}
            if form != "unset":
                ps = {"empty": [], "list-a": ["a"], "list-b": ["b"], "list-ab": ["a", "b"], "tuple-ab": ["a", "b"],
                      "tuple-b": ["b"], "map-a": ["a"], "map-ab": ["a", "b"]}[form]
                v = [mk(p, i) for p in ps]
                exp.update({p.package: p for p in v})
                kw["providers"] = tuple(v) if form.startswith("tuple") else {p.package: p for p in v} \
                    if form.startswith("map") else v
            if sx.choice("single%d" % i, 2):
                kw["provider"] = single = mk("c", i, "s")
            bags.append(R(**kw))
        before = [snap(b) for b in bags]
        got = combine(sx, R, how, bags)
        g = got.providers
        g = {} if g is None else dict(g) if isinstance(g, dict) else {p.package: p for p in g}
        sx.check(set(g) == set(exp) and all(g[k] is exp[k] for k in exp), "providers-accumulate", lambda: (how, exp, g))
        sx.check(got.provider is single, "last-provider-wins", lambda: (single, got.provider))
        sx.check(all(unchanged(sx, b, s) for b, s in zip(bags, before)), "originals-unchanged")
        # and what a resource makes of it
        c = pulumi.ComponentResource("x:m:C", "c", {}, got)
        for p in ("a", "b"):
            sx.check(c.get_provider(p + ":m:R") is exp.get(p), "merged-providers-are-used", lambda: (p, exp))
        sx.check(c.get_provider("c:m:R") is single, "merged-provider-is-used")
        await observe(c.urn)

    run(sx, main, fifo=True)


DEPS = ["unset", "res", "list", "tuple", "list-out", "fut-list", "fut-res", "out-list", "out-res", "empty", "co-list", "co-res"]


def depends(sx, n, hows, forms, ext=(), unknowns=False):
    """A resource given merged options depends on everything any of them names."""
    import pulumi

    R = pulumi.ResourceOptions
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon, engine=Engine())

    async def main(loop):
        how = sx.choice("how", hows)
        bags, exp = [], set()
        for i in range(n):
            form = sx.choice("form%d" % i, forms)
            res = lambda s: mk_resource(loop, "urn:%d%s" % (i, s))  # noqa
            a, b, x = res("a"), res("b"), res("x")
            U = lambda *s: exp.update("urn:%d%s" % (i, k) for k in s)  # noqa
            e = ("val", "known") if i in ext else ()
            if form == "unset":
                bags.append(R())
                continue
            if form == "res":
                v = a
                U("a")
            elif form == "list":
                v = [a, b]
                U("a", "b")
            elif form == "tuple":
                v = (a, b)
                U("a", "b")
            elif form == "empty":
                v = []
            elif form == "list-out":
                v = [mk_output(loop, a, deps=[x], ext=e), b]
                U("a", "b", "x")
            elif form == "fut-list":
                v = fut(loop, [a, b], ext="f%d" % i if e else None)
                U("a", "b")
            elif form == "fut-res":
                v = fut(loop, a, ext="f%d" % i if e else None)
                U("a")
            elif form in ("co-list", "co-res"):
                async def later(v):
                    return v
                v = later([a, b] if form == "co-list" else a)
                U("a", *["b"][form == "co-res":])
            elif form == "out-list":
                v = mk_output(loop, [a, b], deps=[x], ext=e)
                U("a", "b", "x")
            elif form == "out-res":
                v = mk_output(loop, a, deps=[x], ext=e)
                U("a", "x")
            bags.append(R(depends_on=v))
        before = [snap(b) for b in bags]
        got = combine(sx, R, how, bags)
        r = pulumi.CustomResource("a:m:R", "r", {}, got)
        await observe(r.urn)
        sx.check(all(unchanged(sx, b, s) for b, s in zip(bags, before)), "originals-unchanged")
        q = [q for q in mon.sent("RegisterResource") if q.name == "r"]
        sx.check(len(q) == 1 and sorted(q[0].dependencies) == sorted(exp), "dependencies-accumulate",
                 lambda: (how, exp, [list(x.dependencies) for x in q]))

    run(sx, main, fifo=not ext)


def sent(sx, names):
    """The merged bag registers like a bag given the merged values directly."""
    import pulumi

    R = pulumi.ResourceOptions
    mon = basic_monitor()
    configure(dry_run=False, monitor=mon, engine=Engine())
    kinds = dict(SCALARS)

    async def main(loop):
        kws = []
        for i in range(2):
            kw = {}
            for a in names:
                if sx.choice("set.%s.%d" % (a, i), 2):
                    if a in LISTS:
                        kw[a] = [sx.str("%s.%d" % (a, i), 2, 1)]
                    elif kinds[a] == "bool":
                        kw[a] = sx.bool("%s.%d" % (a, i))
                    elif a == "custom_timeouts":
                        kw[a] = pulumi.CustomTimeouts(create=sx.str("%s.%d" % (a, i), 2, 1))
                    else:
                        kw[a] = sx.str("%s.%d" % (a, i), 2, 1)
            kws.append(kw)
        both = dict(kws[0])
        for k, v in kws[1].items():
            both[k] = both[k] + v if k in LISTS and k in both else v
        r1 = pulumi.CustomResource("a:m:R", "r", {}, R(**kws[0]).merge(R(**kws[1])))
        await observe(r1.urn)
        r2 = pulumi.CustomResource("a:m:R", "r", {}, R(**both))
        await observe(r2.urn)
        a, b = mon.sent("RegisterResource")
        for f in ("protect", "deleteBeforeReplace", "deleteBeforeReplaceDefined", "retainOnDelete", "version",
                  "pluginDownloadURL", "importId"):
            sx.check(sx.eq(getattr(a, f), getattr(b, f)), "merged-options-are-sent", lambda: (f, getattr(a, f), getattr(b, f)))
        for f in ("ignoreChanges", "replaceOnChanges", "additionalSecretOutputs", "aliases"):
            x, y = list(getattr(a, f)), list(getattr(b, f))
            sx.check(len(x) == len(y) and sx.and_(*[sx.eq(p, q) for p, q in zip(x, y)]), "merged-options-are-sent",
                     lambda: (f, x, y))
        sx.check(sx.eq(a.customTimeouts.create, b.customTimeouts.create), "merged-options-are-sent")

    run(sx, main, fifo=True)


def wrong(sx):
    """Only options of the right class can be merged."""
    import pulumi

    async def main(loop):
        R, O = sx.choice("cls", [(pulumi.ResourceOptions, pulumi.InvokeOptions), (pulumi.InvokeOptions, pulumi.ResourceOptions)])
        bad = sx.choice("bad", [O(), {}, "x", 0])
        ok = False
        try:
            R.merge(bad, R()) if sx.choice("first", 2) else R.merge(R(), bad)
        except TypeError:
            ok = True
        sx.check(ok, "wrong-class-is-rejected", lambda: (R, bad))

    run(sx, main)


A = [a for a, _ in SCALARS]
INV = ["parent", "provider", "version", "plugin_download_url"]
CELLS = [
    Cell("scalars-flags", scalars, dict(names=A[:3], n=2, hows=["static", "instance"])),
    Cell("scalars-strings", scalars, dict(names=["version", "plugin_download_url", "id"], n=2, hows=["static", "instance"])),
    Cell("scalars-ids", scalars, dict(names=["import_", "urn"], n=2, hows=["static", "instance"])),
    Cell("scalars-objects", scalars, dict(names=["parent", "provider", "custom_timeouts"], n=2, hows=["static", "instance"])),
    Cell("scalars-chain", scalars, dict(names=["protect", "version"], n=3, hows=["static"] + HOW[2:])),
    Cell("scalars-chain-objects", scalars, dict(names=["parent", "custom_timeouts"], n=3, hows=HOW[2:])),
    Cell("lists-a", lists, dict(names=["ignore_changes", "replace_on_changes"], n=2, hows=["static", "instance"],
                                forms=["unset", "empty", "one", "two"]), weight=2),
    Cell("lists-b", lists, dict(names=["additional_secret_outputs", "transformations"], n=2, hows=["static", "instance"],
                                forms=["unset", "empty", "one", "two"])),
    Cell("lists-aliases", lists, dict(names=["aliases"], n=2, hows=["static", "instance"],
                                      forms=["unset", "empty", "one", "two", "tuple"])),
    Cell("lists-chain", lists, dict(names=["ignore_changes", "aliases"], n=3, hows=HOW[2:], forms=["unset", "one"])),
    Cell("providers-two", providers, dict(n=2, hows=["static", "instance"], forms=[
        "unset", "empty", "list-a", "list-ab", "tuple-ab", "map-a", "map-ab"]), weight=2),
    Cell("providers-chain", providers, dict(n=3, hows=HOW[2:], forms=["unset", "list-a", "list-b"])),
    Cell("depends-two", depends, dict(n=2, hows=["static", "instance"], forms=DEPS), weight=2),
    Cell("depends-order", depends, dict(n=2, hows=["static"], forms=["fut-list", "fut-res", "out-list", "out-res"], ext=(0, 1)),
         weight=2),
    Cell("depends-chain", depends, dict(n=3, hows=HOW[2:], forms=["unset", "res", "list", "fut-list", "out-res"])),
    Cell("sent-flags", sent, dict(names=["protect", "delete_before_replace", "retain_on_delete", "version"])),
    Cell("sent-strings", sent, dict(names=["plugin_download_url", "import_", "custom_timeouts"])),
    Cell("sent-lists", sent, dict(names=["ignore_changes", "replace_on_changes", "additional_secret_outputs", "aliases"])),
    Cell("invoke-options", scalars, dict(names=INV, n=2, hows=["static", "instance"], cls="InvokeOptions")),
    Cell("invoke-options-chain", scalars, dict(names=["version", "parent"], n=3, hows=HOW[2:], cls="InvokeOptions")),
    Cell("wrong-class", wrong),
    Cell("depends-chain-all", depends, dict(n=3, hows=["chain-instance"], forms=DEPS)),
    Cell("providers-three", providers, dict(n=3, hows=["chain-instance", "static"], forms=[
        "unset", "empty", "list-b", "list-ab", "tuple-b", "map-ab"])),
]
