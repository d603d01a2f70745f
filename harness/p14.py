"""Function calls: invoke (synchronous) and call (methods on resources)."""
from .lib import *
from .p03 import Gen, eq as wire_tree_eq, FEATS
from .p10 import wire
from symx.common import Monitor

ANCHORS = ("pulumi.runtime.invoke.", "pulumi.resource.Resource.get_provider")
BOUNDS = ("one property of any of the value kinds of P03 (depth 2, symbolic strings, secrecy, knownness) and one plain property; "
          "options: parent none / with providers of the function's, another or no package, explicit provider, symbolic version "
          "and download url, the same options object reused for a second function of either package; results of 12 kinds of "
          "wire values with 0-2 dependencies, typed or not; check failures, RPC errors; all completion orders of up to 6 "
          "futures; up to three overlapping calls")
OUTSIDE = "unregistered resource references in results beyond their id; empty results of invoke (may be None or empty)"

PU = "urn:pulumi:stack::project::pulumi:providers:%s::%s"


def inv_monitor(feats=FEATS, resp=None):
    mon = basic_monitor(feats)
    mon.on["Invoke"] = lambda req: invoke_response(resp(req) if resp else {"tok": req.tok})
    return mon


def call_response(d, failures=(), deps=None):
    from pulumi.runtime.proto import provider_pb2 as m

    kw = {"return": struct(d)}
    if failures:
        kw["failures"] = [m.CheckFailure(property=p, reason=r) for p, r in failures]
    if deps:
        R = m.CallResponse.ReturnDependencies
        kw["returnDependencies"] = {k: R(urns=v) for k, v in deps.items()}
    return m.CallResponse(**kw)


def inputs(sx, kind, kinds, leaves, depth=1, which=FEATS, ext=()):
    """What the provider function receives."""
    import pulumi

    feats = {f: sx.concrete(sx.bool("feat." + f)) if f in which else True for f in FEATS}
    D = sx.concrete(sx.bool("dry_run"))
    mon = inv_monitor([f for f in FEATS if feats[f]])
    mon.on["Call"] = lambda req: call_response({})
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        g = Gen(sx, loop, feats, kinds, leaves, ext)
        v, m = g.build("v", depth)
        tok = sx.str("tok", 4, 1)
        props = {"a_b": v, "z": "z"}
        if kind == "invoke":
            r = pulumi.runtime.invoke(tok, props)
            sx.check(same(sx, r.value, {"tok": tok}), "invoke-result", lambda: r.value)
            sx.check(same(sx, await r, {"tok": tok}), "invoke-result-awaited")
        else:
            pulumi.runtime.call(tok, props)
            await drain()
        sx.check(len(props) == 2 and props["a_b"] is v, "arguments-untouched")
        q = mon.sent("Invoke" if kind == "invoke" else "Call")
        sx.check(len(q) == 1, "sent-once", lambda: q)
        q = q[0]
        ed = set()
        exp = {"a_b": g.ser(m, kind == "call", ed), "z": "z"}
        if exp["a_b"] is None:
            del exp["a_b"]
        sx.check(sx.eq(q.tok, tok), "token", lambda: q)
        sx.check(wire_tree_eq(sx, q.args, exp), "arguments", lambda: (plain(q.args), exp))
        sx.check(sx.eq(q.provider, "") and sx.eq(q.version, "") and sx.eq(q.pluginDownloadURL, ""), "no-options", lambda: q)
        if kind == "call":
            d = {k: list(x.urns) for k, x in q.argDependencies.items() if x.urns}
            us = [u for r, u in g.urns if r in ed] if "a_b" in exp else []
            got = d.get("a_b", [])
            sx.check(set(d) <= {"a_b"}, "no-foreign-dependencies", lambda: d)
            sx.check(sx.and_(*[sx.or_(*[sx.eq(u, x) for x in got]) for u in us]), "argument-dependencies",
                     lambda: (d, us))
            sx.check(sx.and_(*[sx.or_(*[sx.eq(u, x) for u in us]) for x in got]), "no-foreign-dependencies",
                     lambda: (d, us))

    run(sx, main)


async def drain():
    from pulumi.runtime.stack import wait_for_rpcs

    await wait_for_rpcs(False)


def invoke_options(sx, pforms, eforms, seconds, scalars=False, ext=()):
    """Which provider, version and url a function is looked up with; an options object can be reused."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = inv_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        pf, ef = sx.choice("parent", pforms), sx.choice("explicit", eforms)
        pid, eid = sx.str("pid", 3, 1), sx.str("eid", 3, 1)
        eknown = not (D and sx.choice("eid.unknown", 2))
        from pulumi.output import UNKNOWN

        mk = lambda p, n, i, k=True: mk_provider(loop, PU % (p, n), i if k else UNKNOWN, p, k, ext=ext)  # noqa
        parent, have = None, {}
        if pf != "none":
            have = {"plain": {}, "same": {"pkg": "pp"}, "other": {"oth": "po"}, "both": {"pkg": "pp", "oth": "po"}, "custom": {"pkg": "pp"},
                    "custom-other": {"oth": "po"}}[pf]
            provs = [mk(p, n, pid) for p, n in have.items()]
            if pf.startswith("custom"):
                parent = pulumi.CustomResource(list(have)[0] + ":y:P", "c", {}, pulumi.ResourceOptions(provider=provs[0]))
            else:
                parent = pulumi.ComponentResource("x:y:C", "c", {}, pulumi.ResourceOptions(providers=provs))
            await drain()
        expl = None if ef == "none" else mk("pkg", "pe", eid, eknown)
        ver, url = (sx.str("version", 3), sx.str("url", 3)) if scalars else ("", None)
        o = pulumi.InvokeOptions(parent=parent, provider=expl, version=ver, plugin_download_url=url)
        before = {k: v for k, v in vars(o).items() if k != "merge"}
        toks = ["pkg:mod:f"] + sx.choice("second", seconds)
        for t in toks:
            pulumi.runtime.invoke(t, {}, o)
        now = {k: v for k, v in vars(o).items() if k != "merge"}
        sx.check(set(now) == set(before) and all(now[k] is before[k] for k in before), "options-untouched",
                 lambda: (before, now))
        qs = mon.sent("Invoke")
        sx.check([q.tok for q in qs] == toks, "one-call-each", lambda: qs)
        for q in qs:
            pkg = q.tok.split(":")[0]
            if expl is not None:
                exp = PU % ("pkg", "pe") + "::" + (eid if eknown else UNKNOWN_WIRE)
            elif pkg in have and q.tok.count(":") == 2:
                exp = PU % (pkg, have[pkg]) + "::" + pid
            else:
                exp = ""
            sx.check(sx.eq(q.provider, exp), "provider", lambda: (q.tok, exp, q.provider))
            sx.check(sx.eq(q.version, ver), "version", lambda: q)
            sx.check(sx.eq(q.pluginDownloadURL, url or ""), "download-url", lambda: q)

    run(sx, main)


RK = ["str", "num", "null", "secret", "unknown", "secret-unknown", "list-secret", "list-unknown", "dict", "ref"]


def rtype():
    import pulumi

    @pulumi.output_type
    class R:
        def __init__(self, some_value: str = None, z: str = None):
            pulumi.set(self, "some_value", some_value)
            pulumi.set(self, "z", z)

        @property
        @pulumi.getter(name="someValue")
        def some_value(self) -> str:
            return pulumi.get(self, "some_value")

        @property
        @pulumi.getter
        def z(self) -> str:
            return pulumi.get(self, "z")

    return R


def invoke_results(sx, kinds):
    """The caller gets the function's result, or its failure."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = inv_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        kd = sx.choice("kind", kinds)
        fault = sx.choice("fault", ["none", "none", "failure", "failures", "rpc", "unavailable", "input"])
        typed = kd in ("str", "null") and sx.choice("typed", 2)
        w, val, _, unk, _ = wire(sx, "v", kd)
        why, prop = sx.str("why", 3), sx.str("prop", 3)

        def on(req):
            if fault == "rpc":
                raise rpc_error("UNKNOWN", why)
            if fault == "unavailable":
                raise rpc_error("UNAVAILABLE", "gone")
            fs = {"failure": [(prop, why)], "failures": [(prop, why), ("q", "more")]}.get(fault, ())
            return invoke_response({"someValue": w, "z": "z"}, fs)

        mon.on["Invoke"] = on
        props = {"x": mk_output(loop, None, exc=Boom("x"))} if fault == "input" else {}
        me = asyncio.current_task()
        try:
            r, exc = pulumi.runtime.invoke("pkg:mod:f", props, typ=rtype() if typed else None), None
        except Exception as e:  # noqa
            r, exc = None, e
        sx.check((exc is None) is (fault == "none"), "failure-is-raised", lambda: (fault, exc))
        sx.check(asyncio.current_task() is me, "the-task-goes-on", lambda: (fault, me, asyncio.current_task()))
        from pulumi.runtime.rpc_manager import RPC_MANAGER

        if exc is not None:
            if fault in ("failure", "failures"):
                sx.check(sx.eq(exc.args[0], "invoke of pkg:mod:f failed: " + why + " (" + prop + ")"), "failure-message",
                         lambda: exc)
            # an error the caller may handle does not also fail the program
            if fault != "input":
                await drain()
                sx.check(RPC_MANAGER.unhandled_exception is None, "handled-failure-does-not-fail-the-program")
            return
        v = r.value
        if typed:
            sx.check(sx.eq(v.z, "z"), "typed-result", lambda: v)
            sx.check(sx.eq(v.some_value, val) if kd == "str" else v.some_value is None, "typed-result", lambda: v)
            return
        sx.check(isinstance(v, dict) and v.get("z") == "z", "result", lambda: v)
        if kd == "ref":
            sx.check(D or sx.eq(w["id"], "") or sx.concrete(sx.eq(v.get("someValue"), w["id"])), "result", lambda: v)
        elif val is None:
            sx.check("someValue" not in v, "null-is-left-out", lambda: v)
        elif D or not unk:
            sx.check(same(sx, v.get("someValue"), val), "result", lambda: (v, val))

    run(sx, main)


def nested(sx, n, preempt=0):
    """Invokes made in applies while others are outstanding each return their own result."""
    import pulumi

    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    def on(req):
        if req.tok == bad:
            raise rpc_error("UNKNOWN", "bad")
        return invoke_response({"tok": req.tok, "arg": plain(req.args)["a"]})

    mon.on["Invoke"] = on
    bad = sx.choice("bad", [""] + ["p:m:f%d" % i for i in range(n)])

    async def main(loop):
        got = {}

        def call(i, v):
            t = "p:m:f%d" % i
            try:
                got[t] = pulumi.runtime.invoke(t, {"a": v}).value
            except Exception as e:  # noqa
                got[t] = str(e)

        outs = []
        for i in range(1, n):
            o = mk_output(loop, "v%d" % i, ext=("val",))

            def cb(v, i=i):
                call(i, v)
                return v

            outs.append(o.apply(cb))
        call(0, "v0")
        for i, o in enumerate(outs):
            s = await observe(o)
            sx.check(s.exc is None and s.value == "v%d" % (i + 1), "apply-result", lambda: s)
        for i in range(n):
            t = "p:m:f%d" % i
            if t == bad:
                sx.check(type(got[t]) is str and "bad" in got[t], "own-failure", lambda: got)
            else:
                sx.check(got[t] == {"tok": t, "arg": "v%d" % i}, "own-result", lambda: got)

    run(sx, main, preempt=preempt)


def call_receiver(sx):
    """A method is called with its receiver's provider, version and download url."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    mon.on["Call"] = lambda req: call_response({})
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        form = sx.choice("provider", ["none", "explicit", "parent", "parent-other", "list"])
        pid = sx.str("pid", 3, 1)
        known = not (D and sx.choice("unknown", 2))
        ver, url = sx.str("version", 3), sx.str("url", 3)
        from pulumi.output import UNKNOWN

        mk = lambda p: mk_provider(loop, PU % (p, "n"), pid if known else UNKNOWN, p, known)  # noqa
        kw, have = {}, form in ("explicit", "parent", "list")
        if form == "explicit":
            kw["provider"] = mk("pkg")
        elif form == "list":
            kw["providers"] = [mk("oth"), mk("pkg")]
        elif form.startswith("parent"):
            p = mk("oth" if form == "parent-other" else "pkg")
            kw["parent"] = pulumi.ComponentResource("x:y:C", "c", {}, pulumi.ResourceOptions(providers=[p]))
        r = pulumi.CustomResource("pkg:mod:R", "r", {}, pulumi.ResourceOptions(version=ver, plugin_download_url=url, **kw))
        pulumi.runtime.call("pkg:mod:R/f", {"__self__": r}, r)
        await drain()
        q = mon.sent("Call")[0]
        exp = PU % ("pkg", "n") + "::" + (pid if known else UNKNOWN_WIRE) if have else ""
        sx.check(sx.eq(q.provider, exp), "provider", lambda: (form, exp, q))
        sx.check(sx.eq(q.version, ver) and sx.eq(q.pluginDownloadURL, url), "version", lambda: q)
        urn = urn_of(mon.sent("RegisterResource")[-1])
        a = plain(q.args)["__self__"]
        # (registered by an engine that supports output values: the receiver itself is a reference)
        sx.check(isinstance(a, dict) and a[SIG] == RESOURCE and a["urn"] == urn, "receiver", lambda: a)
        sx.check([list(x.urns) for x in q.argDependencies.values()] == [[urn]], "receiver-dependency", lambda: q)

    run(sx, main)


def call_results(sx, kinds, keys=("someValue",), typed=False, wide=0):
    """A method call's output: value, secrecy, unknownness, dependencies, failure."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        fault = sx.choice("fault", ["none", "failure", "rpc", "input", "provider"] if len(keys) == 1 else ["none"])
        ws, exp, secret, unknown, deps = {}, {}, False, False, {}
        for k in keys:
            kd = sx.choice(k + ".kind", [x for x in kinds if D or "unknown" not in x])
            w, val, s, u, _ = wire(sx, k, kd)
            ws[k], exp[k] = w, (kd, val)
            secret, unknown = secret or s, unknown or u
            deps[k] = sx.choice(k + ".deps", [[], ["urn:1"], ["urn:2", "urn:1"]])
        why = sx.str("why", 3)

        def on(req):
            if fault == "rpc":
                raise rpc_error("UNKNOWN", why)
            pad = {"pad%d" % i: "pad" for i in range(wide)}
            pad = {**pad, **ws} if wide and sx.choice("last", 2) else {**ws, **pad}
            return call_response({**pad, "z": "z"}, [("p", why)] if fault == "failure" else (), deps)

        mon.on["Call"] = on
        props = {"x": quiet(fut(loop, None, Boom("x")))} if fault == "input" else {}
        res = None
        if fault == "provider":
            p = mk_provider(loop, PU % ("pkg", "n"), "i", "pkg", exc=Boom("prov"))
            res = pulumi.CustomResource("pkg:mod:R", "r", {}, pulumi.ResourceOptions(provider=p))
        o = pulumi.runtime.call("pkg:mod:f", props, res, typ=rtype() if typed else None)
        s = await observe(o)
        sx.check((s.exc is None) is (fault == "none"), "fails-iff-the-call-fails", lambda: (fault, s))
        if fault != "none":
            from pulumi.runtime.rpc_manager import RPC_MANAGER

            sx.check(s.exc_known is not None and s.exc_secret is not None, "all-parts-fail", lambda: s)
            sx.check(RPC_MANAGER.unhandled_exception is not None, "failure-fails-the-program")
            if fault in ("failure", "rpc"):
                sx.check(sx.eq(s.exc.args[0], "call of pkg:mod:f failed: " + why + " (p)" if fault == "failure" else why),
                         "failure-message", lambda: s.exc)
            return
        refs = [k for k in keys if exp[k][0] == "ref"]
        if refs and sx.concrete(sx.or_(*[sx.eq(ws[k]["id"], "") for k in refs])):
            unknown = unknown or D
        sx.check(s.known is (not unknown), "known", lambda: (exp, s))
        sx.check(s.secret is secret, "secret", lambda: (exp, s))
        got = {await r.urn.future() for r in s.deps}
        sx.check(got == {u for v in deps.values() for u in v}, "dependencies", lambda: (deps, got))
        if unknown:
            return
        v = s.value
        if typed:
            sx.check(sx.eq(v.z, "z"), "typed-result", lambda: v)
            e = exp[keys[0]][1]
            sx.check(v.some_value is None if e is None else same(sx, v.some_value, e), "typed-result", lambda: v)
            return
        sx.check(v["z"] == "z", "value", lambda: v)
        for k in keys:
            kd, e = exp[k]
            if kd == "ref":
                continue
            if e is None:
                sx.check(k not in v, "null-is-left-out", lambda: v)
            else:
                sx.check(k in v and same(sx, v[k], e), "value", lambda: (v, e))

    run(sx, main)


def call_orders(sx, n):
    """Several outstanding calls whose arguments depend on each other's results."""
    import pulumi

    mon = basic_monitor()
    configure(dry_run=sx.concrete(sx.bool("dry_run")), monitor=mon)
    bad = sx.choice("bad", [None] + list(range(n)))
    sec = sx.choice("sec", range(n))

    def on(req):
        i = int(req.tok)
        if i == bad:
            raise rpc_error("UNKNOWN", "bad")
        a = plain(req.args).get("a")
        v = a if a is not None else "end"
        return call_response({"v": {SIG: SECRET, "value": v} if i == sec else v}, deps={"v": ["urn:%d" % i]})

    mon.on["Call"] = on

    async def main(loop):
        outs = []
        for i in range(n):
            arg = {"a": outs[-1]["v"]} if outs and i == n - 1 else {"a": fut(loop, "x%d" % i, ext="in%d" % i)}
            outs.append(pulumi.runtime.call(str(i), arg))
        for i, o in enumerate(outs):
            s = await observe(o)
            last = i == n - 1 and n > 1
            fails = i == bad or last and bad == n - 2
            sx.check((s.exc is not None) is fails, "fails-iff-it-or-its-input-fails", lambda: (i, s))
            if not fails:
                # the argument arrives as an output value carrying the first call's secrecy
                tree = s.value["v"]
                sx.check({await r.urn.future() for r in s.deps} == {"urn:%d" % i}, "dependencies", lambda: s)
                if not last:
                    sx.check(tree == "x%d" % i and s.secret is (i == sec), "value", lambda: s)

    run(sx, main)


CELLS = [
    Cell("invoke-inputs", inputs, dict(kind="invoke", kinds=["leaf", "output", "list2", "dict1", "await", "coro", "custom", "component",
                                                             "asset", "archive", "keys"], leaves=["str", "none", "unk", "num",
                                                                                                  "bool"])),
    Cell("invoke-inputs-nested", inputs, dict(kind="invoke", kinds=["output", "list1", "dict1", "await"], depth=2,
                                              leaves=["str", "unk"], which=("secrets",))),
    Cell("call-inputs", inputs, dict(kind="call", kinds=["leaf", "output", "list2", "dict1", "await", "coro", "custom",
                                                         "asset", "archive", "keys"], leaves=["str", "none", "unk", "num"])),
    Cell("call-inputs-nested", inputs, dict(kind="call", kinds=["output", "list1", "dict1", "await"], depth=2,
                                            leaves=["str", "unk"], which=("outputValues",))),
    Cell("call-inputs-orders", inputs, dict(kind="call", kinds=["output"], leaves=["str"], which=(), ext=("val", "known", "sec",
                                                                                                           "res"))),
    Cell("invoke-options", invoke_options, dict(pforms=["none", "plain", "same", "other", "both", "custom", "custom-other"], eforms=["none", "pkg"],
                                                seconds=[[], ["oth:mod:g"], ["pkg:mod:g"], ["odd"]])),
    Cell("invoke-options-scalars", invoke_options, dict(pforms=["none", "same"], eforms=["none", "pkg"], seconds=[[], ["x:y:z"]],
                                                        scalars=True)),
    Cell("invoke-options-orders", invoke_options, dict(pforms=["same", "both"], eforms=["none", "pkg"], seconds=[["oth:mod:g"]],
                                                       ext=("val",))),
    Cell("invoke-results", invoke_results, dict(kinds=[k for k in RK if "secret" not in k and k != "dict"])),
    Cell("invoke-nested", nested, dict(n=2)),
    Cell("invoke-nested-3", nested, dict(n=3)),
    Cell("call-receiver", call_receiver),
    Cell("call-results", call_results, dict(kinds=RK)),
    Cell("call-results-typed", call_results, dict(kinds=["str", "null", "secret", "unknown", "secret-unknown"], typed=True)),
    Cell("call-results-wide", call_results, dict(kinds=["str", "secret", "unknown", "list-secret"], wide=12)),
    Cell("call-results-two", call_results, dict(kinds=RK, keys=("a", "b"))),
    Cell("call-orders", call_orders, dict(n=2)),
    Cell("call-orders-3", call_orders, dict(n=3)),
]
