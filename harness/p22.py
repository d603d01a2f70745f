"""Dynamic resources are handled by the provider they were declared with."""
import contextlib
import io
import pickle
import sys
import time

from .lib import *

ANCHORS = ("pulumi.dynamic.",)
BOUNDS = ("every provider method; two properties of every kind of value (symbolic texts <= 3, numbers, flags, lists, maps, assets, nulls), known or "
          "(in previews) unknown; every shape of result with any optional part left out; providers that fail; declarations in previews and updates; up "
          "to three serializations")
OUTSIDE = "what pickling makes of a provider's code (dill is replaced by a table, except that it runs concretely where serializing itself is checked), the gRPC server, secrets (never sent to dynamic providers)"

KEY = "__provider"


class Quit(Exception):
    pass


def server():
    """The servicer of the provider process, without starting its server."""
    import importlib

    import grpc

    name = "pulumi.dynamic.__main__"
    if name not in sys.modules:
        class Fake:
            def __init__(self, *a, **k):
                pass

            def add_insecure_port(self, *a, **k):
                return 1

            def __getattr__(self, n):
                return lambda *a, **k: None

        def stop(*a):
            raise KeyboardInterrupt()

        class Out:
            buffer = io.BytesIO()

            def write(self, *a):
                return 0

            flush = write

        saved = grpc.server, time.sleep, sys.stdout
        grpc.server, time.sleep, sys.stdout = Fake, stop, Out()
        try:
            importlib.import_module(name)
        finally:
            grpc.server, time.sleep, sys.stdout = saved
    return sys.modules[name].DynamicResourceProviderServicer()


@contextlib.contextmanager
def pickled(table):
    """Replaces dill: providers are known by the texts in `table`."""
    import dill

    saved = dill.loads, dill.dumps

    def loads(b, *a, **k):
        return table[b.decode("utf-8")]

    def dumps(o, *a, **k):
        for t, p in table.items():
            if p is o:
                return t.encode("utf-8")
        t = "provider%d" % len(table)
        table[t] = o
        return t.encode("utf-8")

    dill.loads, dill.dumps = loads, dumps
    try:
        yield table
    finally:
        dill.loads, dill.dumps = saved


def enc(t):
    import base64

    return base64.b64encode(t.encode("utf-8")).decode("utf-8")


KINDS = ["text", "number", "flag", "list", "map", "asset", "null", "none"]


def value(sx, nm, kinds):
    """(wire, what the provider sees, provider-made value)"""
    import pulumi

    k = sx.choice(nm + "kind", kinds)
    if k == "text":
        v = sx.str(nm, 3)
    elif k == "number":
        v = sx.int(nm + "n", -5, 5)
    elif k == "flag":
        v = sx.concrete(sx.bool(nm + "f"))
    elif k == "list":
        v = [sx.str(nm, 2), 1, [True]]
    elif k == "map":
        v = {"k": {"x_y": sx.str(nm, 2)}, "n": 2}
    elif k == "asset":
        t = sx.str(nm, 2)
        a = pulumi.StringAsset(t)
        return {SIG: ASSET, "text": t}, a, a
    elif k == "unknown":
        return UNKNOWN_WIRE, pulumi.output.Unknown, None
    elif k == "null":
        return None, None, None
    else:
        return NONE, NONE, NONE
    return v, v, v


NONE = object()


def bag(sx, nm, kinds, n=2):
    wire, seen = {}, {}
    for k in ["a", "b_c"][:n]:
        w, s, _ = value(sx, nm + k, kinds if k == "a" else kinds[:1])
        if w is not NONE:
            wire[k] = w
            if s is not None:
                seen[k] = s
    return wire, seen


def equal(sx, got, want):
    import pulumi

    if isinstance(want, pulumi.StringAsset):
        return isinstance(got, pulumi.StringAsset) and sx.eq(got.text, want.text)
    if want is pulumi.output.Unknown:
        return isinstance(got, want)
    if isinstance(want, dict):
        return isinstance(got, dict) and sorted(got) == sorted(want) and sx.and_(*[equal(sx, got[k], want[k]) for k in want], True)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and sx.and_(*[equal(sx, g, w) for g, w in zip(got, want)], True)
    return sx.eq(got, want)


def outs(sx, nm, kinds):
    """Properties made by the provider: (value, wire)"""
    r = sx.choice(nm, ["none", "some", "empty", "stale"])
    if r == "none":
        return None, {}
    if r == "empty":
        return {}, {}
    o, w = {}, {}
    x, _, v = value(sx, nm + "o", kinds)
    if v is not NONE:
        o["out"] = v
        if v is not None:
            w["out"] = x
    if r == "stale":
        o[KEY] = "stale"
    return o, w


def methods(sx, method, kinds, rkinds):
    """Each request calls that method of the provider in the request, and answers with its result."""
    from pulumi.runtime.proto import provider_pb2 as m
    from pulumi import dynamic as dyn

    calls = []
    fails = sx.choice("fails", [False, True])
    preview = method in ("Check", "Diff")
    id_ = sx.str("id", 3, 1)
    hist = method in ("Check", "Diff", "Update")
    sub = sx.choice("vary", ["args", "result"]) if not fails else "args"
    ks = kinds + (["unknown"] if preview else []) if sub == "args" else ["text"]
    nw, ns = bag(sx, "new", ks)
    ow, os_ = bag(sx, "old", ks[:1] + ["none"], 1) if hist else ({}, {})
    unknown = preview and hist and sx.choice("provider", ["known", "unknown"]) == "unknown"
    has_old = hist and (unknown or sx.choice("olds", [True, False]))
    pn = UNKNOWN_WIRE if unknown else enc("new")
    nw[KEY] = ns[KEY] = pn
    if unknown:
        from pulumi.output import Unknown

        ns[KEY] = Unknown
    if has_old:
        ow[KEY] = os_[KEY] = enc("old")
    else:
        ow, os_ = {}, {}
    res = {}

    class P(dyn.ResourceProvider):
        def __init__(self, who):
            super().__init__()
            self.who = who

        def note(self, what, *args):
            calls.append((self.who, what, args))
            if fails:
                raise Boom("provider")
            return res["value"]

        def check(self, _olds, news):
            return self.note("Check", dict(_olds), dict(news))

        def diff(self, _id, _olds, _news):
            return self.note("Diff", _id, dict(_olds), dict(_news))

        def create(self, props):
            return self.note("Create", dict(props))

        def read(self, id_, props):
            return self.note("Read", id_, dict(props))

        def update(self, _id, _olds, _news):
            return self.note("Update", _id, dict(_olds), dict(_news))

        def delete(self, _id, _props):
            self.note("Delete", _id, dict(_props))

    rk = rkinds if sub == "result" else rkinds[:1]
    want = {}
    if method == "Check":
        o, w = outs(sx, "inputs", rk)
        n = sx.choice("failures", [0, 1, 2, None])
        fs = [(sx.str("property%d" % i, 2), sx.str("reason%d" % i, 2)) for i in range(n or 0)]
        res["value"] = dyn.CheckResult(o, None if n is None else [dyn.CheckFailure(*f) for f in fs])
        want = (w if o is not None else None, fs)
        args = (os_, ns)
    elif method == "Diff":
        c = sx.choice("changes", [None, True, False])
        reps = sx.choice("replaces", [None, 0, 2])
        stab = sx.choice("stables", [None, 0, 2])
        dbr = sx.choice("before", [None, True, False])
        names = [sx.str("name%d" % i, 2) for i in range(2)]
        r = {"changes": c, "delete_before_replace": dbr, "replaces": None if reps is None else names[:reps], "stables": None if stab is None else names[::-1][:stab]}
        res["value"] = dyn.DiffResult(**{k: v for k, v in r.items() if v is not None})
        want = r
        args = (id_, os_, ns)
    elif method == "Delete":
        res["value"] = None
        args = (id_, ns)
    else:
        o, w = outs(sx, "outs", rk)
        want = w
        rid = sx.str("rid", 3, 0 if method == "Read" else 1)
        gone = method == "Read" and sx.choice("gone", [False, True])
        if method == "Create":
            res["value"], args = dyn.CreateResult(rid, o), (ns,)
        elif method == "Read":
            res["value"] = dyn.ReadResult() if gone else dyn.ReadResult(rid, o)
            args = (id_, ns)
            if gone:
                rid, want = "", {}
        else:
            res["value"], args = dyn.UpdateResult(o), (id_, os_, ns)
    kw = {"urn": "urn:pulumi:s::p::pulumi-python:dynamic:Resource::n"}
    if hist:
        kw["olds"], kw["news"] = struct(ow), struct(nw)
    else:
        kw["properties"] = struct(nw)
    if method not in ("Create", "Check"):
        kw["id"] = id_
    err = resp = None
    with pickled({"new": P("new"), "old": P("old")}):
        s = server()
        try:
            resp = getattr(s, method)(getattr(m, method + "Request")(**kw), None)
        except Boom as e:
            err = e
    sx.check(len(calls) == 1, "calls-the-provider-once", lambda: calls)
    for who, what, got in calls:
        sx.check(who == ("old" if unknown else "new"), "calls-the-provider-of-the-request", lambda: who)  # noqa: B023
        sx.check(what == method and len(got) == len(args), "calls-that-method", lambda: what)  # noqa: B023
        sx.check(sx.and_(*[equal(sx, g, a) for g, a in zip(got, args)]), "with-the-properties", lambda: (got, args))  # noqa: B023
    sx.check((err is not None) == fails, "failure-reported", lambda: err)
    if resp is None:
        return
    if method == "Check":
        w, fs = want
        w = {k: v for k, v in nw.items() if v is not None} if w is None else {**w, KEY: pn}
        sx.check(wire_eq(sx, resp.inputs, w), "result-returned", lambda: (plain(resp.inputs), w))
        sx.check(len(resp.failures) == len(fs) and sx.and_(*[sx.and_(sx.eq(a.property, p), sx.eq(a.reason, r)) for a, (p, r) in zip(resp.failures, fs)], True),
                 "failures-returned", lambda: resp.failures)
    elif method == "Diff":
        D = m.DiffResponse
        sx.check(resp.changes == {None: D.DIFF_UNKNOWN, True: D.DIFF_SOME, False: D.DIFF_NONE}[want["changes"]], "result-returned", lambda: resp.changes)
        for f in ("replaces", "stables"):
            g, x = list(getattr(resp, f)), want[f] or []
            sx.check(len(g) == len(x) and sx.and_(*[sx.eq(p, q) for p, q in zip(g, x)], True), "result-returned", lambda: (f, g, x))  # noqa: B023
        sx.check(bool(resp.deleteBeforeReplace) == bool(want["delete_before_replace"]), "result-returned")
    elif method != "Delete":
        sx.check(wire_eq(sx, resp.properties, {**want, KEY: pn}), "result-returned", lambda: (plain(resp.properties), want))
        if method != "Update":
            sx.check(sx.eq(resp.id, rid), "id-returned", lambda: (resp.id, rid))


def defaults(sx):
    """Methods a provider leaves out: everything is valid, nothing is known to change, reading and updating change nothing."""
    from pulumi.runtime.proto import provider_pb2 as m
    from pulumi import dynamic as dyn

    class P(dyn.ResourceProvider):
        pass

    method = sx.choice("method", ["Check", "Diff", "Create", "Read", "Update", "Delete", "Configure", "Cancel"])
    nw, ns = bag(sx, "new", KINDS)
    nw[KEY] = enc("new")
    w = {k: v for k, v in nw.items() if v is not None}
    id_ = sx.str("id", 3, 1)
    with pickled({"new": P()}):
        s = server()
        if method == "Check":
            r = s.Check(m.CheckRequest(news=struct(nw), olds=struct({})), None)
            sx.check(wire_eq(sx, r.inputs, w) and len(r.failures) == 0, "valid", lambda: plain(r.inputs))
        elif method == "Diff":
            r = s.Diff(m.DiffRequest(id=id_, news=struct(nw), olds=struct(nw)), None)
            sx.check(r.changes == m.DiffResponse.DIFF_UNKNOWN and not list(r.replaces), "changes-unknown", lambda: r.changes)
        elif method == "Create":
            try:
                s.Create(m.CreateRequest(properties=struct(nw)), None)
                sx.check(False, "create-is-required")
            except Exception as e:  # noqa
                sx.check("create" in str(e), "create-is-required", lambda: e)  # noqa: B023
        elif method == "Read":
            r = s.Read(m.ReadRequest(id=id_, properties=struct(nw)), None)
            sx.check(wire_eq(sx, r.properties, w), "read-as-is", lambda: plain(r.properties))
            sx.check(sx.eq(r.id, id_), "read-as-is")
        elif method == "Update":
            r = s.Update(m.UpdateRequest(id=id_, news=struct(nw), olds=struct(nw)), None)
            sx.check(wire_eq(sx, r.properties, {KEY: nw[KEY]}), "keeps-the-provider", lambda: plain(r.properties))
        elif method == "Delete":
            r = s.Delete(m.DeleteRequest(id=id_, properties=struct(nw)), None)
            sx.check(r is not None, "deletion-answered")
        elif method == "Cancel":
            sx.check(s.Cancel(None, None) is not None, "cancellation-answered")
        else:
            r = s.Configure(m.ConfigureRequest(), None)
            sx.check(not r.acceptSecrets and not r.supportsPreview, "no-secrets-or-previews", lambda: r)


def declare(sx, kinds):
    """The engine gets the type, the properties and the provider; the caller's properties stay as they were."""
    import pulumi
    from pulumi import dynamic as dyn
    from pulumi.runtime.stack import wait_for_rpcs

    async def main(loop):
        from . import lib

        mon = basic_monitor()
        lib.configure(dry_run=sx.concrete(sx.bool("preview")), monitor=mon)

        class Prov(dyn.ResourceProvider):
            pass

        class A(dyn.Resource):
            pass

        class B(dyn.Resource, module="mod", name="Thing"):
            pass

        class C(dyn.Resource, name="Thing"):
            pass

        class M(dyn.Resource, module="mod/sub"):
            pass

        cls, typ = sx.choice("class", [(A, "dynamic:Resource"), (B, "dynamic/mod:Thing"), (C, "dynamic:Thing"), (dyn.Resource, "dynamic:Resource"),
                                       (M, "dynamic/mod/sub:Resource")])
        wire, seen = {}, {}
        for k in ("a", "b_c"):
            w, _, v = value(sx, k, kinds if k == "a" else ["text", "null"])
            if v is not NONE:
                seen[k] = v
                if w is not None:
                    wire[k] = w
        form = sx.choice("b", ["plain", "output", "secret"])
        if form != "plain" and seen.get("b_c") is not None:
            seen["b_c"] = mk_output(loop, seen["b_c"], True, form == "secret")
            if form == "secret":
                wire["b_c"] = {SIG: SECRET, "value": wire["b_c"]}
        reserved = sx.choice("reserved", [False, "x", None, ""])
        if reserved is not False:
            seen[KEY] = reserved
            reserved = True
        given = dict(seen)
        provs = [Prov(), Prov()]
        table = {}
        errs, made = [], []
        with pickled(table):
            for i in range(2):
                try:
                    made.append(cls(provs[i if sx.choice("other", [True, False]) else 0] if i else provs[0], "n%d" % i, seen))
                except Exception as e:  # noqa
                    if not reserved:
                        raise
                    errs.append(e)
            await wait_for_rpcs(False)
        sx.check(list(seen) == list(given) and all(seen[k] is given[k] for k in given), "own-properties-untouched", lambda: seen)
        reqs = mon.sent("RegisterResource")
        sx.check(len(errs) == (2 if reserved else 0), "reserved-name-refused", lambda: errs)
        sx.check(len(reqs) == (0 if reserved else 2), "registered-once", lambda: reqs)
        for i, q in enumerate(reqs):
            sx.check(q.type == "pulumi-python:" + typ and q.custom and q.name == "n%d" % i, "type-named", lambda: (q.type, typ))  # noqa: B023
            got = plain(q.object)
            p = got.pop(KEY, None)
            sx.check(wire_eq(sx, got, wire), "properties-sent", lambda: (got, wire))  # noqa: B023
            import base64

            t = base64.b64decode(p).decode("utf-8") if isinstance(p, str) else None
            sx.check(t in table and table[t] is (provs[0] if i == 0 or len(table) == 1 else provs[1]), "provider-sent", lambda: (p, table))  # noqa: B023

    run(sx, main, fifo=True)


class Unpicklable:
    def __reduce__(self):
        raise Boom("unpicklable")


def serializing(sx):
    """Serializing works any number of times, does not depend on the order of dictionaries, and leaves the pickler as it was."""
    import base64

    import dill
    from pulumi import dynamic as dyn
    from pulumi.dynamic.dynamic import serialize_provider

    P = pickle._Pickler
    mine = (P._batch_setitems, P.save_dict, pickle.Pickler)
    texts = {}
    try:
        for i in range(sx.choice("n", [2, 3, 1])):
            p = dyn.ResourceProvider()
            order = sx.choice("order%d" % i, [[0, 1, 2], [2, 0, 1]])
            kind = sx.choice("keys%d" % i, ["texts", "mixed"])
            keys = {"texts": ["a", "b", "c"], "mixed": ["a", None, (1, "x")]}[kind]
            p.items = {keys[j]: {"v": j} for j in order}
            fails = sx.choice("fails%d" % i, [False, True])
            if fails:
                p.zzz = Unpicklable()
            err = t = None
            try:
                t = serialize_provider(p)
            except Boom as e:
                err = e
            sx.check((err is not None) == fails, "failure-reported")
            if t is not None:
                q = dill.loads(base64.b64decode(t))
                sx.check(type(q) is type(p) and q.items == p.items, "serialized-as-it-was", lambda: vars(q))  # noqa: B023
                if kind == "texts":
                    sx.check(texts.setdefault(kind, t) == t, "same-text-for-the-same-provider", lambda: texts)
            sx.check((P._batch_setitems, P.save_dict, pickle.Pickler) == mine, "pickler-restored")
    finally:
        P._batch_setitems, P.save_dict, pickle.Pickler = mine


CELLS = [Cell("request-" + m.lower(), methods, dict(method=m, kinds=KINDS, rkinds=KINDS)) for m in
         ("Check", "Diff", "Create", "Read", "Update", "Delete")] + [
    Cell("defaults", defaults),
    Cell("declare", declare, dict(kinds=KINDS)),
    Cell("serializing", serializing),
]
