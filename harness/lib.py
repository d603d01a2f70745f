"""Helpers shared by harnesses (used both symbolically and in concrete replay; no z3 here)."""
import asyncio

from symx.common import Cell, Skip, need, Monitor, configure, plain, struct, rpc_error, Hang, Scratch  # noqa
from symx import common as _common


def run_loop(sx, main, **kw):
    async def m(loop):
        loop.sources = []
        r = await main(loop)
        for f, d in loop.sources:
            if f.done() and not f.cancelled() and f.exception() is None:
                sx.check(f.result() == d, "sources-keep-their-dependencies", lambda: (d, f.result()))  # noqa: B023
        return r

    return _common.run_loop(sx, m, **kw)


class Boom(Exception):
    """The failure injected by harnesses."""


KINDS = ("Boom", "ValueError", "KeyError", "TypeError", "RuntimeError", "AssertionError", "OSError", "NotImplementedError",
         "AttributeError", "IndexError", "TimeoutError", "ImportError", "RunError", "RpcError")
CODES = ("UNKNOWN", "CANCELLED", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
         "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "DATA_LOSS",
         "UNAUTHENTICATED")


def kind_of_failure(kind):
    """-> what makes an exception of that kind, of a message"""
    import builtins

    import pulumi

    if kind == "RunError":
        return pulumi.RunError
    if kind == "RpcError":
        return lambda msg: rpc_error("INTERNAL", msg)
    return globals().get(kind) or getattr(builtins, kind)


class Tok:
    """Stands for a resource in dependency sets where only identity matters."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "Tok(%d)" % self.n


def fut(loop, value=None, exc=None, ext=None):
    """A future holding value/exc; completed by the environment at an arbitrary moment when `ext` is given."""
    if ext:
        return loop.external_future(ext, value, exc)
    f = loop.create_future()
    if exc is not None:
        f.set_exception(exc)
        f.exception()
    else:
        f.set_result(value)
    return f


def quiet(f):
    """Mark exceptions of a future as retrieved."""
    if asyncio.isfuture(f):
        f.add_done_callback(lambda x: x.cancelled() or x.exception())
    return f


def mk_output(loop, value, known=True, secret=False, deps=(), exc=None, ext=None):
    """An Output with the given components; `ext` (a set of component names) are completed externally."""
    from pulumi import Output

    ext = ext or ()
    e = lambda n: n if n in ext else None  # noqa
    rf = fut(loop, set(deps), ext=e("res"))
    if hasattr(loop, "sources"):
        loop.sources.append((rf, frozenset(deps)))
    vf = quiet(fut(loop, value, exc, ext=e("val")))
    kf = quiet(fut(loop, known, exc if exc is not None else None, ext=e("known")))
    sf = quiet(fut(loop, secret, exc if exc is not None else None, ext=e("sec")))
    o = Output(rf, vf, kf, sf)
    quiet(o._is_known)
    quiet(o._future)
    return o


class Seen:
    def __init__(self):
        self.value = self.known = self.secret = self.deps = None
        self.exc = None
        self.exc_known = self.exc_secret = self.exc_deps = None
        self.raw = None

    def __repr__(self):
        return "Seen(%r)" % (self.__dict__,)


async def observe(o):
    """Await every component of an output."""
    s = Seen()
    try:
        s.raw = await o._future
        s.value = await o.future(with_unknowns=True)
        s.plainvalue = await o.future()
    except Exception as e:  # noqa
        s.exc = e
    try:
        s.known = await o.is_known()
    except Exception as e:  # noqa
        s.exc_known = e
    try:
        s.secret = await o.is_secret()
    except Exception as e:  # noqa
        s.exc_secret = e
    try:
        s.deps = await o.resources()
    except Exception as e:  # noqa
        s.exc_deps = e
    return s


def has_unknown(v):
    """Reference: does a (tree shaped) value contain an unknown?"""
    from pulumi.output import Unknown

    if isinstance(v, Unknown):
        return True
    if isinstance(v, dict):
        return any(has_unknown(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(has_unknown(x) for x in v)
    return False


def same(sx, a, b):
    """Deep equality that treats Unknown instances as equal to each other."""
    from pulumi.output import Unknown

    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return isinstance(a, Unknown) and isinstance(b, Unknown)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        for k, v in a.items():
            alts = []
            for k2, v2 in b.items():
                e = sx.eq(k, k2)
                if e is False:
                    continue
                alts.append(sx.and_(e, same(sx, v, v2)))
            cs.append(sx.or_(*alts))
        return sx.and_(*cs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return sx.and_(*[same(sx, x, y) for x, y in zip(a, b)])
    return sx.eq(a, b)


def subset_choice(sx, name, pool, maxn=None):
    n = len(pool)
    opts = []
    for m in range(1 << n):
        s = [pool[i] for i in range(n) if m >> i & 1]
        if maxn is None or len(s) <= maxn:
            opts.append(s)
    return sx.choice(name, opts)


# ---- wire protocol constants (fixed by the engine, not by the SDK) ----
SIG = "4dabf18193072939515e22adb298388d"
ASSET = "c44067f5952c0a294b673a41bacd8c17"
ARCHIVE = "0def7320c3a5731c473e5ecbe6d01bc7"
SECRET = "1b47061264138c4ac30d75fd1eb44270"
RESOURCE = "5cf8f73096256a8f31e491e813e4eb8e"
OUTPUT = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
UNKNOWN_WIRE = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"


def run(sx, main, preempt=0, hang_label="never-hangs", fifo=False):
    _, exc, loop = run_loop(sx, main, preempt=preempt, fifo=fifo)
    if isinstance(exc, Hang):
        sx.check(False, hang_label, lambda: loop.fired)
    elif exc is not None:
        raise exc
    return loop


def mk_resource(loop, urn, custom=True, id_=None, id_known=True, id_secret=False, ext=()):
    """A resource that exists already (no registration): only its urn/id outputs matter."""
    import pulumi

    if custom:
        r = pulumi.CustomResource("t", "n", dependency=True)
    else:
        class Comp(pulumi.ComponentResource):
            def __init__(self):
                pulumi.Resource.__init__(self, "t", "n", False, dependency=True)
                self._remote = False
                self._childResources = set()

        r = Comp()
    r.__dict__["urn"] = mk_output(loop, urn, True, False, [r], ext=ext)
    if custom:
        r.__dict__["id"] = mk_output(loop, id_, id_known, id_secret, [r], ext=ext)
    return r


def wire_eq(sx, got, exp):
    """Equality of a serialized value with its reference (plain python trees)."""
    got = plain(got)
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(got) != set(exp):
            return False
        return sx.and_(*[wire_eq(sx, got[k], v) for k, v in exp.items()])
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return False
        return sx.and_(*[wire_eq(sx, a, b) for a, b in zip(got, exp)])
    if exp is None or got is None:
        return exp is None and got is None
    if isinstance(exp, bool) != isinstance(got, bool) and not (hasattr(exp, "__sx__") or hasattr(got, "__sx__")):
        return False
    return sx.eq(got, exp)


def urn_of(req, project="project", stack="stack"):
    """What the engine would assign (parent type chains are not needed by the harnesses)."""
    return "urn:pulumi:%s::%s::%s::%s" % (stack, project, req.type, req.name)


def register_response(req, obj=None, id_=None, urn=None, deps=None):
    from pulumi.runtime.proto import resource_pb2

    kw = {}
    if deps:
        P = resource_pb2.RegisterResourceResponse.PropertyDependencies
        kw["propertyDependencies"] = {k: P(urns=list(v)) for k, v in deps.items()}
    return resource_pb2.RegisterResourceResponse(
        urn=urn if urn is not None else urn_of(req), id=(req.name + "-id" if req.custom else "") if id_ is None else id_,
        object=struct(plain(req.object) if obj is None else obj), **kw)


def basic_monitor(features=("secrets", "resourceReferences", "outputValues")):
    """An engine that accepts every registration and echoes the inputs."""
    mon = Monitor({f: True for f in features})
    mon.on["RegisterResource"] = lambda req: register_response(req)
    mon.on["RegisterResourceOutputs"] = lambda req: _empty()
    return mon


def _empty():
    from google.protobuf import empty_pb2

    return empty_pb2.Empty()


async def settled(loop, o, sx, label="settles"):
    """Observe an output that must settle (values or failures); a hang is caught by the loop."""
    return await observe(o)


async def coro(v):
    """An awaitable that can be awaited only once."""
    return v


def mk_provider(loop, urn, id_="prov-id", pkg="pkg", id_known=True, exc=None, ext=(), deps=()):
    """A provider resource that exists already."""
    import pulumi

    p = pulumi.ProviderResource(pkg, "prov", dependency=True)
    p.__dict__["urn"] = mk_output(loop, urn, True, False, [p], ext=ext)
    p.__dict__["id"] = mk_output(loop, id_, id_known, False, [p], exc=exc, ext=ext)
    return p


def invoke_response(d, failures=()):
    from pulumi.runtime.proto import provider_pb2 as m

    kw = {"return": struct(d)}
    if failures:
        kw["failures"] = [m.CheckFailure(property=p, reason=r) for p, r in failures]
    return m.InvokeResponse(**kw)
