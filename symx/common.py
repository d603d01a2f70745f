"""Things shared by the symbolic run and the concrete replay (no z3 here)."""
import asyncio
import contextvars
import gc
import os
import shutil
import sys
import tempfile

from .loop import SymLoop, run_loop, drain_loop, Hang  # noqa


class Skip(Exception):
    """The harness cannot be applied (an internal name it needs is gone): inconclusive, never an alarm."""


class Cell:
    def __init__(self, name, fn, params=None, tiers=("quick", "thorough"), max_paths=200000, weight=1.0):
        self.name, self.fn, self.params = name, fn, dict(params or {})
        self.tiers, self.max_paths, self.weight = tiers, max_paths, weight


def need(mod, name):
    try:
        return getattr(mod, name)
    except AttributeError:
        raise Skip("%s has no %s" % (getattr(mod, "__name__", mod), name))


_RESETTERS = []
_HASHES = {}
_SEQ = [0]


def stable_hash(obj):
    """Creation-order hash so that sets of objects iterate deterministically across re-executions."""
    h = _HASHES.get(id(obj))
    if h is None:
        _SEQ[0] += 1
        h = _HASHES[id(obj)] = (obj, _SEQ[0])
    return h[1]


def install_stable_hashes():
    import pulumi

    pulumi.Resource.__hash__ = stable_hash
    pulumi.Output.__hash__ = stable_hash


ENV_PREFIX = ("PULUMI_",)


def reset(sx):
    """Bring every piece of process-global SDK state back to its initial value."""
    _HASHES.clear()
    _SEQ[0] = 0
    for k in list(os.environ):
        if k.startswith(ENV_PREFIX):
            del os.environ[k]
    import pulumi
    from pulumi.runtime import settings, rpc, rpc_manager

    settings.configure(settings.Settings(project="project", stack="stack"))
    settings.ROOT.set(None)
    rpc_manager.RPC_MANAGER.clear()
    for nm in ("_RESOURCE_PACKAGES", "_RESOURCE_MODULES"):
        d = getattr(rpc, nm, None)
        if isinstance(d, dict):
            d.clear()
    from pulumi.runtime import config as rconfig

    try:
        rconfig.set_all_config({})
    except Exception:  # noqa
        pass
    for r in _RESETTERS:
        r()


def cleanup(sx):
    try:
        asyncio.set_event_loop(None)
    except Exception:  # noqa
        pass


class FakeRpcError:
    """Built lazily: needs grpc."""


def rpc_error(code_name="UNKNOWN", details="boom"):
    import grpc

    class _E(grpc.RpcError):
        def __init__(self):
            super().__init__(details)

        def code(self):
            return getattr(grpc.StatusCode, code_name)

        def details(self):
            return details

    return _E()


class Stuck(BaseException):
    """The code under test keeps running without ever coming to an end."""


class watchdog:
    """Raises Stuck in code that runs for `limit` seconds of this process's time (the solver's, `spent()`, aside),
    or that waits that long for something that nothing in this process is working on."""

    def __init__(self, path, limit=20.0, spent=lambda: 0.0):
        self.path, self.limit, self.spent = path, limit, spent

    def __enter__(self):
        import signal
        import time

        self.path.stuck = False
        t0 = time.process_time() - self.spent()
        seen = [time.process_time(), 0]  # idle: how often no time at all had passed for this process

        def tick(signum, frame):
            now = time.process_time()
            seen[:] = [now, seen[1] + 1 if now - seen[0] < 0.02 else 0]
            if now - self.spent() - t0 > self.limit or seen[1] > self.limit / 2:
                self.path.stuck = True
                raise Stuck("still running after %d s" % self.limit)

        self.old = signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, 5.0, 2.0)

    def __exit__(self, *a):
        import signal

        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Monitor:
    """Scriptable resource monitor / engine stand-in.  Records every request."""

    def __init__(self, features=None):
        self.features = features or {}
        self.requests = []
        self.on = {}

    def SupportsFeature(self, req):
        from pulumi.runtime.proto import resource_pb2

        self.requests.append(("SupportsFeature", req))
        if "SupportsFeature" in self.on:
            return self.on["SupportsFeature"](req)
        v = self.features.get(req.id, False)
        return resource_pb2.SupportsFeatureResponse(hasSupport=v)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def call(req, *a, **k):
            self.requests.append((name, req))
            h = self.on.get(name)
            if h is None:
                raise rpc_error("UNIMPLEMENTED", "no handler for " + name)
            return h(req)

        return call

    def sent(self, name):
        return [r for n, r in self.requests if n == name]


def configure(dry_run=None, monitor=None, project="project", stack="stack", engine=None, **kw):
    from pulumi.runtime import settings

    s = settings.Settings(project=project, stack=stack, monitor=monitor, engine=engine, dry_run=dry_run, **kw)
    settings.configure(s)
    return s


def plain(v):
    """Struct / ListValue (real or model) -> plain python."""
    from google.protobuf import struct_pb2

    if isinstance(v, struct_pb2.Struct):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, struct_pb2.ListValue):
        return [plain(x) for x in v]
    return v


def struct(d):
    from google.protobuf import struct_pb2

    s = struct_pb2.Struct()
    for k, v in d.items():
        s[k] = v
    return s


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="symx_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
