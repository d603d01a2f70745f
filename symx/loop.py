"""A deterministic asyncio event loop whose external completions are scheduled by the symbolic executor.

The loop is CPython's own BaseEventLoop (the same `_run_once`, `_ready`, `_scheduled`); only the selector is
replaced: where the real loop would block waiting for the outside world, the harness decides -- as a
nondeterministic choice -- which outstanding external operation (RPC in the executor, user future) finishes."""
import asyncio
import contextvars
from asyncio import base_events, events


class Hang(Exception):
    """Nothing is ready, nothing is scheduled and nothing is outstanding: the program would wait forever."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        self.loop._outside(timeout)
        return []

    def close(self):
        pass


class SymLoop(base_events.BaseEventLoop):
    def __init__(self, sx, preempt=0):
        super().__init__()
        self.sx = sx
        self._selector = _Selector(self)
        self.pending = []  # outstanding external operations: (name, callable)
        self.preempt = preempt
        self.fifo = False  # complete external operations in the order they were started (no schedule exploration)
        self._now = 0.0
        self.hung = False
        self.steps = 0
        self.fired = []
        self.exceptions = []
        self.set_exception_handler(lambda loop, ctx: self.exceptions.append(ctx))

    def time(self):
        return self._now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    def _outside(self, timeout):
        self.steps += 1
        if self.steps > 20000:
            raise Hang("step limit")
        if timeout == 0:
            if self.preempt > 0 and self.pending and self._ready:
                # an external completion may land before already-ready callbacks have run
                if self.sx.choice("preempt", 2) == 1:
                    self.preempt -= 1
                    self._fire()
            return
        if self.pending:
            self._fire()
            return
        if timeout is not None:
            self._now += timeout
            return
        if self._stopping or self._ready:
            return
        self.hung = True
        raise Hang("event loop would block forever")

    def _fire(self):
        n = len(self.pending)
        i = self.sx.choice("complete", n) if n > 1 and not self.fifo else 0
        name, fn = self.pending.pop(i)
        self.fired.append(name)
        fn()

    def external(self, name, fn):
        """Register an external operation; `fn` runs when it completes."""
        self.pending.append((name, fn))

    def external_future(self, name, result=None, exc=None):
        fut = self.create_future()

        def done():
            if not fut.done():
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(result)

        self.external(name, done)
        return fut

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def run():
            try:
                # pool threads run in an empty context
                r = contextvars.Context().run(func, *args)
            except Exception as e:  # noqa
                if not fut.cancelled():
                    fut.set_exception(e)
            except BaseException as e:
                if not fut.cancelled():
                    fut.set_exception(e)
                raise
            else:
                if not fut.cancelled():
                    fut.set_result(r)

        self.external(getattr(func, "__name__", "op"), run)
        return fut


def run_loop(sx, main, preempt=0, drain=True, fifo=False):
    """Run coroutine function `main(loop)` to completion; returns (result, exception, loop)."""
    loop = SymLoop(sx, preempt)
    loop.fifo = fifo
    asyncio.set_event_loop(loop)
    res, exc = None, None
    try:
        try:
            res = loop.run_until_complete(main(loop))
        except Exception as e:  # noqa
            exc = e
        if drain and exc is None:
            drain_loop(loop)
    finally:
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        loop._ready.clear()
        loop.close()
        asyncio.set_event_loop(None)
    return res, exc, loop


def drain_loop(loop):
    """Run until quiescent (no ready callbacks, no outstanding external operation)."""
    n = 0
    while loop._ready or loop.pending or loop._scheduled:
        n += 1
        if n > 5000:
            break
        loop.call_soon(lambda: None)
        loop.call_soon(loop.stop)
        if not [h for h in loop._ready][:-2] and loop.pending:
            loop._fire()
        loop.run_forever()
        if not loop._ready and not loop.pending and not loop._scheduled:
            break
