"""A pool of forked workers, driven by one thread.  (multiprocessing.Pool forks its replacement workers from a
helper thread while other threads hold locks, and a worker now and then starts with a lock that nobody will ever
release.)  A worker that ends or stops making progress is replaced and its task is given to a new one, once."""
import os
import signal
import time
from multiprocessing import Pipe
from multiprocessing.connection import wait

RECYCLE = 50     # tasks after which a worker is replaced
IDLE = 45.0      # seconds without CPU progress after which a worker counts as stuck
TICK = os.sysconf("SC_CLK_TCK")


class Lost(Exception):
    pass


def cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            f = f.read().rpartition(")")[2].split()
        return (int(f[11]) + int(f[12])) / TICK
    except (OSError, IndexError, ValueError):
        return None


class Worker:
    def __init__(self, fn, close):
        here, there = Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                here.close()
                for c in close:
                    c.close()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                serve(fn, there)
                code = 0
            except BaseException:  # noqa
                import traceback

                traceback.print_exc()
            finally:
                os._exit(code)
        there.close()
        self.conn = here
        self.task = None
        self.done = 0
        self.seen = 0.0
        self.cpu = None

    def give(self, task):
        self.task = task
        self.seen = time.time()
        self.cpu = cpu(self.pid)
        self.conn.send(task[1])

    def stuck(self):
        now = time.time()
        if now - self.seen < IDLE:
            return False
        c = cpu(self.pid)
        if c is not None and c - (self.cpu or 0) > 0.05:
            self.seen, self.cpu = now, c
            return False
        return True

    def end(self):
        self.conn.close()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def serve(fn, conn):
    while True:
        try:
            args = conn.recv()
        except EOFError:
            return
        try:
            out = (True, fn(args))
        except BaseException as e:  # noqa
            import traceback

            out = (False, "%r\n%s" % (e, "".join(traceback.format_exception(e))[-3000:]))
        conn.send(out)


class Pool:
    """submit(key, args) queues a task; poll(timeout) gives [(key, result or Lost/Exception)]."""

    def __init__(self, fn, jobs):
        self.fn, self.jobs = fn, jobs
        self.workers = []
        self.waiting = []
        self.tries = {}
        self.serial = 0

    def submit(self, key, args):
        self.serial += 1
        self.waiting.append((self.serial, args, key))

    def spawn(self):
        w = Worker(self.fn, [x.conn for x in self.workers])
        self.workers.append(w)
        return w

    def drop(self, w):
        self.workers.remove(w)
        w.end()

    def dispatch(self):
        for w in [w for w in self.workers if w.task is None and w.done >= RECYCLE]:
            self.drop(w)
        while self.waiting:
            w = next((w for w in self.workers if w.task is None), None)
            if w is None:
                if len(self.workers) >= self.jobs:
                    return
                w = self.spawn()
            try:
                w.give(self.waiting[0])
            except OSError:
                w.task = None
                self.drop(w)
                continue
            self.waiting.pop(0)

    def fail(self, w, why):
        t = w.task
        self.drop(w)
        n = self.tries[t[0]] = self.tries.get(t[0], 0) + 1
        if n < 2:
            self.waiting.insert(0, t)
            return []
        return [(t[2], Lost(why))]

    def poll(self, timeout=0.2):
        self.dispatch()
        busy = {w.conn: w for w in self.workers if w.task is not None}
        out = []
        for c in wait(list(busy), timeout):
            w = busy[c]
            try:
                ok, res = c.recv()
            except (EOFError, OSError):
                out += self.fail(w, "a worker ended")
                continue
            key = w.task[2]
            w.task = None
            w.done += 1
            out.append((key, res if ok else Lost(res)))
        for w in list(self.workers):
            if w.task is not None and w.stuck():
                out += self.fail(w, "a worker stopped making progress")
        return out

    def close(self):
        for w in list(self.workers):
            self.drop(w)
