"""A stand-in for the `pulumi` command line (used by the automation checks): records what is run, answers what a case says."""
import _thread
import contextlib
import json
import subprocess
import tempfile
import threading
import time

from .lib import *

# the value flags of the commands the SDK runs (pkg/cmd/pulumi/*.go); every other flag is a switch
VALUE_FLAGS = {"message", "target", "replace", "policy-pack", "policy-pack-config", "parallel", "color", "verbose", "tracing", "plan",
               "save-plan", "client", "exec-kind", "event-log", "stack", "page-size", "page", "secrets-provider", "file", "exec-agent",
               "config", "config-file", "copy-config-from", "server", "checksum"}
SHORT = {"-m": "message", "-t": "target", "-p": "parallel", "-v": "verbose", "-s": "stack", "-y": "yes", "-f": "skip-preview", "-j": "json",
         "-d": "debug"}


def parse(argv):
    """-> (positional arguments, {flag: [values]}) the way cobra/pflag reads them."""
    value_flags = VALUE_FLAGS
    if argv[:2] == ["config", "set-all"]:
        value_flags = VALUE_FLAGS | {"secret", "plaintext"}
    pos, flags, i = [], {}, 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if type(a) is str:
            if a == "--":
                pos.extend(argv[i:])
                break
            if a in SHORT:
                a = "--" + SHORT[a]
            if a.startswith("--"):
                f, eq, v = a[2:].partition("=")
                if f not in value_flags:
                    if eq and v in ("false", "0"):
                        continue
                    flags.setdefault(f, []).append(True)
                elif eq:
                    flags.setdefault(f, []).append(v)
                else:
                    if i >= len(argv):
                        raise AssertionError("flag needs an argument: --" + f)
                    flags.setdefault(f, []).append(argv[i])
                    i += 1
                continue
            if a.startswith("-") and a != "-":
                flags.setdefault("?", []).append(a)  # an unknown shorthand: the CLI fails
                continue
            pos.append(a)
            continue
        for f in value_flags:
            if a.startswith("--" + f + "="):
                flags.setdefault(f, []).append(a[len(f) + 3:])
                break
        else:
            if a.startswith("-") and a != "-":
                flags.setdefault("?", []).append(a)
            else:
                pos.append(a)
    return pos, flags


class Bytes:
    """Bytes that decode to a (possibly symbolic) text."""

    def __init__(self, text):
        self.text = text

    def decode(self, *a, **k):
        return self.text

    def __bool__(self):
        return bool(self.text != "")


class Stream:
    def __init__(self, chunks, on_read=None):
        self.chunks, self.on_read = list(chunks), on_read

    def readline(self, *a):
        if self.on_read:
            self.on_read()
        return Bytes(self.chunks.pop(0)) if self.chunks else Bytes("")

    def read(self, *a):
        if self.on_read:
            self.on_read()
        out = ""
        while self.chunks:
            out = out + self.chunks.pop(0)
        return Bytes(out)

    def __iter__(self):
        while self.chunks:
            yield self.readline()

    def close(self):
        pass


class TempFile:
    """Stands for tempfile.TemporaryFile when it collects the command's stderr."""

    def __init__(self, *a, **k):
        self.text, self.name = "", None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def seek(self, *a):
        return 0

    def flush(self):
        pass

    def close(self):
        pass

    def read(self, *a):
        return Bytes(self.text)


class Call:
    def __init__(self, argv, cwd, env):
        self.argv, self.cwd, self.env = argv, cwd, env
        self.pos, self.flags = parse(argv[1:])

    def __repr__(self):
        return "Call(%r)" % (self.argv,)


class Result:
    def __init__(self, lines=(), stderr="", code=0, raw=None):
        self.lines, self.stderr, self.code, self.raw = list(lines), stderr, code, raw


class Cli:
    """respond(call) -> Result (None: empty success).  `during(call)` runs while the command runs (it writes event logs)."""

    def __init__(self, sx, respond=None, during=None, version="v3.40.0"):
        self.sx = sx
        self.calls, self.respond, self.during, self.version = [], respond, during, version
        self.json = {}

    def js(self, value):
        """A line of text that the JSON reader turns into `value` (which may hold symbolic parts)."""
        k = '{"@": %d}' % len(self.json)
        self.json[k] = value
        return k

    def run(self, argv, cwd, env):
        for a in argv:
            self.sx.check(isinstance(a, str), "arguments-are-text", lambda: (a, argv))  # noqa: B023
            if not isinstance(a, str):
                raise TypeError("expected str, bytes or os.PathLike object, not " + type(a).__name__)
        c = Call(list(argv), cwd, env)
        if c.pos == ["version"]:
            return c, Result([self.version])
        self.calls.append(c)
        if c.argv[0] != "pulumi":
            raise AssertionError("not the pulumi command")
        return c, (self.respond(c) if self.respond else None) or Result()

    @contextlib.contextmanager
    def installed(self, symbolic_stderr=True):
        cli = self

        class Popen:
            def __init__(self, args, stdin=None, stdout=None, stderr=None, cwd=None, env=None, **kw):
                self.args = args
                self._call, res = cli.run(args, cwd, env)
                self._res = res
                self.pid = 1
                self.returncode = None
                self._ran = False
                chunks = res.raw if res.raw is not None else [x + "\n" for x in res.lines]
                self.stdout = Stream(chunks, self._run)
                self.stderr = None
                if stderr == subprocess.PIPE:
                    self.stderr = Stream([res.stderr], self._run)
                elif stderr == subprocess.STDOUT:
                    self.stdout.chunks.append(res.stderr)
                elif isinstance(stderr, TempFile):
                    stderr.text = stderr.text + res.stderr
                elif stderr is not None and hasattr(stderr, "write"):
                    t = res.stderr
                    stderr.write(t.encode("utf-8") if "b" in getattr(stderr, "mode", "b") else t)
                    stderr.flush()

            def _run(self):
                if not self._ran:
                    self._ran = True
                    if cli.during:
                        cli.during(self._call)

            def poll(self):
                self._run()
                if not self.stdout.chunks:
                    self.returncode = self._res.code
                return self.returncode

            def wait(self, timeout=None):
                self._run()
                self.returncode = self._res.code
                return self.returncode

            def communicate(self, *a, **k):
                out = self.stdout.read()
                err = self.stderr.read() if self.stderr is not None else None
                self.wait()
                return out, err

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
                return False

        saved = subprocess.Popen, tempfile.TemporaryFile, json.loads
        orig = json.loads

        def loads(s, *a, **k):
            if type(s) is str and s.strip() in cli.json:
                return cli.json[s.strip()]
            return orig(s, *a, **k)

        subprocess.Popen = Popen
        json.loads = loads
        if symbolic_stderr:
            tempfile.TemporaryFile = TempFile
        try:
            yield self
        finally:
            subprocess.Popen, tempfile.TemporaryFile, json.loads = saved



def workspace(sx, d, home=None, env_vars=None, cls=None, **kw):
    from pulumi import automation as auto

    return (cls or auto.LocalWorkspace)(work_dir=d, pulumi_home=home, env_vars=env_vars, **kw)


class Threads:
    """Runs the SDK's threads one at a time: they switch only where the SDK waits (sleep, join) and where a case says."""

    class _Kill(BaseException):
        pass

    def __init__(self, patience=4):
        self.all, self.current, self.patience = [], None, patience

    @contextlib.contextmanager
    def installed(self):
        ths = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._t, self._a, self._k = target, args, kwargs or {}
                self.daemon = daemon
                self.started = self.done = False
                self.exc = None
                self.kill = False
                self.progress = 0
                self.mine, self.back = _thread.allocate_lock(), _thread.allocate_lock()
                self.mine.acquire()
                self.back.acquire()
                ths.all.append(self)

            def run(self):
                self._t(*self._a, **self._k)

            def _main(self):
                self.mine.acquire()
                try:
                    if not self.kill:
                        self.run()
                except BaseException as e:  # noqa
                    self.exc = e
                self.done = True
                self.back.release()

            def start(self):
                self.started = True
                _thread.start_new_thread(self._main, ())

            def is_alive(self):
                return self.started and not self.done

            def step(self):
                """Let the thread run until it waits or ends."""
                if not self.is_alive():
                    return
                prev, ths.current = ths.current, self
                self.mine.release()
                self.back.acquire()
                ths.current = prev
                if self.exc is not None and (not isinstance(self.exc, Exception) or type(self.exc).__name__ == "EngineLimit"):
                    e, self.exc = self.exc, None
                    raise e

            def join(self, timeout=None):
                for _ in range(ths.patience if timeout is not None else 200):
                    if self.done:
                        return
                    self.step()

        class Event:
            def __init__(self):
                self._set = False

            def is_set(self):
                return self._set

            isSet = is_set

            def set(self):
                self._set = True

            def clear(self):
                self._set = False

            def wait(self, timeout=None):
                if not self._set:
                    pause()
                return self._set

        def pause(*a):
            t = ths.current
            if t is None:
                return
            t.back.release()
            t.mine.acquire()
            if t.kill:
                raise ths._Kill()

        saved = threading.Thread, time.sleep, threading.Event
        threading.Thread, time.sleep, threading.Event = Thread, pause, Event
        try:
            yield self
        finally:
            threading.Thread, time.sleep, threading.Event = saved
            for t in self.all:
                t.kill = True
                if t.is_alive():
                    t.mine.release()
                    t.back.acquire()


@contextlib.contextmanager
def scratch_tmp():
    """The directory that temporary files go to."""
    with Scratch() as d:
        saved = tempfile.tempdir
        tempfile.tempdir = d
        try:
            yield d
        finally:
            tempfile.tempdir = saved
