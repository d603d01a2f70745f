"""Concrete twin of engine.Path: replays one assignment of the harness' variables against the real code."""


class Stop(BaseException):
    pass


class Concrete:
    symbolic = False

    def __init__(self, values):
        self.v = values
        self.names = {}
        self.labels = []
        self.failed = []
        self.aborted = None
        self.observations = []
        self.notes = set()

    def _fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def bool(self, name="b"):
        return bool(self.v.get(self._fresh(name), False))

    def int(self, name="i", lo=0, hi=7):
        return int(self.v.get(self._fresh(name), lo))

    def str(self, name="s", maxlen=8, minlen=0, chars=None):
        d = (chars[0][0] if chars else "a") * minlen
        return self.v.get(self._fresh(name), d)

    def choice(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        i = int(self.v.get(self._fresh(name), 0))
        return opts[i if i < len(opts) else 0]

    def assume(self, cond):
        if not cond:
            self.aborted = "assume"
            raise Stop("assume")

    def check(self, cond, label, info=None):
        self.labels.append(label)
        if not cond:
            try:
                s = repr(info() if callable(info) else info)[:800]
            except Exception as e:  # noqa
                s = "<info failed %r>" % (e,)
            self.failed.append((label, s))
        return bool(cond)

    def observe(self, label, value):
        self.observations.append((label, repr(value)[:300]))

    def match(self, x, pattern):
        import re

        return re.fullmatch(pattern, x) is not None

    def to_int(self, x):
        return int(x)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return deep_eq(a, b)

    def concrete(self, x):
        return bool(x)


def _kind(x):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, (int, float)):
        return "num"
    if isinstance(x, str):
        return "str"
    return "obj"


def deep_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deep_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(
            deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    return _kind(a) == _kind(b) and bool(a == b)
