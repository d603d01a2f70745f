"""Stack references: reading another stack's outputs."""
from .lib import *

ANCHORS = ("pulumi.stack_reference.", "pulumi.output.Output.all", "pulumi.output.Output.apply", "pulumi.runtime.resource.read_resource")
BOUNDS = ("a referenced stack with up to three outputs, each absent, plain, null, an object, or (in any of two positions) secret, "
          "unknown in previews; the engine naming the secret outputs or not (older engines); one or two lookups under a symbolic name <= 3 "
          "given as text, awaitable or output (symbolic knownness, failing), in every completion order; every option of the reference")
OUTSIDE = "whether the secrecy of the looked-up name carries over (the list of secret outputs decides)"

NAMES = ["a", "b", "_c"]


def reference(sx, loop, mon, D, kinds, listed, whole=False):
    """-> ({name: (value, secret)}, any unknown, any secret, secret names known?)"""
    from pulumi.runtime.proto import resource_pb2

    wire, val = {}, {}
    unk = False
    for i, n in enumerate(NAMES[:len(kinds)]):
        k = sx.choice("out" + n, kinds[i])
        s = sx.str("s" + n, 3)
        w, v, sec = {
            "absent": lambda: (None, None, False), "plain": lambda: (s, s, False), "null": lambda: (None, None, False),
            "object": lambda: ({"k": s, "l": [1.0]}, {"k": s, "l": [1]}, False), "secret": lambda: ({SIG: SECRET, "value": s}, s, True),
            "nested-secret": lambda: ({"k": {SIG: SECRET, "value": s}}, {"k": s}, True), "unknown": lambda: (UNKNOWN_WIRE, None, False),
            "false": lambda: (False, False, False), "empty": lambda: ("", "", False)}[k]()
        if k == "unknown":
            sx.assume(D)
            unk = True
        if k not in ("absent",):
            wire[n] = w
        if k not in ("absent", "null"):
            val[n] = (v, sec)
    names = sorted(n for n in val if val[n][1])
    resp = {"name": "org/other/dev", "outputs": wire}
    if listed == "list":
        resp["secretOutputNames"] = names
    if whole:
        # all outputs are a secret to whoever does not say which ones are
        resp["outputs"] = {SIG: SECRET, "value": wire}
    mon.on["ReadResource"] = lambda req: resource_pb2.ReadResourceResponse(urn="urn:ref", properties=struct(resp))
    return val, unk, whole or any(x[1] for x in val.values())


def name_form(sx, loop, D, i, forms, ext):
    """-> (argument, name, known, failing)"""
    k = sx.choice("form%d" % i, forms)
    n = sx.str("name%d" % i, 2)
    e = "name%d" % i if ext else None
    if k == "text":
        return n, n, True, False
    if k == "await":
        return fut(loop, n, ext=e), n, True, False
    if k == "coro":
        return coro(n), n, True, False
    if k == "output":
        return mk_output(loop, n, deps=[loop.made], ext=("val", "known") if ext else ()), n, True, False
    if k == "unknown":
        sx.assume(D)
        from pulumi.output import UNKNOWN

        return mk_output(loop, UNKNOWN, known=False), n, False, False
    return mk_output(loop, None, exc=Boom("name")), n, True, True


def lookups(sx, kinds, forms, n=1, ext=False, which=("get", "require"), listed=("list", "none"), whole=False):
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        how = sx.choice("listed", list(listed))
        val, unk, anysec = reference(sx, loop, mon, D, kinds, how, whole)
        ref = pulumi.StackReference("org/other/dev")
        calls = []
        loop.made = Tok(1)
        for i in range(n):
            arg, name, known, failing = name_form(sx, loop, D, i, forms, ext)
            op = sx.choice("op%d" % i, list(which))
            o = ref.get_output(arg) if op == "get" else ref.require_output(arg)
            calls.append((o, name, known, failing, op, isinstance(arg, pulumi.Output)))
        for o, *_ in calls:
            for c in (o._future, o._is_known, o._is_secret, o._resources):
                quiet(c)
        for o, name, known, failing, op, made in calls:
            seen = await observe(o)
            if failing:
                sx.check(isinstance(seen.exc, Boom), "failure-of-the-name-reported", lambda: seen)
                continue
            if not known or unk:
                sx.check(seen.exc is None and seen.known is False, "unknown-when-the-name-or-an-output-is", lambda: seen)
                if not known or how == "none":
                    sx.check(sx.implies(anysec, seen.secret), "secret-when-in-doubt", lambda: seen)
                else:
                    is_sec = sx.or_(*[sx.eq(name, k) for k in val if val[k][1]], False)
                    sx.check(sx.iff(seen.secret, is_sec), "secret-iff-the-output-is", lambda: (seen, name, val))
                continue
            here = {k: sx.eq(name, k) for k in val}
            missing = sx.not_(sx.or_(*here.values(), False))
            if seen.exc is not None:
                sx.check(op == "require" and isinstance(seen.exc, KeyError), "fails-only-when-required", lambda: (op, seen.exc))
                sx.check(missing, "fails-only-when-missing", lambda: (name, val, seen.exc))
                continue
            sx.check(seen.known is True, "known", lambda: seen)
            if op == "require":
                sx.check(sx.not_(missing), "required-output-missing-fails", lambda: (name, val))
            for k, (v, sec) in val.items():
                sx.check(sx.implies(here[k], same(sx, seen.value, v)), "the-output's-value", lambda: (name, seen.value, v))
                sx.check(sx.implies(here[k], sx.iff(seen.secret, sec if how == "list" else anysec)), "secret-iff-the-output-is",
                         lambda: (name, seen.secret, sec, anysec))
            sx.check(sx.implies(missing, seen.value is None), "missing-output-is-none", lambda: (name, seen.value))
            sx.check(seen.deps is not None and ref in seen.deps, "depends-on-the-reference", lambda: seen.deps)
            if made:
                sx.check(loop.made in (seen.deps or ()), "depends-on-what-the-name-does", lambda: seen.deps)

    run(sx, main)


def request(sx):
    """What is read: the stack asked for, with the options given."""
    import pulumi
    from pulumi.runtime.stack import wait_for_rpcs

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        reference(sx, loop, mon, D, [["plain"]], "list")
        target = sx.choice("target", [None, "given", "empty"])
        t = {None: None, "given": sx.str("t", 4, 1), "empty": ""}[target]
        o = sx.choice("opts", ["none", "empty", "full", "id", "parent"])
        parent = mk_resource(loop, "urn:parent", False) if o == "parent" else None
        opts = {"none": None, "empty": pulumi.ResourceOptions(), "full": pulumi.ResourceOptions(version="1.2", additional_secret_outputs=["x"]),
                "id": pulumi.ResourceOptions(id="other"), "parent": pulumi.ResourceOptions(parent=parent)}[o]
        before = dict(vars(opts)) if opts is not None else None
        ref = pulumi.StackReference("the-name", t, opts) if target else pulumi.StackReference("the-name", opts=opts)
        await wait_for_rpcs(False)
        (req,) = mon.sent("ReadResource")
        exp = t if t is not None else "the-name"
        sx.check(sx.and_(req.type == "pulumi:pulumi:StackReference", req.name == "the-name", sx.eq(req.id, exp)), "asks-for-the-stack",
                 lambda: (req.type, req.name, req.id))
        sx.check(sx.eq(plain(req.properties).get("name"), exp), "names-the-stack", lambda: plain(req.properties))
        sx.check(req.version == ("1.2" if o == "full" else "") and req.parent == ("urn:parent" if o == "parent" else ""), "options-kept",
                 lambda: (req.version, req.parent))
        if o == "full":
            sx.check(list(req.additionalSecretOutputs) == ["x"], "options-kept", lambda: list(req.additionalSecretOutputs))
        if opts is not None:
            sx.check(all(vars(opts)[k] is before[k] for k in before), "options-not-modified", lambda: (before, vars(opts)))
        seen = await observe(ref.name)
        sx.check(seen.value == "org/other/dev", "name-answered", lambda: seen)
        sx.check(not mon.sent("RegisterResource"), "only-reads")

    run(sx, main)


def failures(sx):
    """A reference that cannot be read fails everything looked up in it."""
    import pulumi
    from pulumi.runtime.stack import wait_for_rpcs

    mon = basic_monitor()
    configure(dry_run=sx.concrete(sx.bool("dry_run")), monitor=mon)

    async def main(loop):
        def fail(req):
            raise rpc_error(sx.choice("code", ["UNKNOWN", "UNAVAILABLE"]), "no such stack")

        mon.on["ReadResource"] = fail
        ref = pulumi.StackReference("x")
        o = ref.get_output("a") if sx.choice("op", ["get", "require"]) == "get" else ref.require_output("a")
        for c in (o._future, o._is_known, o._is_secret, o._resources):
            quiet(c)
        seen = await observe(o)
        sx.check(seen.exc is not None and not isinstance(seen.exc, KeyError), "lookup-fails", lambda: seen)
        try:
            await wait_for_rpcs(False)
            ok = True
        except BaseException as e:  # noqa
            ok = False
        sx.check(ok is False, "program-fails")

    run(sx, main)


PL = ["plain", "absent", "null", "object", "secret", "nested-secret", "unknown", "false", "empty"]
CELLS = [
    Cell("outputs", lookups, dict(kinds=[PL, ["plain", "absent", "secret", "unknown"]], forms=["text"])),
    Cell("three", lookups, dict(kinds=[["plain", "secret", "absent"]] * 3, forms=["text"])),
    Cell("whole", lookups, dict(kinds=[["plain", "secret", "absent"], ["plain", "absent"]], forms=["text"], whole=True)),
    Cell("names", lookups, dict(kinds=[["plain", "absent", "secret"], ["plain", "secret"]], forms=["text", "await", "coro", "output", "unknown", "fail"])),
    Cell("two-lookups", lookups, dict(kinds=[["plain"], ["secret"]], forms=["text", "output"], n=2)),
    Cell("orders", lookups, dict(kinds=[["plain", "secret"], ["secret"]], forms=["await", "output"], ext=True, n=1)),
    Cell("request", request),
    Cell("failures", failures),
]
