"""URNs and aliases: what a resource was called before, and what its URN is made of."""
from .lib import *

ANCHORS = ("pulumi.resource.create_urn", "pulumi.resource.all_aliases", "pulumi.resource.inherited_child_alias",
           "pulumi.resource.collapse_alias_to_urn", "pulumi.resource.urn_type_and_name", "pulumi.urn._parse_urn",
           "pulumi.runtime.resource.prepare_resource")
BOUNDS = ("names, projects and stacks: symbolic strings of up to 3 characters without ':'; parents: none, a top-level or nested "
          "resource, the stack, given as resource, string or output; up to two own aliases of 14 forms, up to two parent aliases, "
          "one grandparent alias; aliases and their parts plain, awaitable or outputs; all completion orders of up to 3 futures")
OUTSIDE = "names that contain ':'; aliases that are unknown during a preview; more than two aliases per resource"

NC = [("\x21", "9"), (";", "~")]
ROOT = "urn:pulumi:stack::project::"
STACK_T = "pulumi:pulumi:Stack"
PARENTS = {"top": ROOT + "a:m:C::par", "nested": ROOT + "a:m:C$b:m:D::par",
           "stack": ROOT + STACK_T + "::project-stack", "other": "urn:pulumi:st2::pr2::x:m:P::q",
           "stack2": "urn:pulumi:st2::pr2::" + STACK_T + "::pr2-st2"}


def ref_urn(parent, type_, name, project="project", stack="stack"):
    """The URN the engine gives to a resource."""
    if parent is None:
        return "urn:pulumi:" + stack + "::" + project + "::" + type_ + "::" + name
    head = parent[:parent.rfind("::")]
    if type(head) is str and head.endswith("::" + STACK_T):
        return "urn:pulumi:" + stack + "::" + project + "::" + type_ + "::" + name
    return head + "$" + type_ + "::" + name


def wrap(sx, loop, v, form, ext=False):
    """A value given as is, as an awaitable or as an output."""
    if form == "plain":
        return v
    if form == "await":
        return fut(loop, v, ext="aw" if ext else None)
    if form == "coro":
        return coro(v)
    return mk_output(loop, v, ext=("val",) if ext else ())


def create(sx, forms, parents, vary):
    """create_urn itself."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    configure(dry_run=D, monitor=basic_monitor())

    async def main(loop):
        V = lambda n, opts: sx.choice(n, opts) if n in vary else opts[0]  # noqa
        name = sx.str("name", 3, 1, NC)
        typ = sx.choice("type", ["b:m/x:R", "Plain"])
        pk = sx.choice("parent", parents)
        pu = PARENTS.get(pk)
        ext = "ext" in vary
        parent = pu
        if pu is not None:
            pf = V("parent.form", ["resource", "component", "plain", "output", "await", "coro"])
            parent = mk_resource(loop, pu, pf == "resource", "i", ext=("val",) if ext else ()) \
                if pf in ("resource", "component") else wrap(sx, loop, pu, pf, ext)
        exp, kw = {}, {}
        for k in ("project", "stack"):
            f = V(k + ".form", ["absent", "plain", "output", "await"] + ([] if ext else ["coro"]))
            if f != "absent":
                exp[k] = sx.str(k, 2, 1, NC)
                kw[k] = wrap(sx, loop, exp[k], f, ext)
        unk = D and V("unknown", [False, True])
        sec = V("secret", [False, True])
        nm = mk_output(loop, name, not unk, sec) if unk or sec else wrap(sx, loop, name, V("name.form", forms), ext)
        s = await observe(pulumi.create_urn(nm, typ, parent, **kw))
        sx.check(s.exc is None, "urn-resolves", lambda: (pk, kw, s))
        sx.check(s.known is (not unk) and s.secret is sec, "urn-known-secret", lambda: s)
        if not unk:
            e = ref_urn(pu, typ, name, **exp)
            sx.check(sx.eq(s.value, e), "urn", lambda: (pk, e, s.value))

    run(sx, main)


def alias(sx, loop, tag, form, pu, dname, dtype, sym=True):
    """-> (alias to give, the URN it stands for); pu: current parent's URN"""
    import pulumi

    s = sx.str(tag + ".s", 3, 1, NC) if sym else "old-" + tag
    raw = ref_urn(None, "old:m:T", s)
    A = pulumi.Alias
    return {
        "raw": lambda: (raw, raw),
        "raw-out": lambda: (mk_output(loop, raw, ext=()), raw),
        "raw-await": lambda: (fut(loop, raw), raw),
        "raw-coro": lambda: (coro(raw), raw),
        "name": lambda: (A(name=s), ref_urn(pu, dtype, s)),
        "type": lambda: (A(type_="old:m:T"), ref_urn(pu, "old:m:T", dname)),
        "name-type": lambda: (A(name=s, type_="old:m:T"), ref_urn(pu, "old:m:T", s)),
        "empty": lambda: (A(), ref_urn(pu, dtype, dname)),
        "no-parent": lambda: (A(parent=None), ref_urn(None, dtype, dname)),
        "no-parent-name": lambda: (A(name=s, parent=pulumi.ROOT_STACK_RESOURCE), ref_urn(None, dtype, s)),
        "parent-res": lambda: (A(parent=mk_resource(loop, PARENTS["nested"], True, "i")), ref_urn(PARENTS["nested"], dtype,
                                                                                                 dname)),
        "parent-str": lambda: (A(parent=PARENTS["top"], name=s), ref_urn(PARENTS["top"], dtype, s)),
        "parent-out": lambda: (A(parent=mk_output(loop, PARENTS["other"])), ref_urn(PARENTS["other"], dtype, dname)),
        "parent-stack": lambda: (A(parent=mk_resource(loop, PARENTS["stack"], False)), ref_urn(None, dtype, dname)),
        "project": lambda: (A(project=s, parent=None), ref_urn(None, dtype, dname, project=s)),
        "stack": lambda: (A(stack=s, parent=None), ref_urn(None, dtype, dname, stack=s)),
        "project-out": lambda: (A(project=mk_output(loop, s), parent=None), ref_urn(None, dtype, dname, project=s)),
        "stack-await": lambda: (A(stack=fut(loop, s), parent=None), ref_urn(None, dtype, dname, stack=s)),
        "stack-project": lambda: (A(stack=s, project="pr9", parent=None), ref_urn(None, dtype, dname, "pr9", s)),
        "stack-coro": lambda: (A(stack=coro(s), parent=None), ref_urn(None, dtype, dname, stack=s)),
        "parent-coro": lambda: (A(parent=coro(PARENTS["other"])), ref_urn(PARENTS["other"], dtype, dname)),
        "alias-coro": lambda: (coro(A(name=s)), ref_urn(pu, dtype, s)),
        "alias-out": lambda: (mk_output(loop, A(name=s)), ref_urn(pu, dtype, s)),
    }[form]()


FORMS = ["raw", "raw-out", "raw-await", "name", "type", "name-type", "empty", "no-parent", "no-parent-name", "parent-res",
         "parent-str", "parent-out", "parent-stack", "project", "stack", "project-out", "stack-await", "stack-project",
         "alias-out", "raw-coro", "stack-coro", "parent-coro", "alias-coro"]


def inherit(sx, cname, ctype, pname, pa):
    """The URN a child would have had when its parent was called `pa`."""
    pre = cname.startswith(pname) if type(pname) is str or type(cname) is not str else \
        sx.concrete(sx.or_(*[sx.eq(pname, cname[:i]) for i in range(len(cname) + 1)]))
    if pre:
        cname = pa[pa.rfind("::") + 2:] + cname[len(pname):]
    return ref_urn(pa, ctype, cname)


def uniq(sx, xs):
    out = []
    for x in xs:
        if not any(sx.concrete(sx.eq(x, y)) for y in out):
            out.append(x)
    return out


def check_aliases(sx, label, req, exp):
    got = list(req.aliases)
    exp = uniq(sx, exp)
    sx.check(len(got) == len(exp), label + "-count", lambda: (req.name, got, exp))
    sx.check(sx.and_(*[sx.or_(*[sx.eq(g, e) for g in got]) for e in exp]), label, lambda: (req.name, got, exp))


def own(sx, forms, parents, n=1, kinds=("custom", "component")):
    """A resource's own aliases."""
    import pulumi

    D = sx.concrete(sx.bool("dry_run"))
    mon = basic_monitor()
    configure(dry_run=D, monitor=mon)

    async def main(loop):
        pk = sx.choice("parent", parents)
        pu, parent = None, None
        if pk == "top":
            parent = pulumi.ComponentResource("a:m:C", "par")
            pu = PARENTS["top"]
        elif pk == "stack":
            parent = pulumi.ComponentResource(STACK_T, "project-stack")
            pu = PARENTS["stack"]
        elif pk == "root":
            from pulumi.runtime import settings

            settings.set_root_resource(pulumi.ComponentResource(STACK_T, "project-stack"))
        name, typ = sx.str("name", 3, 1, NC), "b:m:R"
        sx.assume(sx.not_(sx.eq(name, "par")))
        given, exp = [], []
        for i in range(n):
            a, e = alias(sx, loop, "a%d" % i, sx.choice("a%d" % i, forms), pu, name, typ)
            given.append(a)
            exp.append(e)
        c = pulumi.CustomResource if sx.choice("kind", list(kinds)) == "custom" else pulumi.ComponentResource
        opts = pulumi.ResourceOptions(parent=parent, aliases=given)
        c(typ, name, {}, opts)
        await drain()
        sx.check(opts.aliases is given and len(given) == n, "options-untouched")
        for q in mon.sent("RegisterResource"):
            if q.type == typ:
                check_aliases(sx, "own-aliases", q, exp)
                return
        sx.check(False, "registered", lambda: mon.requests)

    run(sx, main)


async def drain():
    from pulumi.runtime.stack import wait_for_rpcs

    await wait_for_rpcs(False)


def chain(sx, pforms, cforms, gforms=("",), np=1, nc=1, sym=()):
    """Aliases inherited from the parent (and through it from the grandparent)."""
    import pulumi

    mon = basic_monitor()
    configure(dry_run=False, monitor=mon)

    async def main(loop):
        gp, gpu, gal, gname = None, None, [], ""
        gf = sx.choice("g", list(gforms))
        if gf:
            gname = "g"
            ga, ge = alias(sx, loop, "ga", gf, None, gname, "g:m:G", "ga" in sym)
            gp = pulumi.ComponentResource("g:m:G", gname, {}, pulumi.ResourceOptions(aliases=[ga]))
            gpu, gal = ROOT + "g:m:G::" + gname, [ge]
        pname = sx.str("pname", 1, 1, NC) if "pname" in sym else sx.choice("pname", ["p", "gp"] if not gf else ["p", "g", "g-p"])
        pg, pal = [], []
        for i in range(np):
            f = sx.choice("p%d" % i, list(pforms))
            if f:
                a, e = alias(sx, loop, "p%d" % i, f, gpu, pname, "p:m:P", "p%d" % i in sym)
                pg.append(a)
                pal.append(e)
        par = pulumi.ComponentResource("p:m:P", pname, {}, pulumi.ResourceOptions(parent=gp, aliases=pg))
        pal = pal + [x for g in gal for x in [inherit(sx, pname, "p:m:P", gname, g)] + [
            inherit(sx, e[e.rfind("::") + 2:], etype(e), gname, g) for e in pal]]
        # (the scripted engine leaves the grandparent's type out of URNs)
        pu = ROOT + "p:m:P::" + pname
        cname = sx.str("cname", 3, 1, NC) if "cname" in sym else pname + sx.str("suffix", 2, 0, NC) if "suffix" in sym \
            else {0: lambda: pname, 1: lambda: pname + "-x", 2: lambda: "x" + pname, 3: lambda: "c",
                  4: lambda: "x-" + pname + "-y"}[sx.choice("shape", 5)]()
        cg, cal = [], []
        for i in range(nc):
            f = sx.choice("c%d" % i, list(cforms))
            if f:
                a, e = alias(sx, loop, "c%d" % i, f, pu, cname, "c:m:R", "c%d" % i in sym)
                cg.append(a)
                cal.append(e)
        pulumi.CustomResource("c:m:R", cname, {}, pulumi.ResourceOptions(parent=par, aliases=cg or None))
        await drain()
        exp = cal + [x for pa in pal for x in [inherit(sx, cname, "c:m:R", pname, pa)] + [
            inherit(sx, e[e.rfind("::") + 2:], etype(e), pname, pa) for e in cal]]
        q = {r.type: r for r in mon.sent("RegisterResource")}
        check_aliases(sx, "parent-aliases", q["p:m:P"], pal)
        check_aliases(sx, "inherited-aliases", q["c:m:R"], exp)

    run(sx, main)


def etype(urn):
    """The resource's own type within a URN."""
    return urn.split("::")[2].split("$")[-1]


def parse(sx):
    """Providers and references are recognised by the type in their URN, whatever the name and parents."""
    import pulumi
    from pulumi.urn import _parse_urn

    configure(dry_run=False, monitor=basic_monitor())

    async def main(loop):
        name = sx.str("name", 3, 0, NC)
        par = sx.choice("parents", ["", "a:m:C$", "a:m:C$b:x/y:D$"])
        typ = sx.choice("type", ["pkg:mod/x:Typ", "pkg:mod:Typ", "pkg::Typ".replace("::", ":"), "Plain",
                                 "pulumi:providers:pkg"])
        p = _parse_urn(ROOT + par + typ + "::" + name)
        ps = typ.split(":") + ["", ""]
        sx.check(sx.eq(p.urn_name, name), "urn-name", lambda: p)
        sx.check(p.typ == typ and p.pkg_name == ps[0] and p.mod_name == ps[1] and p.typ_name == ps[2], "urn-type",
                 lambda: p)

    run(sx, main)


CELLS = [
    Cell("create", create, dict(forms=["plain", "output", "await", "coro"], parents=["none"] + list(PARENTS),
                                vary=("project.form", "stack.form", "name.form"))),
    Cell("create-parents", create, dict(forms=["plain"], parents=list(PARENTS), vary=("parent.form", "unknown", "secret"))),
    Cell("create-orders", create, dict(forms=["output", "await"], parents=["none", "top", "stack"],
                                       vary=("ext", "project.form", "name.form", "parent.form"))),
    Cell("own", own, dict(forms=FORMS, parents=["none", "top", "stack", "root"])),
    Cell("own-pair", own, dict(forms=["raw", "name", "no-parent-name", "empty", "alias-out", "project-out"],
                               parents=["none", "top"], n=2, kinds=("custom",))),
    Cell("inherited", chain, dict(pforms=FORMS, cforms=["", "raw", "name", "type", "no-parent"])),
    Cell("inherited-own-forms", chain, dict(pforms=["name"], cforms=FORMS)),
    Cell("inherited-parent-alias", chain, dict(pforms=FORMS, cforms=["", "name"], sym=("p0",)), weight=2),
    Cell("inherited-name", chain, dict(pforms=["raw", "type"], cforms=["", "name"], sym=("cname",))),
    Cell("inherited-suffix", chain, dict(pforms=["raw", "type"], cforms=["", "name"], sym=("suffix",))),
    Cell("inherited-parent-name", chain, dict(pforms=["raw", "type"], cforms=["", "name"], sym=("pname",))),
    Cell("inherited-own-alias", chain, dict(pforms=["raw"], cforms=["name", "raw", "alias-out"], sym=("c0",))),
    Cell("inherited-two", chain, dict(pforms=["raw", "name", "type"], cforms=["", "name"], np=2)),
    Cell("inherited-grandparent", chain, dict(gforms=["raw", "name", "type"], pforms=["", "name"], cforms=["", "name", "raw"])),
    Cell("parse", parse),
]
