"""A resource reference becomes an object of the newest compatible registered package."""
from .lib import *

ANCHORS = ("pulumi.runtime.rpc.register_resource_package", "pulumi.runtime.rpc.get_resource_package",
           "pulumi.runtime.rpc.register_resource_module", "pulumi.runtime.rpc.get_resource_module",
           "pulumi.runtime.rpc.same_version", "pulumi.runtime.rpc.check_version", "pulumi.runtime.rpc.deserialize_resource",
           "pulumi.urn.")
BOUNDS = ("up to three (thorough: four) registrations under up to two keys, without a version or with symbolic major, minor and patch numbers "
          "(0..3, release or pre-release); references that ask for no version or for one with numbers 0..2")
OUTSIDE = "build metadata, order among the pre-releases of one version (the semver library's)"


def version(sx, name, hi, pre, parts):
    """None, or a version with symbolic numbers."""
    from semver import VersionInfo

    if sx.choice(name + "-none", 2):
        return None
    v = VersionInfo(0, 0, 0, "beta" if pre and sx.choice(name + "-pre", 2) else None)
    v._major, v._minor, v._patch = [sx.int(name + p, 0, hi) if p in parts else 1 for p in "Mmp"]
    return v


def nums(v):
    return v._major, v._minor, v._patch, 0 if v._prerelease else 1


def less(sx, a, b):
    """The order of lists of (symbolic) numbers."""
    if not a:
        return False
    return sx.or_(a[0] < b[0], sx.and_(sx.eq(a[0], b[0]), less(sx, a[1:], b[1:])))


def same(sx, a, b):
    if a is None or b is None:
        return True
    return sx.and_(*[sx.eq(x, y) for x, y in zip(nums(a), nums(b))])


def registrations(sx, n, kind, hi, keys, pre, parts="Mmp"):
    from pulumi.runtime import rpc

    configure(dry_run=False)
    made = []

    def item(i, key, ver):
        class Mod(rpc.ResourceModule):
            def version(self):
                return ver

            def construct(self, name, typ, urn):
                made.append((i, name, typ, urn))
                return "MADE%d" % i

        class Pkg(rpc.ResourcePackage):
            def version(self):
                return ver

            def construct_provider(self, name, typ, urn):
                made.append((i, name, typ, urn))
                return "MADE%d" % i

        return Mod() if kind == "module" else Pkg()

    accepted = []
    for i in range(n):
        key = sx.choice("key%d" % i, keys)
        ver = version(sx, "v%d" % i, hi, pre, parts)
        try:
            if kind == "module":
                rpc.register_resource_module("pkg", key, item(i, key, ver))
            else:
                rpc.register_resource_package(key, item(i, key, ver))
            refused = False
        except ValueError:
            refused = True
        clash = sx.or_(False, *[same(sx, ver, v) for j, k, v in accepted if k == key])
        sx.check(sx.iff(refused, clash), "a-version-is-registered-once", lambda: (i, refused, [(j, k) for j, k, v in accepted]))
        if not refused:
            accepted.append((i, key, ver))

    asked = None
    if sx.choice("asks", 2):
        asked = [sx.choice("want" + p, hi) if p in parts else 1 for p in "Mmp"]
    want = sx.choice("wanted-key", keys)
    typ = "pkg:%s:Typ" % want if kind == "module" else "pulumi:providers:" + want
    name = sx.str("name", 2, 1, chars="ab-/")
    urn = "urn:pulumi:stack::project::" + typ + "::" + name
    w = {SIG: RESOURCE, "urn": urn, "id": "the-id"}
    if asked:
        w["packageVersion"] = "%d.%d.%d" % tuple(asked)
    elif sx.choice("empty", 2):
        w["packageVersion"] = ""
    got = rpc.deserialize_property(struct(w))

    fits = {}
    for i, key, ver in accepted:
        if key != want:
            continue
        fits[i] = True
        if asked and ver is not None:
            fits[i] = sx.and_(sx.eq(ver._major, asked[0]), sx.not_(less(sx, nums(ver)[1:3], asked[1:])))
    vers = {i: v for i, k, v in accepted}
    if got == "the-id":
        sx.check(not made, "nothing-is-made-in-vain", lambda: made)
        sx.check(sx.not_(sx.or_(False, *fits.values())), "a-compatible-package-is-used", lambda: (asked, list(fits)))
        return
    sx.check(len(made) == 1 and got == "MADE%d" % made[0][0], "made-once", lambda: (made, got))
    i, nm, t, u = made[0]
    sx.check(i in fits, "only-packages-of-that-name", lambda: (i, list(fits)))
    sx.check(fits[i], "only-compatible-versions", lambda: (i, asked))
    for j in fits:
        if j != i and vers[j] is not None and vers[i] is not None:
            sx.check(sx.not_(sx.and_(fits[j], less(sx, nums(vers[i]), nums(vers[j])))), "the-newest-compatible-version", lambda: (i, j, asked))
    sx.check(sx.and_(sx.eq(nm, name), sx.eq(t, typ), sx.eq(u, urn)), "made-from-the-reference", lambda: made)


CELLS = [
    Cell("modules", registrations, dict(n=2, kind="module", hi=2, keys=("mod",), pre=False), ("quick",)),
    Cell("packages", registrations, dict(n=2, kind="package", hi=2, keys=("pkg",), pre=False), ("quick",)),
    Cell("pre-releases", registrations, dict(n=2, kind="module", hi=2, keys=("mod",), pre=True, parts="mp"), ("quick",)),
    Cell("three-modules", registrations, dict(n=3, kind="module", hi=2, keys=("mod",), pre=False, parts="Mm"), ("quick",)),
    Cell("three-packages", registrations, dict(n=3, kind="package", hi=2, keys=("pkg",), pre=False, parts="mp"), ("quick",)),
    Cell("modules-of-two-names", registrations, dict(n=2, kind="module", hi=2, keys=("mod", "mod/sub"), pre=False, parts="p"), ("quick",)),
    Cell("packages-of-two-names", registrations, dict(n=2, kind="package", hi=2, keys=("pkg", "pkg2"), pre=False, parts="p"), ("quick",)),
    Cell("modules-deep", registrations, dict(n=2, kind="module", hi=3, keys=("mod", "mod/sub"), pre=True), ("thorough",)),
    Cell("packages-deep", registrations, dict(n=2, kind="package", hi=3, keys=("pkg", "pkg2"), pre=True), ("thorough",)),
    Cell("three-modules-deep", registrations, dict(n=3, kind="module", hi=2, keys=("mod",), pre=False), ("thorough",)),
    Cell("three-packages-deep", registrations, dict(n=3, kind="package", hi=2, keys=("pkg",), pre=True, parts="mp"), ("thorough",)),
    Cell("four-modules", registrations, dict(n=4, kind="module", hi=2, keys=("mod",), pre=False, parts="p")),
]
