"""python3 mk.py SPEC.py: create seeded/<id> from specs: id, property, needs, breaks, edits [(file, old, new)], demo"""
import json, os, shutil, subprocess, sys
L = "/repo/sdk/python/lib/pulumi/"
def seed(id, prop, needs, breaks, edits, demo):
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout, "dirty"
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        s = open(L + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(L + f, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/tmp/seed/util.py", d)
    shutil.copy("/tmp/seed/demo.sh", d)
    open(d + "/demo.py", "w").write(demo.lstrip())
exec(open(sys.argv[1]).read())
