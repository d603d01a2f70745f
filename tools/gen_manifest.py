import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE

NOTE = ("Bounded symbolic execution of the real SDK source (re-instrumented from /repo on every run): every feasible path "
        "within the bounds is explored and z3 decides the assertions for all values of the symbolic inputs on it; "
        "counterexamples are replayed on the unmodified code before they are reported. Trusts CPython, asyncio's loop, z3 "
        "and the protobuf model (validated by replay). Bounds: see evidence and DESIGN.md.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {
    "version": 1, "setup_cmd": "true",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
        "technique": p.get("tech") or "symbolic execution of the instrumented SDK source with z3; counterexamples replayed on the real code",
        "level": "model_checking", "level_note": (p["note"] + " " if p["note"] else "") + NOTE} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "No hooks: the SDK is instrumented at import time, in the checking process only.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("ok", len(PROPS))
except ImportError:
    print("not validated")
