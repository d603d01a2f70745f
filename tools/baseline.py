"""Usage: baseline.py OUT.json -- are all stable baseline tests passing in OUT.json?"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
st = set(b['stable'] if isinstance(b['stable'], list) else b['stable'].keys())
missing = st - set(o['passed'])
print("stable", len(st), "missing", sorted(missing)[:10])
sys.exit(1 if missing else 0)
