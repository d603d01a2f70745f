#!/bin/bash
# seedcheck.sh [-t] [-T tier] ID...: apply each planted bug to /repo, run (with -t) the tests, the demo and the property's check, undo.
T=; TIER=quick
while [ "${1#-}" != "$1" ]; do case $1 in -t) T=1;; -T) TIER=$2; shift;; esac; shift; done
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  pid=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  t=-; [ -n "$T" ] && { bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; t=$(python3 /verif/tools/baseline.py /tmp/seed.json | tr '\n' ' '); }
  (cd /verif && python3-vt check.py $pid --tier $TIER >/tmp/seed.check.$id 2>&1); rc=$?
  git checkout -q -- .
  echo "$id $pid demo=$d0/$d1 tests=[$t] check=$rc $(grep -c '^VIOLATION' /tmp/seed.check.$id) violations"
done
