#!/bin/bash
# Development aid: apply the given seeded patches together in /repo, rebuild, run the stable tests, undo.
cd /repo
for s in "$@"; do git apply /verif/seeded/$s/patch.diff || echo "APPLY FAILED $s"; done
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/bt.json >/dev/null 2>&1
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/bt.json"))
def names(d):
    for k in ("passed","stable","tests","pass"):
        if k in d: return set(d[k])
    print(list(d)); return set()
print("missing from passed:", sorted(names(b)-names(o)))
PY
rm -f /tmp/bt.json
git status --short
