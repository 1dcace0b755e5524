#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the table below.

Run by hand after editing (python3 tools/gen.py); both outputs are committed.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

I, H, C, F, S, K = ("inputs", "histories", "configurations", "fault_sequences",
                    "schedules", "crash_points")

PROPS = []
TECH = {}
NOTE = {}
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    p = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        p["anchors"]["observe_at"] = observe
    p["anchors"]["hook_needed"] = None
    PROPS.append(p)
    TECH[id] = tech
    NOTE[id] = note


exec(open(os.path.join(ROOT, "tools", "proptable.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, sort_keys=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["id"]
        mod = os.path.join(ROOT, "fpcheck", "props", pid.lower() + ".py")
        if pid in NOT_APPLICABLE:
            na.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
        elif not os.path.exists(mod):
            na.append(dict(property=pid, reason="check not built yet (work in progress)"))
        else:
            checks.append(dict(
                property=pid,
                quick_cmd="python3 run.py %s --tier quick" % pid,
                thorough_cmd="python3 run.py %s --tier thorough" % pid,
                evidence_file="evidence/%s.json" % pid,
                technique=TECH[pid], level="exploration", level_note=NOTE[pid]))
    man = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks,
               not_applicable=na,
               notes="Every check compiles the C++ kernel from /repo's working tree into a "
                     "git-ignored cache keyed by the source contents, imports the Python code "
                     "straight from /repo, and is a pure function of the code and VERIF_SEED. "
                     "No hooks in /repo are needed. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not applicable")


if __name__ == "__main__":
    main()
