import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import boot, core

VERIF = core.VERIF


def known_findings(pid):
    """Entries 'known: property=PXX id=<id> <text>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def shorten(x, n=1500):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    return s[:n] + "...(truncated)"


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    try:
        boot.ensure_deps()
        if a.setup:
            boot.build_kernel()
            print("setup done")
            return 0
        return run(a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR", flush=True)
        return 2


def run(a):
    t0 = time.time()
    pid = a.prop.upper()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("fpcheck.props." + pid.lower())
    with core.quiet():
        boot.import_forcepho(kernel=getattr(mod, "NEEDS_KERNEL", False))
        subs = mod.subs()
    if a.replay:
        rep = json.load(open(a.replay))
        sub = [s for s in subs if s.name == rep["sub"]][0]
        sub.examples = [rep["case"]]
        sub.shards, sub.quick, sub.thorough = 1, 0, 0
        results = _replay(sub)
        if results.get("failure"):
            print(results["failure"]["error"])
            print(results["failure"]["trace"])
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay: property held")
        return 0
    if a.sub:
        subs = [s for s in subs if s.name in a.sub.split(",")]
    results = core.run_subs(subs, a.tier, seed, a.jobs, a.scale)

    # known findings: dedicated probes, never part of the generated search
    known = known_findings(pid)
    kf_lines = []
    for fid, probe in getattr(mod, "PROBES", {}).items():
        if fid in known:
            with core.quiet():
                fails = probe()
            if fails:
                kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, known[fid]))

    evaluations = sum(r["evaluations"] for r in results)
    keys = set()
    per = {}
    samples = []
    for r in results:
        keys.update((r["sub"], k) for k in r["keys"])
        p = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=set(), labels={}, wall_s=0, stopped=[]))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"].update(r["keys"])
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        if r["stopped"]:
            p["stopped"].append(r["stopped"])
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if r["samples"] and sum(s["sub"] == r["sub"] for s in samples) < 2:
            samples.append(dict(sub=r["sub"], case=shorten(r["samples"][-1])))
    for p in per.values():
        p["nontrivial"] = len(p["nontrivial"])
        p["labels"] = dict(sorted(p["labels"].items()))
    failures = [r for r in results if r.get("failure")]
    errors = [r for r in results if r.get("harness_error")]
    rule = "; ".join("%s: %s%s" % (s.name, s.rule, (" [non-trivial: %s]" % s.nontrivial_rule) if s.nontrivial_rule else "")
                     for s in subs)
    ev = dict(property=pid, tier=a.tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=rule,
                            samples=samples, per_subcheck=per, known_findings=kf_lines),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    write_evidence(pid, ev)
    for l in kf_lines:
        print(l)
    if a.verbose:
        print(json.dumps(per, indent=1))
    status = 0
    if failures:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for r in failures:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            f = r["failure"]
            path = os.path.join(d, "%s-%s-%s.json" % (pid, r["sub"], core.case_key(f["case"])))
            with open(path, "w") as fp:
                json.dump(dict(property=pid, sub=r["sub"], case=f["case"], error=f["error"],
                               trace=f["trace"]), fp, indent=1)
            print("--- %s/%s: %s" % (pid, r["sub"], f["error"]))
            if a.verbose:
                print(f["trace"])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        for r in errors:
            print("HARNESS-ERROR %s/%s: %s" % (pid, r["sub"], r["harness_error"]))
        return 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s: held" % (
        pid, a.tier, seed, evaluations, len(keys), time.time() - t0))
    return status


def _replay(sub):
    import tempfile
    d = tempfile.mkdtemp(prefix="fpreplay-")
    os.chdir(d)
    tempfile.tempdir = d
    r = core.Runner(sub, 0, 0, 1e9, d)
    r.search()
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return r.result()
