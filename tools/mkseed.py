"""Development aid: write /verif/seeded/<id>/ from the specs in tools/seeds/spec*.py and confirm each in a scratch copy.

usage: mkseed.py [ID ...] [--check] [--nodemo]
"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/spec*.py"))):
    exec(compile(open(f).read(), f, "exec"))

if "--table" in sys.argv:
    # rewrite the table at the end of DESIGN.md
    p = os.path.join(ROOT, "DESIGN.md")
    text = open(p).read().split("<!-- table -->")[0] + "<!-- table -->\n| Planted bug | Property (its check catches it) | Needs | Breaks |\n|---|---|---|---|\n"
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        m = json.load(open(f))
        text += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
    open(p, "w").write(text)
    sys.exit()
args = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
SH = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'
for sid in args:
    s = SEEDS[sid]
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    try:
        files = set()
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: text found %d times in %s: %r" % (sid, t.count(old), f, old))
            open(p, "w").write(t.replace(old, new))
            files.add(f)
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        orig = {f: subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True) for f in files}
        for ln in diff.splitlines():
            if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip():
                if not any(ln[1:] in t for t in orig.values()):
                    print(sid, "WARNING: not an original line:", ln)
        out = os.path.join(ROOT, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].strip() + "\n")
        if "mini" in s["demo"]:
            shutil.copy(os.path.join(ROOT, "tools/seeds/mini.py"), out)
        if "fakecuda" in s["demo"]:
            # the emulated device, made to stand on its own
            t = open(os.path.join(ROOT, "fpcheck/lib/fakecuda.py")).read()
            t = t.replace("from .. import boot\n", "class boot:\n    CACHE = os.path.join(tempfile.gettempdir(), 'demo-emu-%d' % os.getpid())\n")
            open(os.path.join(out, "fakecuda.py"), "w").write(t)
            os.makedirs(os.path.join(out, "emu"), exist_ok=True)
            for f in glob.glob(os.path.join(ROOT, "fpcheck/lib/emu/*")):
                shutil.copy(f, os.path.join(out, "emu"))
        if "--nodemo" not in sys.argv:
            if any(f.endswith((".cc", ".hh", ".h", ".cu")) for f in files):
                so = glob.glob(os.path.join(repo, "forcepho/src/*.so"))[0]
                os.remove(so)
                inc = subprocess.check_output(["/opt/venv/bin/python", "-c", "import pybind11,sysconfig;print('-I'+pybind11.get_include(),'-I'+sysconfig.get_paths()['include'])"], text=True).split()
                subprocess.check_call(["g++", "-O2", "-shared", "-fPIC", "-std=c++14", "-w"] + inc + [os.path.join(repo, "forcepho/src/compute_gaussians_kernel.cc"), "-o", so])
            rs = []
            for r in ("/repo", repo):
                x = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
                rs.append((x.returncode, (x.stdout + x.stderr).strip()[-200:]))
            ok = rs[0][0] == 0 and rs[1][0] != 0
            print(sid, s["prop"], "demo OK" if ok else "DEMO BAD", rs[0] if not ok else "", rs[1][1].splitlines()[-1:] if ok else rs[1])
        if "--check" in sys.argv:
            x = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), s["prop"]], env=dict(os.environ, FP_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
            lines = [q for q in x.stdout.splitlines() if q.strip()]
            print("   check exit", x.returncode, "CAUGHT" if x.returncode == 1 else "MISSED", lines[0][:160] if lines else x.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
