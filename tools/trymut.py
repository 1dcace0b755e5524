"""Development aid: run one check against a scratch copy of /repo with one text replacement.

usage: trymut.py PXX[,PYY] FILE OLD NEW [seed]      or      trymut.py PXX --patch FILE.diff
"""
import os, shutil, subprocess, sys, tempfile
props, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
repo = os.path.join(d, "repo")
subprocess.check_call(["git", "clone", "-q", os.environ.get("TRYMUT_REPO", "/repo"), repo])
seed = "1"
if rest[0] == "--patch":
    subprocess.check_call(["git", "-C", repo, "apply", os.path.abspath(rest[1])])
else:
    f, old, new = rest[:3]
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if len(rest) > 3:
        seed = rest[3]
    p = os.path.join(repo, f)
    s = open(p).read()
    if s.count(old) < 1:
        sys.exit("text not found")
    open(p, "w").write(s.replace(old, new, 1))
rc = 0
for pid in props.split(","):
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), pid],
                       env=dict(os.environ, FP_REPO=repo, VERIF_SEED=seed), capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines() if l.strip()]
    print(pid, "exit", r.returncode, "|", " || ".join(l[:230] for l in out[:4]), r.stderr[-300:] if r.returncode == 2 else "")
shutil.rmtree(d, ignore_errors=True)
