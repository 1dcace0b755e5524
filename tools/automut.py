"""Development aid: generated single-site mutants of the repository against the checks that execute the line.

usage: automut.py list  FILE... [--per N] [--seed S]        print the mutants
       automut.py run   FILE... [--per N] [--seed S] [--jobs J] [--props P01,P02]
Coverage files (one per property, lines "path:line") are read from $FP_COV (default /tmp/cov).
"""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COV = os.environ.get("FP_COV", "/tmp/cov")
REPO = "/repo"
SLOW = dict(P27=60, P04=30, P09=30, P10=30, P11=20)

# the checks that are about a file, tried first; lines that run at import (defaults) have no others
HOME = {"superscene.py": "P15 P16 P14 P12 P13 P28", "region.py": "P21 P09", "patches/storage.py": "P11 P10", "sources.py": "P06 P23 P22 P24",
        "proposal.py": "P27 P01 P02", "model.py": "P04 P05 P18 P02", "fitting.py": "P08 P17 P25 P18", "postprocess.py": "P19 P30 P17",
        "config.py": "P20", "dispatcher.py": "P26", "priors.py": "P29", "patches/pixel_patch.py": "P09 P10", "patches/device_patch.py": "P07 P01 P08",
        "patches/patch.py": "P01 P09 P07", "utils/wcs.py": "P22", "utils/catalog.py": "P30 P16", "mixtures/psf_mix_em.py": "P31"}


def coverage():
    cov = {}
    for f in sorted(os.listdir(COV)):
        if f.startswith("P") and f.endswith(".txt"):
            for line in open(os.path.join(COV, f)):
                cov.setdefault(line.strip(), set()).add(f[:3])
    return cov


def seg(src_lines, node):
    return node.lineno, node.col_offset, node.end_lineno, node.end_col_offset


def offsets(src):
    o, t = [0], 0
    for l in src.splitlines(True):
        t += len(l.encode())
        o.append(t)
    return o


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "*", ast.Pow: "*"}


def mutants(path):
    """Yield (function, line, kind, start, end, new bytes)."""
    src = open(path).read()
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(fn, n, kind, new, where=None):
        s, e = where or pos(n)
        if b[s:e].decode() != new:
            out.append((fn, n.lineno, kind, s, e, new))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = (fn + "." if fn else "") + n.name
        elif isinstance(n, ast.ClassDef):
            fn = (fn + "." if fn else "") + n.name
        infun = fn and not isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if infun:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(fn, n, "cmp", "(%s %s %s)" % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(fn, n, "bin", "(%s %s %s)" % (txt(n.left), BIN[type(n.op)], txt(n.right)))
            elif isinstance(n, ast.BoolOp):
                add(fn, n, "bool", "(%s)" % ((" and " if isinstance(n.op, ast.Or) else " or ").join(txt(v) for v in n.values)))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(fn, n, "unary", "(%s)" % txt(n.operand))
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
                v = n.value
                if v is True or v is False:
                    add(fn, n, "const", str(not v))
                elif isinstance(v, int):
                    add(fn, n, "const", str(v + 1))
                    if v > 0:
                        add(fn, n, "const", str(v - 1))
                elif isinstance(v, float):
                    add(fn, n, "const", repr(v * 1.5 + (0.1 if v == 0 else 0)))
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    for i in range(len(n.args) - 1):
                        s, e = pos(n.args[i])[0], pos(n.args[i + 1])[1]
                        if txt(n.args[i]) != txt(n.args[i + 1]):
                            add(fn, n, "swapargs", txt(n.args[i + 1]) + ", " + txt(n.args[i]), (s, e))
                if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                    add(fn, n, "nocopy", txt(n.func.value))
                for i, k in enumerate(n.keywords):
                    if k.arg and (n.args or i):
                        prev = n.args[-1] if not i else n.keywords[i - 1]
                        s, e = pos(prev)[1], pos(k)[1]
                        add(fn, n, "dropkw", "", (s, e))
            elif isinstance(n, ast.If):
                add(fn, n.test, "negif", "(not (%s))" % txt(n.test))
            elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2 and not any(isinstance(x, ast.Starred) for x in n.elts):
                if txt(n.elts[0]) != txt(n.elts[1]):
                    s, e = pos(n.elts[0])[0], pos(n.elts[1])[1]
                    add(fn, n, "swaptuple", txt(n.elts[1]) + ", " + txt(n.elts[0]), (s, e))
            elif isinstance(n, ast.Slice) and n.step is None:
                if n.lower is not None:
                    s, e = pos(n.lower)
                    add(fn, n.lower, "slice", "(%s) + 1" % txt(n.lower), (s, e))
                if n.upper is not None:
                    s, e = pos(n.upper)
                    add(fn, n.upper, "slice", "(%s) - 1" % txt(n.upper), (s, e))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n.lineno == n.end_lineno or isinstance(n, (ast.Continue, ast.Break)):
                isdoc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
                t = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, "target", None)
                if not isdoc and not (isinstance(n, ast.Assign) and isinstance(t, (ast.Name, ast.Tuple))):
                    add(fn, n, "delstmt", "pass")
                elif isinstance(n, ast.Assign) and isinstance(t, ast.Name):
                    # a re-assignment of a name that already exists can be dropped too
                    add(fn, n, "delassign", "pass")
            if isinstance(n, ast.AugAssign):
                ops = {ast.Add: "=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}
                if type(n.op) in ops:
                    add(fn, n, "aug", "%s %s %s" % (txt(n.target), ops[type(n.op)], txt(n.value)))
        for c in ast.iter_child_nodes(n):
            # annotations and decorators are left alone
            walk(c, fn)

    walk(tree, "")
    return b, out


def cmutants(path):
    """Textual mutants of C++ code (comments and preprocessor lines excluded)."""
    import re
    b = open(path, "rb").read()
    src = b.decode("latin1")
    out, p, inc = [], 0, False
    rules = [(r" \+ ", " - "), (r" - ", " + "), (r"(?<=[\w\])])\*(?=[\w(])", "/"), (r"(?<=[\w)])/(?=[\w(])", "*"), (r"\+=", "="), (r"-=", "+="),
             (r"<(?=[\w ])(?!=)", "<="), (r"(?<=[\w ])>(?=[\w ])", ">="), (r"==", "!="), (r"&&", "||"), (r"(?<![\w.])(\d+)(?![\w.])", None),
             (r"(?<![\w.])(\d+\.\d*)f?(?![\w])", None), (r"\bfxx\b|\bsxx\b", "X"), (r"\.v11\b", ".v22"), (r"\.v21\b", ".v12"), (r"\.v22\b", ".v11"), (r"\.v12\b", ".v21"),
             (r"\bcontinue;|\bbreak;", ";"), (r"^(\s*)[\w\[\].>-]+ *[-+*]?= [^;]*;\s*$", "DEL"), (r"^(\s*)(free|memset|memcpy|delete)[^;]*;", "DEL"), (r"(?<=[ (])-(?=[\w(])", ""), (r"!(?=[\w(])", "")]
    fn = ""
    for ln, line in enumerate(src.splitlines(True), 1):
        m = re.match(r"^[\w:<>*& ]+?([\w:]+)\s*\([^;]*$", line)
        if m and not line.startswith((" ", "\t", "#")):
            fn = m.group(1)
        code = line.split("//")[0]
        if "/*" in code:
            inc = True
        if not inc and not code.strip().startswith(("#", "*")):
            for r, new in rules:
                for m in re.finditer(r, code):
                    t = m.group(0)
                    if new == "DEL":
                        if re.match(r"\s*(const |int |float |double |PixFloat )", t):
                            continue
                        n = m.group(1) + ";"
                    elif new is None:
                        n = str(int(t) + 1) if t.isdigit() else repr(float(t.rstrip("f")) * 1.5 + (0.1 if float(t.rstrip("f")) == 0 else 0))
                    elif new == "X":
                        n = t.replace("xx", "yy")
                    else:
                        n = new
                    out.append((fn, ln, "c", p + m.start(), p + m.end(), n))
        if "*/" in line:
            inc = False
        p += len(line)
    return b, out


def run_one(job):
    rel, m, props, scale = job
    fn, line, kind, s, e, new = m
    d = tempfile.mkdtemp(prefix="amut-", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, repo])
        p = os.path.join(repo, rel)
        b = open(p, "rb").read()
        open(p, "wb").write(b[:s] + new.encode() + b[e:])
        res = []
        for pid in props:
            t = time.time()
            cmd = [sys.executable, os.path.join(HERE, "run.py"), pid, "--jobs", "4"]
            if scale:
                cmd += ["--scale", str(scale)]
            r = subprocess.run(cmd, env=dict(os.environ, FP_REPO=repo, FP_FIRST="1"), capture_output=True, text=True)
            res.append((pid, r.returncode))
            if r.returncode == 1:
                return job, "CAUGHT", pid
            if r.returncode == 2:
                return job, "ERROR", pid + " " + (r.stdout + r.stderr).strip().splitlines()[-2][:100]
        return job, "SURVIVED", ",".join(p for p, _ in res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pick(key, pr, n):
    home = HOME.get(key, "").split()
    if len(pr) > 14 and home:
        return home[:n]
    return sorted(pr, key=lambda p: (home.index(p) if p in home else 99, SLOW.get(p, 10), p))[:n]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("files", nargs="+")
    ap.add_argument("--per", type=int, default=3)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--props")
    ap.add_argument("--fn")
    ap.add_argument("--maxprops", type=int, default=5)
    ap.add_argument("--scale", type=float, default=0)
    a = ap.parse_args()
    global REPO
    if a.cmd == "run":
        import atexit
        snap = tempfile.mkdtemp(prefix="asnap-", dir="/tmp")
        atexit.register(shutil.rmtree, snap, True)
        REPO = os.path.join(snap, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", REPO])
    cov = coverage()
    jobs = []
    for f in a.files:
        b, ms = (mutants if f.endswith(".py") else cmutants)(os.path.join(REPO, f))
        key = f.split("forcepho/", 1)[1]
        byfn = {}
        for m in ms:
            pr = cov.get("%s:%d" % (key, m[1]), set()) if f.endswith(".py") else {"P02", "P03", "P01", "P27"}
            if pr and (not a.fn or m[0].endswith(a.fn)):
                byfn.setdefault(m[0], []).append((m, pr))
        rnd = random.Random(a.seed)
        for fn, l in byfn.items():
            n = min(len(l), max(a.per, int(a.per * len({m[1] for m, _ in l}) / 12.0)))
            for m, pr in rnd.sample(l, n):
                want = a.props.split(",") if a.props else (["P02", "P03", "P01", "P27"] if not f.endswith(".py") else pick(key, pr, a.maxprops))
                jobs.append((f, m, want, a.scale))
    print("%d mutants" % len(jobs), flush=True)
    if a.cmd == "list":
        for j in jobs:
            print(j[0], j[1][0], j[1][1], j[1][2], repr(j[1][5][:70]), j[2])
        return
    n = dict(CAUGHT=0, SURVIVED=0, ERROR=0)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for k, fut in enumerate(cf.as_completed([ex.submit(run_one, j) for j in jobs]), 1):
            job, tag, info = fut.result()
            n[tag] += 1
            if k % 25 == 0:
                print("# %d/%d %s" % (k, len(jobs), n), flush=True)
            if tag != "CAUGHT":
                rel, m = job[0], job[1]
                b = open(os.path.join(REPO, rel), "rb").read()
                print("%s %s:%d %s [%s] %r -> %r  (%s)" % (tag, rel, m[1], m[0], m[2], b[m[3]:m[4]].decode()[:80], m[5][:90], info), flush=True)
    print(n, flush=True)


if __name__ == "__main__":
    main()
