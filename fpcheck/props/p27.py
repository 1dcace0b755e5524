"""P27: the compiled evaluator under AddressSanitizer/UBSan and under different initial memory contents."""
import atexit
import json
import os
import select
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from .. import boot
from ..core import Sub, check

ASSUMPTIONS = ["patches within the declared limits (30 bands, 30 sources, 10 radii), every band with at least one exposure",
               "memory errors are those AddressSanitizer and UBSan detect at the granularity of one allocation"]

MODES = {
    "asan": (("-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
             dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:max_malloc_fill_size=4000000:malloc_fill_byte=165:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1")),
    "pattern": (("-O2", "-ftrivial-auto-var-init=pattern"), dict(MALLOC_PERTURB_="90")),
    "zero": (("-O2", "-ftrivial-auto-var-init=zero"), dict(MALLOC_PERTURB_="255")),
}
SO = {}


class Server:
    def __init__(self, mode):
        self.mode = mode
        self.dir = tempfile.mkdtemp(prefix="san-%s-" % mode)
        env = dict(os.environ)
        env.update(MODES[mode][1])
        env["PYTHONMALLOC"] = "malloc"
        if mode == "asan":
            lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            std = subprocess.run(["g++", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(std)
        self.err = open(os.path.join(self.dir, "stderr"), "w+")
        self.p = subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "fpcheck", "sanserver.py"), SO[mode], self.dir, mode],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, text=True)
        self.ready = self.readline(120).strip() == "ready"

    def readline(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        return self.p.stdout.readline() if r else ""

    def ask(self, case):
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
            line = self.readline(90)
        except OSError:
            line = ""
        if line:
            return json.loads(line)
        self.p.kill()
        self.p.wait()
        self.err.seek(0)
        text = self.err.read()
        i = max(text.find("ERROR: AddressSanitizer"), 0) or max(text.find("runtime error"), 0)
        return dict(violation="the evaluator died (%s build, status %s): %s" % (self.mode, self.p.returncode, text[max(0, i - 100):i + 1200]), dead=True)

    def close(self):
        import shutil
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


SERVERS = {}


def server(mode):
    key = (os.getpid(), mode)
    # (address space randomisation occasionally keeps an instrumented process from starting)
    for _ in range(6):
        if key in SERVERS and SERVERS[key].ready:
            return SERVERS[key]
        drop(mode)
        SERVERS[key] = Server(mode)
    return SERVERS[key] if SERVERS[key].ready else None


def drop(mode):
    s = SERVERS.pop((os.getpid(), mode), None)
    if s:
        s.close()


def body(case, info):
    outs = {}
    for mode in case["modes"]:
        srv = server(mode)
        if srv is None:
            info.label("%s process could not be started" % mode)
            info.trivial_if(True)
            return
        a = srv.ask(case)
        if "violation" in a:
            if a.get("dead"):
                drop(mode)
            check(False, "[%s] %s", mode, a["violation"])
        outs[mode] = a["outs"]
        info.label("pixels %d+" % (10 ** (len(str(a["npix"])) - 1)))
    if "pattern" in outs and "zero" in outs:
        for i, (x, y) in enumerate(zip(outs["pattern"], outs["zero"])):
            check(x == y, "evaluation %d depends on the initial contents of memory: %s", i, [n for n, u, v in zip(("chi2", "gradient", "residual"), x, y) if u != v])
    info.label("bands %s" % ("30" if case["nb"] == 30 else "<30"), "sources %s" % ("30" if case["ns"] == 30 else "<30"), *(["over " + case["over"]] if case.get("over") else []))


@st.composite
def case_st(draw, modes):
    big = draw(st.sampled_from(["", "", "", "bands", "sources", "radii", "psf"]))
    nb = 30 if big == "bands" else draw(st.integers(1, 4))
    ns = 30 if big == "sources" else draw(st.integers(1, 6))
    # images shrink when there are many sources or bands: the work is their product
    top = 5 if big in ("bands", "sources") else 14
    return dict(modes=modes, nb=nb, ns=ns, nfixed=draw(st.sampled_from([0, 0, 1, 3, 20])), nrad=10 if big == "radii" else draw(st.integers(1, 6)),
                npsf=[7] if big == "psf" else draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
                nexp=[1] if big == "bands" else draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
                sizes=draw(st.lists(st.tuples(st.integers(2, top), st.integers(2, top)).map(list), min_size=1, max_size=4)),
                shuffle=draw(st.booleans()), ext=draw(st.sampled_from([0.1, 0.4, 3.0])), two=draw(st.booleans()),
                seed=draw(st.integers(0, 99999)), history=draw(st.lists(st.integers(0, 5), min_size=2, max_size=6)))


@st.composite
def over_st(draw):
    """More sources, bands or radii than the compiled evaluator has room for."""
    c = draw(case_st(["asan"]))
    what = draw(st.sampled_from(["ns", "ns", "nb", "nrad"]))
    more = draw(st.sampled_from([1, 1, 2, 3, 10]))
    c.update({what: {"ns": 30, "nb": 30, "nrad": 10}[what] + more}, over=what, nfixed=0, history=[0, 1], nexp=[1])
    if what != "ns":
        c["ns"] = min(c["ns"], 4)
    if what != "nb":
        c["nb"] = min(c["nb"], 3)
    return c


def subs():
    for mode, (flags, _) in MODES.items():
        SO[mode] = boot.build_kernel(flags, "g++", mode)
    return [
        Sub("memory", lambda: case_st(["asan"]), body, quick=160, thorough=4000, shards=6, budget=60,
            rule="patches of 1-30 bands, 1-30 sources, 1-10 radii, 1-7 PSF gaussians per bin, irregular small stamps, evaluation histories on one or two live patches, in a process whose kernel and heap are instrumented"),
        Sub("limits", over_st, body, quick=24, thorough=400, shards=2, budget=60,
            rule="patches of more than 30 sources, 30 bands or 10 radii: refused with an error, and before memory is overrun"),
        Sub("initial", lambda: case_st(["pattern", "zero"]), body, quick=160, thorough=4000, shards=2, budget=60,
            rule="the same histories in two processes whose stack variables and heap blocks start with different contents; growth of allocated memory over repeated evaluation"),
    ]
