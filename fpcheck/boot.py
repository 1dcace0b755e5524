"""Make hypothesis importable, build the kernel from the repository's working tree, import forcepho."""
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile
import types
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"
KMOD = "forcepho.src.compute_gaussians_kernel"


class HarnessError(Exception):
    pass


def ensure_deps():
    """Unpack the hypothesis and sortedcontainers wheels into .deps (git-ignored)."""
    if os.path.isdir(DEPS) and DEPS not in sys.path:
        sys.path.insert(0, DEPS)
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    names = []
    if os.path.isdir(WHEELS):
        for w in sorted(os.listdir(WHEELS)):
            if w.startswith(("hypothesis-", "sortedcontainers-")) and w.endswith(".whl"):
                names.append(os.path.join(WHEELS, w))
    if names:
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=VERIF)
        for w in names:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
        sys.path.insert(0, DEPS)
    else:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa


def kernel_sources():
    d = os.path.join(REPO, "forcepho", "src")
    return d, sorted(f for f in os.listdir(d) if f.endswith((".cc", ".h", ".hh", ".cu", ".cuh")))


def kernel_key(extra=""):
    d, files = kernel_sources()
    h = hashlib.sha256()
    h.update(extra.encode())
    h.update(sys.version.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(d, f), "rb") as fp:
            h.update(fp.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build_kernel(flags=("-O2",), cxx="g++", tag="opt"):
    """Compile the pybind11 kernel from the working tree; returns the path of the .so."""
    import pybind11
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    key = kernel_key(tag + " ".join(flags) + cxx)
    outdir = os.path.join(CACHE, "kernel-%s-%s" % (tag, key))
    so = os.path.join(outdir, "compute_gaussians_kernel" + suffix)
    if os.path.exists(so):
        return so
    os.makedirs(CACHE, exist_ok=True)
    # the cache only ever holds a few recent builds
    olds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                  if d.startswith(("kernel-", "emu-")))
    import shutil
    for _, d in olds[:-12]:
        shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    tso = os.path.join(tmp, os.path.basename(so))
    src = os.path.join(REPO, "forcepho", "src")
    cmd = [cxx, "-std=c++11", "-fPIC", "-shared", "-fvisibility=hidden", "-g", "-w", *flags,
           "-I", src, "-I", pybind11.get_include(), "-I", sysconfig.get_paths()["include"],
           os.path.join(src, "compute_gaussians_kernel.cc"), "-o", tso]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError("kernel build failed:\n" + r.stderr[-4000:])
    try:
        os.rename(tmp, outdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(so):
        raise HarnessError("kernel build vanished")
    return so


def load_kernel(so, name=KMOD):
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def import_forcepho(kernel=True, so=None):
    """Import forcepho from REPO, with the kernel freshly built from REPO."""
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "forcepho", "_version.py")):
        v = types.ModuleType("forcepho._version")
        v.__version__ = "0"
        sys.modules["forcepho._version"] = v
    if kernel:
        if so is None:
            so = build_kernel()
        mod = load_kernel(so)
        sys.modules[KMOD] = mod
    import forcepho
    if os.path.dirname(os.path.dirname(os.path.abspath(forcepho.__file__))) != os.path.abspath(REPO):
        raise HarnessError("forcepho imported from %s" % forcepho.__file__)
    return forcepho
