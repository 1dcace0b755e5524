"""A stand-in for PyCUDA: device memory is guarded host memory, kernels are compiled for the host and run by lib/emu."""
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import types
import weakref

import numpy as np

from .. import boot

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "emu")
GUARD = 256
SCHEDULE = dict(mode=0, seed=1)     # how the next launches are scheduled
HOOKS = False       # build the next modules with every memory access of the kernel judged
LIVE = weakref.WeakValueDictionary()    # address -> allocation
GRAVE = []                              # freed memory, kept so that stale pointers read nonsense instead of something new


class CudaFault(Exception):
    pass


class NotBuilt(Exception):
    """The stand-in cannot compile the kernel; that says nothing about nvcc."""


class DeviceAllocation:
    def __init__(self, nbytes):
        self.nbytes = int(nbytes)
        self._raw = np.empty(self.nbytes + 2 * GUARD + 64, dtype=np.uint8)
        base = self._raw.__array_interface__["data"][0] + GUARD
        self._ptr = (base + 63) // 64 * 64
        o = self._ptr - base + GUARD
        self._lo, self._mem, self._hi = self._raw[:o], self._raw[o:o + self.nbytes], self._raw[o + self.nbytes:]
        self._lo[:] = 0xA5
        self._hi[:] = 0xA5
        self._mem[:] = 0x7F          # fresh device memory holds anything
        LIVE[self._ptr] = self
        self._ok = True

    def verify(self):
        if not (np.all(self._lo == 0xA5) and np.all(self._hi == 0xA5)):
            raise CudaFault("write outside a device array of %d bytes" % self.nbytes)

    def free(self):
        if not self._ok:
            raise CudaFault("device memory freed twice")
        self.verify()
        self._ok = False
        self._mem[:] = 0x7F          # whoever uses it now gets nonsense
        LIVE.pop(self._ptr, None)
        GRAVE.append(self._raw)
        del GRAVE[:-64]

    def __int__(self):
        return self._ptr
    __index__ = __int__

    def __bool__(self):
        return True

    def __del__(self):
        if self._ok:
            self._ok = False
            self._mem[:] = 0x7F
            GRAVE.append(self._raw)
            del GRAVE[:-64]


def mem_alloc(n):
    if n <= 0:
        raise CudaFault("cuMemAlloc failed: invalid argument")
    return DeviceAllocation(n)


def _bytes(a):
    a = np.asarray(a)
    if not a.flags.c_contiguous and not a.flags.f_contiguous:
        raise ValueError("ndarray is not contiguous")
    return a


def to_device(a):
    a = _bytes(a)
    d = mem_alloc(a.nbytes)
    d._mem[:] = np.frombuffer(a.tobytes(order="A"), dtype=np.uint8)
    return d


def find(ptr):
    p = int(ptr)
    for q, d in list(LIVE.items()):
        if q <= p < q + d.nbytes:
            return d, p - q
    raise CudaFault("address %x is not in device memory" % p)


def from_device(ptr, shape, dtype, order="C"):
    out = np.empty(shape, dtype, order)
    memcpy_dtoh(out, ptr)
    return out


def memcpy_dtoh(dest, src):
    d, o = find(src)
    n = dest.nbytes
    if o + n > d.nbytes:
        raise CudaFault("read of %d bytes from a device array of %d" % (n, d.nbytes))
    dest.reshape(-1).view(np.uint8)[:] = d._mem[o:o + n]


def memcpy_htod(dest, src):
    d, o = find(dest)
    b = np.frombuffer(_bytes(src).tobytes(), dtype=np.uint8)
    if o + len(b) > d.nbytes:
        raise CudaFault("write of %d bytes to a device array of %d" % (len(b), d.nbytes))
    d._mem[o:o + len(b)] = b


def memcpy_dtod(dest, src, n):
    d, o = find(dest)
    s, p = find(src)
    d._mem[o:o + n] = s._mem[p:p + n]


class _Handler:
    def __init__(self, array):
        self.array = array


class In(_Handler):
    pass


class Out(_Handler):
    pass


class InOut(_Handler):
    pass


class Function:
    def __init__(self, lib, name, hooks=False):
        self.lib, self.name, self.hooks = lib, name, hooks
        try:
            self.fn = ctypes.cast(getattr(lib, name), ctypes.c_void_p)
        except AttributeError:
            raise CudaFault("cuModuleGetFunction failed: named symbol not found")
        self.launches = 0

    def __call__(self, *args, grid=(1, 1), block=(1, 1, 1), shared=0, stream=None, **kw):
        if block[0] * block[1] * block[2] > 1024 or shared > 49152 or min(block) < 1:
            raise CudaFault("cuLaunchKernel failed: too many resources requested for launch")
        if len(args) > 8:
            raise CudaFault("too many arguments for the stand-in")
        ptrs, back, temp = [], [], []
        for a in args:
            if isinstance(a, _Handler):
                arr = np.asarray(a.array)
                d = mem_alloc(arr.nbytes) if isinstance(a, Out) else to_device(arr)
                temp.append(d)
                if not isinstance(a, In):
                    back.append((a.array, d))
                ptrs.append(int(d))
            else:
                ptrs.append(int(a))
        cargs = (ctypes.c_void_p * 8)(*(ptrs + [0] * (8 - len(ptrs))))
        msg = ctypes.create_string_buffer(300)
        SCHEDULE["seed"] += 1
        if self.hooks:
            live = sorted((q, q + d.nbytes) for q, d in LIVE.items())
            lo, hi = ((ctypes.c_size_t * len(live))(*[x[i] for x in live]) for i in (0, 1))
            self.lib.emu_regions(len(live), lo, hi)
        r = self.lib.emu_launch(self.fn, cargs, int(grid[0]), int(block[0]), int(shared), ctypes.c_uint64(SCHEDULE["seed"]), int(SCHEDULE["mode"]), msg, 300)
        self.launches += 1
        try:
            if r:
                raise CudaFault(msg.value.decode())
            for d in list(LIVE.values()):
                d.verify()
            for arr, d in back:
                memcpy_dtoh(arr, d)
        finally:
            for d in temp:
                d.free()


_loaded = {}


class SourceModule:
    def __init__(self, source, nvcc="nvcc", options=None, keep=False, no_extern_c=False, arch=None, code=None, cache_dir=None, include_dirs=()):
        if not no_extern_c:
            source = 'extern "C" {\n%s\n}\n' % source
        h = hashlib.sha256(source.encode())
        files = []
        for d in [HERE] + list(include_dirs):
            for f in sorted(os.listdir(d)):
                if f.endswith((".cc", ".h", ".hh", ".cu", ".cuh")):
                    files.append(os.path.join(d, f))
        for f in files:
            h.update(open(f, "rb").read())
        self.hooks = HOOKS
        key = h.hexdigest()[:20] + ("-hooks" if HOOKS else "")
        if key not in _loaded:
            _loaded[key] = self._build(source, include_dirs, key, HOOKS)
        self.lib = _loaded[key]

    @staticmethod
    def _build(source, include_dirs, key, hooks):
        outdir = os.path.join(boot.CACHE, "emu-" + key)
        so = os.path.join(outdir, "kernel.so")
        if not os.path.exists(so):
            os.makedirs(boot.CACHE, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix="build-", dir=boot.CACHE)
            # dynamic shared memory is the only thing that macros cannot express
            source = re.sub(r"extern\s+__shared__\s+(?:__align__\(\s*\d+\s*\)\s*)?((?:unsigned\s+)?[A-Za-z_]\w*)\s+(\w+)\s*\[\s*\]\s*;",
                            r"\1 *\2 = (\1 *) emu::dynamic_shared();", source)
            with open(os.path.join(tmp, "kernel.cc"), "w") as f:
                f.write('#include "emu.hh"\n#line 1 "kernel.cu"\n' + source)
            inc = ["-I" + HERE] + ["-I" + d for d in include_dirs]
            flags = ["g++", "-std=c++14", "-O2", "-ffp-contract=off", "-fPIC", "-w"] + inc
            k = [os.path.join(tmp, n) for n in ("kernel.cc", "kernel.o", "emu.o", "kernel.so")]
            for cmd in (flags + (["-fsanitize=thread"] if hooks else []) + ["-c", k[0], "-o", k[1]],
                        flags + ["-c", os.path.join(HERE, "emu.cc"), "-o", k[2]],
                        ["g++", "-shared", k[1], k[2], "-lboost_context", "-o", k[3]]):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    break
            if r.returncode:
                import shutil
                shutil.rmtree(tmp, ignore_errors=True)
                raise NotBuilt(r.stderr[-1500:])
            try:
                os.rename(tmp, outdir)
            except OSError:
                import shutil
                shutil.rmtree(tmp, ignore_errors=True)
        return ctypes.CDLL(so)

    def get_function(self, name):
        return Function(self.lib, name, self.hooks)


def install():
    """Make `import pycuda` find this module."""
    if "pycuda" in sys.modules:
        return
    top, drv, comp, auto = (types.ModuleType(n) for n in ("pycuda", "pycuda.driver", "pycuda.compiler", "pycuda.autoinit"))
    for n in ("DeviceAllocation", "mem_alloc", "to_device", "from_device", "memcpy_dtoh", "memcpy_htod", "memcpy_dtod", "In", "Out", "InOut", "Function"):
        setattr(drv, n, globals()[n])
    drv.LogicError = drv.Error = drv.RuntimeError = CudaFault
    comp.SourceModule = SourceModule
    drv.SourceModule = SourceModule
    top.driver, top.compiler, top.autoinit = drv, comp, auto
    sys.modules.update({"pycuda": top, "pycuda.driver": drv, "pycuda.compiler": comp, "pycuda.autoinit": auto})
