CU, DP = "forcepho/src/compute_gaussians_kernel.cu", "forcepho/patches/device_patch.py"

GPU = '''
from mini import *
import fakecuda, atexit, shutil
fakecuda.install()
atexit.register(shutil.rmtree, fakecuda.boot.CACHE, True)
from forcepho.patches import FITSPatch, CPUPatchMixin
from forcepho.patches.device_patch import GPUPatchMixin
import forcepho.proposal as P
BANDS = ["F090W", "F200W"]
FILES = [image("a.fits", 20, 18, "F090W", seed=1), image("b.fits", 16, 22, "F090W", rot=30.0, seed=2), image("c.fits", 18, 18, "F200W", rot=70.0, seed=3)]
PSF = psfstore(BANDS, nrad())
def patch(mixin):
    class Patcher(FITSPatch, mixin):
        pass
    p = Patcher(fitsfiles=FILES, psfstore=PSF, splinedata=SPLINE, return_residual=True)
    p.build_patch(region=None, sourcecat=None, allbands=BANDS)
    return p
C = cat([(0.0, 0.0, 0.6, 0.5, 2.0, 0.12, 30.0, 50.0), (0.3, 0.2, 0.8, -0.5, 1.0, 0.1, 80.0, 20.0), (-0.2, 0.25, 0.9, 1.0, 3.0, 0.15, 60.0, 90.0)], BANDS)
'''

seed("gpu-barrier", "P33",
     (CU, "        CreateImageGaussians(patch, sources, exposure, imageGauss);\n\n        __syncthreads();\n", "        CreateImageGaussians(patch, sources, exposure, imageGauss);\n"),
     "a block of several warps in which one warp runs ahead of the one that makes the image Gaussians",
     "threads evaluate pixels with Gaussians that are not yet (or no longer) those of the exposure",
     GPU + '''
c, g = patch(CPUPatchMixin), patch(GPUPatchMixin)
(cm, q), (gm, _) = c.prepare_model(active=C.copy()), g.prepare_model(active=C.copy())
ref = cm.lnprob(q.copy())
for seed in range(12):
    fakecuda.SCHEDULE.update(mode=[0, 1, 2, 3, 4][seed % 5], seed=seed)
    gm.proposer = P.GPUProposer(thread_block=[1024, 128][seed % 2])
    v = gm.lnprob(q + 0.0)
    if not abs(v - ref) < 1e-4 * abs(ref) + 1e-3: fail("schedule %d: log-likelihood %r on the GPU, %r on the CPU" % (seed, v, ref))
    gm._lnp = None; gm._z = 0
''')

seed("gpu-plain-add", "P33",
     (CU, """    __device__ void warpReduceSumDbl(double *answer, double input) {
        input += __shfl_down_sync(FULL_MASK, input, 16);
        input += __shfl_down_sync(FULL_MASK, input,  8);
        input += __shfl_down_sync(FULL_MASK, input,  4);
        input += __shfl_down_sync(FULL_MASK, input,  2);
        input += __shfl_down_sync(FULL_MASK, input,  1);
        // threadIdx.x % 32 == 0
        if ((threadIdx.x&31) == 0) atomicAdd(answer, input);
""", """    __device__ void warpReduceSumDbl(double *answer, double input) {
        input += __shfl_down_sync(FULL_MASK, input, 16);
        input += __shfl_down_sync(FULL_MASK, input,  8);
        input += __shfl_down_sync(FULL_MASK, input,  4);
        input += __shfl_down_sync(FULL_MASK, input,  2);
        input += __shfl_down_sync(FULL_MASK, input,  1);
        // one lane per warp, so a plain double add will do
        if ((threadIdx.x&31) == 0) *answer += input;
"""),
     "two warps of a block that add their chi-square at the same time",
     "the contribution of one of the warps is lost",
     GPU + '''
fakecuda.HOOKS = True      # judge every access
g = patch(GPUPatchMixin)
gm, q = g.prepare_model(active=C.copy())
gm.proposer = P.GPUProposer(thread_block=128)
try:
    gm.lnprob(q + 0.0)
except fakecuda.CudaFault as e:
    fail(str(e))
''')

seed("gpu-meta-reuse", "P33",
     (DP, """                self.device_ptrs[arrname].free()
                self.device_ptrs[arrname] = cuda.to_device(arr)
""", """                old = self.device_ptrs[arrname]
                if arr.nbytes == getattr(self, "_sent", {}).get(arrname, None):
                    continue    # same shape as before, keep the buffer
                old.free()
                self.device_ptrs[arrname] = cuda.to_device(arr)
                self._sent = dict(getattr(self, "_sent", {}), **{arrname: arr.nbytes})
"""),
     "two batches of fixed sources with the same number of sources, or as many active as fixed sources, after a first replacement",
     "the metadata on the device (astrometry of each source) stay those of the previous batch of sources",
     GPU + '''
far = C.copy(); far["dec"] += 0.35 / 3600; far["ra"] -= 0.3 / 3600
c, g = patch(CPUPatchMixin), patch(GPUPatchMixin)
(cm, q), (gm, _) = c.prepare_model(active=far[2:].copy(), fixed=C[:2].copy()), g.prepare_model(active=far[2:].copy(), fixed=C[:2].copy())
if True:
    for k in range(2):
        # back and forth between scenes of one size
        for sc in (C[:1], far[2:3], C[1:2]):
            vals = []
            for p, m in ((c, cm), (g, gm)):
                m.scene = p.set_scene(sc.copy()); p.pack_meta(m.scene); p.replace_device_meta_ptrs(); p.send_patchstruct_to_device()
                vals.append(m.proposer.evaluate_proposal(m.scene.get_proposal(), patch=p)[0])
            if not np.allclose(vals[0], vals[1], rtol=1e-3, atol=1e-2): fail("chi-square %s on the GPU, %s on the CPU" % (vals[1], vals[0]))
''')
