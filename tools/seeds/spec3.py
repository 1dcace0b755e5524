PP = "forcepho/postprocess.py"

RUN = '''
from mini import *
import json
from types import SimpleNamespace as NS
from forcepho.fitting import Result
from forcepho.region import CircularRegion
from forcepho.superscene import SuperScene, sourcecat_dtype
BANDS, SH = ["F090W"], ["ra", "dec", "q", "pa", "sersic", "rhalf"]
def run(patches, draws=3, tune=2):
    """A run directory; patches: list of (id, sources, precision or None)."""
    root = os.path.join(TMP, "run"); os.makedirs(root + "/patches"); os.makedirs(root + "/out")
    c = np.zeros(6, dtype=sourcecat_dtype(bands=BANDS))
    c["ra"] = 53.0 + 1e-4 * np.arange(6); c["dec"] = -27.0; c["F090W"] = 10.0; c["rhalf"] = 0.1; c["sersic"] = 2; c["q"] = 0.9; c["roi"] = 1
    c["id"] = 100 + np.arange(6); c["source_index"] = np.arange(6)
    db = SuperScene(sourcecat=c, bands=BANDS, statefile=root + "/superscene.fits", target_niter=50)
    rec = {}
    for pid, src, prec in patches:
        rs = np.random.RandomState(pid + 1)
        n = draws + tune
        r = Result(); r.chain = rs.normal(size=(n, 7 * len(src))); r.ndim = 7 * len(src); r.starting_position = r.chain[0]; r.wall_time = 1.0
        if prec is not None: r.precisions = np.array(prec)[None]
        stats = [dict(tune=k < tune, model_logp=float(100 * pid + k)) for k in range(n)]
        step = NS(potential=NS(_var=np.ones(7 * len(src))), stats_dtypes=[dict(tune=bool, model_logp=np.float64)])
        model = NS(patch=NS(bandlist=BANDS, patch_reference_coordinates=np.array([53.0, -27.0]), npix=1, epaths=["a"]), scene=NS(sources=[NS(SHAPE_COLS=SH)]), ncall=1)
        q, _ = r.fill(CircularRegion(53.0, -27.0, 0.01), db.sourcecat[np.array(src)].copy(), None, model, patchID=pid, step=step, stats=stats)
        r.config = json.dumps(dict(raw_catalog=root + "/out/raw.fits"))
        r.dump_to_h5(root + "/patches/patch%d_samples.h5" % pid)
        db.checkin_region(q, None, draws, taskID=pid)
        rec[pid] = r
    db.writeout()
    json.dump(dict(bandlist=BANDS), open(root + "/config.json", "w"))
    return root, rec
'''

seed("unc-marginal", "P19",
     (PP, "            Sigma = np.linalg.pinv(s.precisions[i])\n            sigma = np.maximum(np.sqrt(np.diag(Sigma)), flux / snr_max)\n",
      "            sigma = np.maximum(1 / np.sqrt(np.diag(s.precisions[i])), flux / snr_max)\n"),
     "overlapping sources fitted in one patch, so that the precision matrix is not diagonal",
     "flux uncertainties leave out the covariance with neighbours",
     RUN + '''
from forcepho.postprocess import flux_unc_linear
root, rec = run([(0, [3, 1], [[4.0, 1.8], [1.8, 1.0]])])
u = flux_unc_linear(root)["F090W"][[3, 1]]
e = np.sqrt(np.diag(np.linalg.inv([[4.0, 1.8], [1.8, 1.0]])))
if not np.allclose(u, e, rtol=1e-5): fail("uncertainties %s, expected %s" % (u, e))
''')

seed("lnp-warmup", "P19",
     (PP, '        cat["lnp"][inds] = s.stats["model_logp"][-n_sample:]\n', '        cat["lnp"][inds] = s.stats["model_logp"][:n_sample]\n'),
     "results in which the tuning samples were kept",
     "the log-probabilities in the sample catalog are those of the tuning steps, not of the samples beside them",
     RUN + '''
from forcepho.postprocess import postsample_catalog
root, rec = run([(0, [3, 1], None), (2, [4], None)])
c = postsample_catalog(root)
if not np.array_equal(c["lnp"][4], [202., 203., 204.]): fail("log-probabilities of source 4: %s" % c["lnp"][4])
''')

seed("multipatch-row", "P19",
     (PP, '            ai = samples[int(pid)].active["source_index"].tolist().index(int(sid))\n', '            ai = np.searchsorted(samples[int(pid)].active["source_index"], int(sid))\n'),
     "a source in several patches of which one lists its sources in other than increasing order",
     "the chains compared for that source are another source's",
     RUN + '''
from forcepho.postprocess import find_multipatch
root, rec = run([(0, [1, 3, 5], None), (2, [3, 1, 4, 2], None)])
for s, p, c in zip(*find_multipatch(root)):
    if list(c["source_index"]) != [int(s)] * 2: fail("chains of source %s are of %s" % (s, c["source_index"]))
''')

TOY = '''
from mini import *
import forcepho.model as M, forcepho.fitting as F
class Toy(M.Posterior):
    def __init__(self, transform=None):
        self.transform, self.ncall, self.sampling = transform, 0, True
        self._z, self._print, self._lnprior, self._lnpriorfn = -99, False, 0, None
    def lnlike(self, q): return -0.5 * np.sum((q - 0.3) ** 2) / 0.04, -(q - 0.3) / 0.04
    def lnprob_and_grad(self, z):
        self.ncall += 1
        q = z if self.transform is None else self.transform.transform(z)
        l, g = self.lnlike(q)
        if self.transform is None: return l, g
        return l + np.sum(self.transform.lndetjac(z)) , g * self.transform.jacobian(z) + self.transform.lndetjac_grad(z)
    def nll(self, z): l, g = self.lnprob_and_grad(z); return -l, -g
    def nll_nograd(self, z): return -self.lnprob_and_grad(z)[0]
'''

seed("lbfgs-unbounded", "P25",
     ("forcepho/fitting.py", "        scires = minimize(model.nll_nograd, start.copy(), jac=None,  method='L-BFGS-B',\n                          options=opts, bounds=bounds, callback=callback)",
      "        scires = minimize(model.nll_nograd, start.copy(), jac=None,  method='L-BFGS-B',\n                          options=opts, callback=callback)"),
     "bounded optimisation without gradients, of a model with no transform, whose optimum is outside the bounds",
     "the optimum leaves the bounds",
     TOY + '''
m = Toy()
r, s = F.run_opt_bounded(m, np.array([0.6, 0.7]), jac=False, bounds=[(0.5, 1.0), (0.0, 1.0)], disp=False, iprint=-1)
q = r.chain[0]
if not (0.5 <= q[0] <= 1 and 0 <= q[1] <= 1): fail("optimum %s" % q)
''')

seed("region-label", "P32",
     ("forcepho/utils/ds9.py", '        annotate_regions(reglist, ids=cat["id"])\n', '        annotate_regions(reglist, ids=np.unique(cat["id"]))\n'),
     "a labelled catalog whose identifiers are not in increasing order",
     "regions carry the identifier of another source",
     '''
from mini import *
from forcepho.utils.ds9 import cat_to_regions
c = np.zeros(3, dtype=[(k, float) for k in ["ra", "dec", "q", "pa", "roi"]] + [("id", int)])
c["ra"] = [53, 53.1, 53.2]; c["q"] = 0.8; c["roi"] = 1; c["id"] = [7, 5, 9]
t = [r.meta["text"] for r in cat_to_regions(c)]
if t != ["7", "5", "9"]: fail("labels %s" % t)
''')

seed("region-axes", "P32",
     ("forcepho/utils/ds9.py", "        a = roi[i] / sqrtq\n        b = sqrtq * roi[i]\n", "        a = roi[i]\n        b = sqrtq**2 * roi[i]\n"),
     "an elongated source",
     "the ellipse keeps the axis ratio and orientation, but its area is not that of the requested radius",
     '''
from mini import *
from forcepho.utils.ds9 import cat_to_regions
c = np.zeros(1, dtype=[(k, float) for k in ["ra", "dec", "q", "pa", "roi"]] + [("id", int)])
c["ra"] = 53; c["q"] = 0.7; c["roi"] = 2
r = cat_to_regions(c)[0]
if abs(r.width.to_value("arcsec") * r.height.to_value("arcsec") - 4) > 1e-6: fail("axes %s %s" % (r.width, r.height))
''')
