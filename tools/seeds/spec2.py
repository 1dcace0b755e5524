KC = "forcepho/src/common_kernel.cc"
KE = "forcepho/src/compute_gaussians_kernel.cc"

MODEL = '''
from mini import *
from forcepho.superscene import make_bounds
def build(files, bands, rows, **kw):
    p = patcher(files, bands, **kw)
    c = cat(rows, bands)
    model, q = p.prepare_model(active=c, bounds=make_bounds(c, bands))[:2]
    return p, model, q
'''

seed("deriv-cw", "P03",
     [(KC, "    gauss.dy_dAlpha = sersicgauss.CW.v21;", "    gauss.dy_dAlpha = sersicgauss.CW.v12;"),
      (KC, "    gauss.dx_dDelta = sersicgauss.CW.v12;", "    gauss.dx_dDelta = sersicgauss.CW.v21;")],
     "an image rotated on the sky and away from the equator (elsewhere the pixel matrix is diagonal or symmetric)",
     "the gradient with respect to right ascension and declination is wrong",
     MODEL + '''
f = image("a.fits", 24, 24, "F090W", seed=3, rot=35.0)
p, model, q = build([f], ["F090W"], [(0.02, 0.03, .8, .1, 2, .12, 800.0)])
model.sampling = False
z0 = model.transform.inverse_transform(q) + 0.2
l0, g0 = model.lnprob_and_grad(z0.copy())
g0 = np.array(g0)
for i in (1, 2):
    h = 0.02
    a, b = z0.copy(), z0.copy(); a[i] += h; b[i] -= h
    num = (model.lnprob(a) - model.lnprob(b)) / (2 * h)
    if abs(num - g0[i]) > 0.05 * np.abs(g0[1:3]).max(): fail("gradient %d: %s, numerical %s" % (i, g0[i], num))
''')

seed("far-pixels", "P02",
     (KC, "        if (exparg>(float)MAX_EXP_ARG) continue;\n        float Gp = expf(-0.5f * exparg);\n\n        // Here are",
      "        if (exparg>(float)MAX_EXP_ARG || dx*dx + dy*dy > 1600.f) continue;\n        float Gp = expf(-0.5f * exparg);\n\n        // Here are"),
     "a wide source on an exposure with small pixels, or a large image, so that it reaches pixels more than 40 pixels away",
     "the model leaves out the outskirts, so the likelihood is not that of the scene",
     MODEL + '''
n = 120
y, x = np.mgrid[:n, :n]; r = np.hypot(x - 59, y - 59)
f = image("a.fits", n, n, "F090W", seed=3, data=np.zeros((n, n)), unc=np.where((r > 44) & (r < 52), 1e-3, np.inf))
p, model, q = build([f], ["F090W"], [(0.0, 0.0, .95, .1, 4.9, .29, 1e5)])
model.sampling = False
l = model.lnprob(model.transform.inverse_transform(q))
if l > -10: fail("a bright wide source leaves no trace 44 to 52 pixels away (%s)" % l)
''')

seed("subtract-swap", "P07",
     ("forcepho/patches/device_patch.py",
      "        # swap attribute references too!\n        self.data, self.residual = self.residual, self.data\n        # Pack pointers into structure and send structure to device\n        _ = self.send_patchstruct_to_device()\n        #self._dirty_data = True",
      "        # Pack pointers into structure and send structure to device\n        _ = self.send_patchstruct_to_device()\n        #self._dirty_data = True"),
     "fixed sources subtracted, and the data or residuals read back afterwards (as the flux optimiser does)",
     "the arrays read back are not those the evaluator uses",
     MODEL + '''
f = image("a.fits", 24, 24, "F090W", seed=3, data=np.zeros((24, 24)))
act = cat([(0, 0, .8, .1, 2, .1, 50.0)], ["F090W"])
fix = cat([(-.3, .2, .8, .1, 2, .1, 40.0), (.3, .2, .7, .3, 2, .1, 60.0), (.2, -.3, .8, .1, 3, .1, 70.0)], ["F090W"])
for k in (15, 1):
    p = patcher([f], ["F090W"])
    p.subtract_fixed(fix, active=act, maxactive=k)
    d = p.retrieve_array("data")
    if not -200 < d.sum() < -100: fail("data after subtraction sum to %s" % d.sum())
''')

seed("lstsq-cut", "P08",
     ("forcepho/fitting.py", "    flux = np.linalg.solve(ATA, Xyp)\n", "    flux = np.linalg.lstsq(ATA, Xyp, rcond=1e-4)[0]\n"),
     "sources that are strongly blended or of very different brightness in weight, so that the normal matrix is ill conditioned",
     "the fluxes are not those that minimise the chi-square",
     '''
from mini import *
from forcepho.fitting import optimize_one_band
rs = np.random.RandomState(1)
x = np.linspace(-5, 5, 200)
X = np.array([np.exp(-0.5 * x ** 2), np.exp(-0.5 * (x - 0.01) ** 2), np.exp(-0.5 * (x - 3) ** 2)])
f = np.array([10.0, 20.0, 30.0])
y = f @ X
w = np.full(200, 10.0)
flux, prec = optimize_one_band(X, w, y)
if not np.allclose(np.ravel(flux), f, rtol=1e-3): fail("fluxes %s" % np.ravel(flux))
''')

seed("bad-data", "P09",
     ("forcepho/patches/pixel_patch.py", "        bad = ~np.isfinite(flux) | ~np.isfinite(ie) | (ie < 0)\n        ie[bad] = 0\n        flux[bad] = 0\n",
      "        bad = ~np.isfinite(ie) | (ie < 0)\n        flux[bad] = 0\n        bad |= ~np.isfinite(flux)\n        ie[bad] = 0\n"),
     "a pixel without a valid value but with a valid uncertainty",
     "the invalid value stays in the patch and turns every likelihood into NaN",
     MODEL + '''
d = np.ones((8, 8)); d[2, 3] = np.nan
f = image("a.fits", 8, 8, "F090W", data=d)
p, model, q = build([f], ["F090W"], [(0, 0, .8, .1, 2, .12, 10.0)])
l = model.lnprob(model.transform.inverse_transform(q))
if not np.isfinite(l): fail("log-probability %s" % l)
''')

seed("snr-abs", "P09",
     ("forcepho/patches/pixel_patch.py", "            to_cap = (self.ierr > 0) & (self.data * self.ierr > max_snr)\n", "            to_cap = (self.ierr > 0) & (np.abs(self.data) * self.ierr > max_snr)\n"),
     "a maximum signal-to-noise ratio and a significantly negative pixel",
     "the inverse uncertainty of negative pixels becomes negative",
     '''
from mini import *
d = np.ones((8, 8)); d[2, 3] = -500.0; d[4, 4] = 500.0
f = image("a.fits", 8, 8, "F090W", data=d)
from forcepho.patches import FITSPatch, CPUPatchMixin
class P(FITSPatch, CPUPatchMixin): pass
p = P(fitsfiles=[f], psfstore=psfstore(["F090W"], nrad()), splinedata=SPLINE)
p.max_snr = 100.0
p.build_patch(region=None, sourcecat=None, allbands=["F090W"])
if (p.ierr < 0).any(): fail("negative inverse uncertainties")
k = (p.xpix == 4) & (p.ypix == 4)
if abs(p.ierr[k][0] - 0.2) > 1e-6: fail("cap not applied")
''')

seed("replace-drops-band", "P10",
     ("forcepho/patches/storage.py", "                del h5[path]\n", "                del h5[band]\n"),
     "an exposure stored a second time in a band that holds other exposures",
     "the other exposures of the band are deleted",
     '''
from mini import *
from argparse import Namespace
from forcepho.patches.storage import PixelStore
fn = os.path.join(TMP, "pix.h5")
s = PixelStore(fn, nside_full=16, super_pixel_size=8)
def add(e, v):
    s.add_exposure(Namespace(hdr=header(16, 16, "F090W"), band="F090W", expID=e, im=np.full((16, 16), v), ierr=np.ones((16, 16)), bkg=None, mask=None, names=None))
add("e1", 1.0); add("e2", 2.0); add("e1", 3.0)
with h5py.File(fn, "r") as h:
    if sorted(h["F090W"]) != ["e1", "e2"]: fail("store holds %s" % sorted(h["F090W"]))
    if h["F090W/e1/data"][0, 0, 0] != 3.0: fail("not replaced")
''')

seed("expid-dots", "P11",
     ("forcepho/patches/storage.py", '    expID = os.path.basename(name).replace(".fits", "")\n', '    expID = os.path.basename(name).split(".")[0]\n'),
     "file names that contain dots and differ only after the first one",
     "two exposures get the same identifier, so one replaces the other in the stores",
     '''
from mini import *
from forcepho.patches.storage import header_to_id
h = header(8, 8, "F090W")
a, b = header_to_id(h, "/x/jw.001.fits"), header_to_id(h, "/x/jw.002.fits")
if a == b: fail("both are %s" % (a,))
''')

seed("seed-zero", "P14",
     ("forcepho/superscene.py", "        if seed_index >= 0:\n            k = seed_index\n        else:\n            k = np.random.choice(self.n_sources, p=self.seed_weight())\n        seed = self.sourcecat[k]",
      "        if seed_index > 0:\n            k = seed_index\n        else:\n            k = np.random.choice(self.n_sources, p=self.seed_weight())\n        seed = self.sourcecat[k]"),
     "a patch requested around the first source of the catalog",
     "the patch is centred on some other source",
     '''
from mini import *
from forcepho.superscene import SuperScene, sourcecat_dtype
c = np.zeros(20, dtype=sourcecat_dtype(bands=["F090W"]))
c["ra"] = RA0 + np.arange(20) * 30 / 3600; c["dec"] = DEC0; c["rhalf"] = 0.1; c["q"] = 0.8; c["sersic"] = 2; c["F090W"] = 10
s = SuperScene(c, bands=["F090W"], statefile=os.path.join(TMP, "s.fits"), boundary_radius=8, maxradius=6)
for i in range(5):
    ra, dec = s.draw_center(seed_index=0)
    if ra != s.sourcecat["ra"][0]: fail("centre at %s" % ra)
''')

seed("pa-inplace", "P16",
     ("forcepho/superscene.py", "        pa = pa_in.copy()\n", "        pa = np.asarray(pa_in)\n"),
     "angles in radians outside plus or minus pi/2, converted twice or used afterwards",
     "the caller's angles are overwritten",
     '''
from mini import *
from forcepho.superscene import convert_pa
a = np.array([2.0, -2.5, 0.3]); b = a.copy()
convert_pa(a, rotate=True)
if not np.array_equal(a, b): fail("input became %s" % a)
''')

seed("dump-squeeze", "P17",
     ("forcepho/fitting.py", "                    out.create_dataset(name, data=value)\n", "                    out.create_dataset(name, data=np.atleast_1d(np.squeeze(value)))\n"),
     "a result with a single draw (an optimisation) or a single source",
     "arrays come back with another shape, so rows and parameters no longer line up",
     '''
from mini import *
from forcepho.fitting import Result
r = Result(); r.chain = np.arange(8.0).reshape(1, 8)
fn = os.path.join(TMP, "r.h5"); r.dump_to_h5(fn)
s = Result(); s.read_from_h5(fn)
if s.chain.shape != (1, 8): fail("chain has shape %s" % (s.chain.shape,))
''')

seed("falsy-option", "P20",
     ("forcepho/config.py", "                if v is not None:\n                    setattr(config, k, v)", "                if v or isinstance(v, bool):\n                    setattr(config, k, v)"),
     "an option given as zero or as an empty list or string",
     "the value given is ignored in favour of the lower-priority one",
     '''
from mini import *
from argparse import Namespace
from forcepho.config import update_config
c = update_config(Namespace(a=5, b="x", c=[1]), Namespace(a=0, b="", c=[]))
if (c.a, c.b, list(c.c)) != (0, "", []): fail("%s" % c)
''')

seed("overlap-edge", "P21",
     ("forcepho/region.py", "        inds = np.arange(N)\n        normX, normY = Ys[(inds", "        inds = np.arange(N - 1)\n        normX, normY = Ys[(inds"),
     "two convex outlines that are not rectangles and are only separated along the edge that closes the polygon",
     "outlines that do not touch are reported as overlapping",
     '''
from mini import *
from argparse import Namespace
from forcepho.region import polygons_overlap
a = Namespace(bounding_box=np.array([(0, 1.0), (0, 0), (1, 0)]).T)
b = Namespace(bounding_box=np.array([(.95, .6), (.95, .95), (.6, .95)]).T)
if polygons_overlap(a, b): fail("disjoint triangles overlap")
b.bounding_box = b.bounding_box - 0.4
if not polygons_overlap(a, b): fail("overlapping triangles do not")
''')

seed("no-distortion", "P22",
     ("forcepho/utils/wcs.py", '    if getattr(wcs, "has_distortion", True) or make_approx:\n', '    if make_approx or not getattr(wcs, "has_distortion", False) is not True and make_approx:\n'),
     "an image with SIP distortion",
     "the scale matrices are those of the undistorted image",
     '''
from mini import *
from astropy.wcs import WCS
from forcepho.utils.wcs import scale_at_sky, FWCS
h = header(400, 400, "F090W"); h["NAXIS"] = 2; h["NAXIS1"] = h["NAXIS2"] = 400
h["CTYPE1"], h["CTYPE2"] = "RA---TAN-SIP", "DEC--TAN-SIP"
h["A_ORDER"] = h["B_ORDER"] = 2; h["A_2_0"] = 2e-4; h["B_0_2"] = -1e-4; h["A_1_1"] = 1e-4
w = FWCS(WCS(h))
x, y = 380.0, 20.0
ra, dec = [float(v) for v in w.pixel_to_world_values(x, y)]
CW, D = scale_at_sky((ra, dec), w)
x1, y1 = w.world_to_pixel_values(ra, dec + 1e-5)
want = np.array([x1 - x, y1 - y]) / 1e-5
if not np.allclose(CW[:, 1], want, rtol=5e-3, atol=np.abs(want).max() * 5e-3): fail("d(x,y)/d(dec) %s, expected %s" % (CW[:, 1], want))
''')

seed("spline-cache", "P23",
     [("forcepho/sources.py", '        with h5py.File(splinedata, "r") as data:\n            n = data["nsersic"][:]\n            r = data["rh"][:]\n            A = data["amplitudes"][:]\n            self.radii = data["radii"][:]\n\n        nm, ngauss = A.shape\n',
       '        with h5py.File(splinedata, "r") as data:\n            n = data["nsersic"][:]\n            r = data["rh"][:]\n            A = data["amplitudes"][:]\n            self.radii = data["radii"][:]\n\n        nm, ngauss = A.shape\n        self.rh_range = (r.min(), r.max())\n        self.sersic_range = (n.min(), n.max())\n        # building the splines is slow, and every galaxy of a scene needs the same ones\n        key = (A.shape, self.rh_range, self.sersic_range, spline_smoothing, spline_type)\n        if key in Galaxy._spline_cache:\n            self.splines = Galaxy._spline_cache[key]\n            return\n'),
      ("forcepho/sources.py", '        self.rh_range = (r.min(), r.max())\n        self.sersic_range = (n.min(), n.max())\n\n    @property\n    def covariances(self):\n        """This just constructs a set of covariance matrices based on the fixed\n        radii used in approximating the galaxies.\n',
       '        Galaxy._spline_cache[key] = self.splines\n\n    _spline_cache = {}\n\n    @property\n    def covariances(self):\n        """This just constructs a set of covariance matrices based on the fixed\n        radii used in approximating the galaxies.\n')],
     "two spline tables on the same grid in use in one process",
     "galaxies of the second table get the amplitudes of the first",
     '''
from mini import *
from forcepho.sources import Galaxy
import shutil
a = SPLINE; b = os.path.join(TMP, "other.h5"); shutil.copy(a, b)
with h5py.File(b, "r+") as f: f["amplitudes"][...] = 2 * f["amplitudes"][...]
out = []
for t in (a, b):
    g = Galaxy(filters=["F090W"], splinedata=t); g.sersic, g.rhalf = 2.2, 0.13
    out.append(np.array(g.amplitudes))
if not np.allclose(out[1], 2 * out[0], rtol=1e-5, atol=1e-7): fail("amplitudes of the second table %s, expected %s" % (out[1], 2 * out[0]))
''')

seed("slow-second-order", "P24",
     ("forcepho/slow/gaussmodel.py", "        H = 1 + (vx*vx + vy*vy - g.fxx - g.fyy) / 24.\n", "        H = 1 + (vx*vx + vy*vy - 2 * np.sqrt(g.fxx * g.fyy)) / 24.\n"),
     "a gaussian that is elongated along a pixel axis and only a pixel or so wide",
     "the pixel-integration correction of the slow images is wrong",
     '''
from mini import *
from forcepho.slow.gaussmodel import compute_gaussian, ImageGaussian
g = ImageGaussian(); g.amp = 1.0; g.xcen = g.ycen = 0.0; g.fxx, g.fyy, g.fxy = 1.0, 0.1, 0.0
x = np.arange(-20, 21.0); X, Y = np.meshgrid(x, x)
im = compute_gaussian(g, X.ravel(), Y.ravel(), second_order=True, compute_deriv=False)
im = np.asarray(im[0] if isinstance(im, tuple) else im).ravel()
from math import erf, sqrt
tot = im.sum() * sqrt(0.1) / (2 * np.pi)
if abs(tot - 1) > 5e-3: fail("total of the pixels %s, expected 1" % tot)
''')

seed("pop-order", "P26",
     ("forcepho/dispatcher.py", "        for i in sorted(indices, reverse=True):\n", "        for i in list(indices)[::-1]:\n"),
     "several results completed at once and reported in an order other than that of submission",
     "the wrong workers become idle, or an index error is raised",
     '''
from mini import *
import forcepho.dispatcher as D
class Status: source = 1
class Req:
    order = None
    @staticmethod
    def waitall(h, s): return [x for x in h]
    @staticmethod
    def waitsome(h, s=None): return Req.testsome(h, s)
    @staticmethod
    def testsome(h, s=None): return Req.order, [h[i] for i in Req.order]
class MPI: ANY_TAG = -1; Status = Status; Request = Req
class Comm:
    def send(self, t, dest, tag): pass
    def irecv(self, n, source, tag): return "result of %d" % source
D.MPI = MPI
import logging; D.logger = logging.getLogger('demo')
q = D.MPIQueue(Comm(), 4)
for i in range(4): q.submit(i, tag=i)
Req.order = [2, 0, 3]
q.collect(blocking=True)
if sorted(q.busy) != [2] or sorted(q.idle) != [1, 3, 4]: fail("busy %s idle %s" % (q.busy, q.idle))
''')

seed("leak", "P27",
     (KE, "    free(imageGauss);\n\n    // Fill the response", "    if (pchi2 != 0) free(imageGauss);\n\n    // Fill the response"),
     "evaluations whose chi-square is exactly zero (all pixels masked or no pixels in the band), repeated many times",
     "memory grows with every evaluation",
     MODEL + '''
import resource
u = np.full((8, 8), np.inf)
f = image("a.fits", 8, 8, "F090W", unc=u, data=np.zeros((8, 8)))
p, model, q = build([f], ["F090W"], [(0.01 * i, 0, .8, .1, 2, .12, 10.0) for i in range(20)])
model.sampling = False
z = model.transform.inverse_transform(q)
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4
prop = p.get_proposer() if hasattr(p, "get_proposer") else model.proposer
sc = model.scene.get_proposal()
for i in range(200): model.proposer.evaluate_proposal(sc, patch=p)
a = rss()
for i in range(3000): model.proposer.evaluate_proposal(sc, patch=p)
b = rss()
if b - a > 20000: fail("memory grew by %d kB" % (b - a))
''')

seed("relog", "P28",
     ("forcepho/superscene.py", "            self.patchlog.append(pid)\n", "            if pid not in self.patchlog[-1:]:\n                self.patchlog.append(pid)\n"),
     "the same task reporting twice in a row (for instance after a restart with the same numbering)",
     "the log of patches is missing an entry",
     '''
from mini import *
import json
from forcepho.superscene import SuperScene, sourcecat_dtype
c = np.zeros(4, dtype=sourcecat_dtype(bands=["F090W"]))
c["ra"] = RA0 + np.arange(4) * 30 / 3600; c["dec"] = DEC0; c["rhalf"] = 0.1; c["q"] = 0.8; c["sersic"] = 2; c["F090W"] = 10
s = SuperScene(c, bands=["F090W"], statefile=os.path.join(TMP, "s.fits"), boundary_radius=8, maxradius=6)
for t in (0, 1, 1, 2):
    reg, a, f = s.checkout_region(seed_index=t)
    s.checkin_region(a, f, niter=3, taskID=t)
s.writeout()
log = json.load(open(os.path.join(TMP, "s_log.json")))
if log["patchlog"] != ["0", "1", "1", "2"]: fail("patch log %s" % log["patchlog"])
''')

seed("prior-range", "P29",
     ("forcepho/priors.py", "        return (q - self.min) / self.range\n", "        return (q - self.min) / np.max(self.range)\n"),
     "parameters with ranges of different width",
     "the prior of the narrower parameters is evaluated at the wrong place",
     '''
from mini import *
from forcepho.priors import ExpBeta
p = ExpBeta(np.array([0.0, 0.0]), np.array([1.0, 10.0]))
a = p(np.array([0.5, 5.0]))[0]; b = 2 * ExpBeta(np.array([0.0]), np.array([1.0]))(np.array([0.5]))[0]
if abs(a - b) > 1e-9: fail("%s %s" % (a, b))
''')

seed("pctile-sorted", "P30",
     ("forcepho/utils/catalog.py", "            pct = np.percentile(cat[col], q=percentiles, axis=-1)\n", "            pct = np.percentile(cat[col], q=np.unique(percentiles), axis=-1)\n"),
     "percentiles requested in another order than increasing",
     "the columns are not those of the requested percentiles",
     '''
from mini import *
from forcepho.utils.catalog import pctile_cat
c = np.zeros(2, dtype=[("id", int), ("F090W", float, 101)]); c["F090W"] = np.arange(101) + np.array([[0], [1000]])
e, h = pctile_cat(c, percentiles=[50, 16, 84])
if not np.allclose(e["F090W"], [[50, 16, 84], [1050, 1016, 1084]]): fail("%s" % e["F090W"])
''')

seed("best-likelihood", "P31",
     ("forcepho/mixtures/psf_mix_em.py", "        min_index = np.argmin(error_residuals)\n", "        min_index = int(np.argmin(error_residuals) > 0)\n"),
     "three or more repeats whose best one is neither of the first two",
     "the answer returned is not the one with the smallest residual",
     '''
from mini import *
from forcepho.mixtures.psf_mix_em import fit_mvn_mix
y, x = np.mgrid[:17, :17]
im = sum(a * np.exp(-0.5 * ((x - cx) ** 2 + (y - cy) ** 2) / s) for a, cx, cy, s in ((1, 5, 5, 2), (.7, 11, 6, 3), (.5, 8, 12, 1.5), (.4, 3, 12, 2)))
im /= im.sum()
for k in range(12):
    kw = dict(method_opt="em", method_init="random", repeat=5)
    np.random.seed(k); full = fit_mvn_mix(im, 2, returnfull=True, **kw)
    np.random.seed(k); best = fit_mvn_mix(im, 2, returnfull=False, **kw)
    if best["error_residual"] > min(r["error_residual"] for r in full) * (1 + 1e-9): fail("residual %s, best %s" % (best["error_residual"], min(r["error_residual"] for r in full)))
''')

seed("mixed-stride", "P06",
     ("forcepho/sources.py", "            start += source.n_params\n", "            start += self.active_sources[0].n_params\n"),
     "a scene whose sources have different numbers of parameters (a star and a galaxy, or different bands)",
     "sources after the first of another kind receive values that belong to their neighbours",
     '''
from mini import *
from forcepho.sources import Scene, Star, Galaxy
a = Star(filters=["F090W"]); b = Galaxy(filters=["F090W"], splinedata=SPLINE); c = Star(filters=["F090W"])
s = Scene(sources=[a, b, c])
v = np.array([1, 2, 3, 10, 11, 12, .5, .6, 2, .1, 21, 22, 23.0])
s.set_all_source_params(v)
if not np.array_equal(s.get_all_source_params(), v): fail("read back %s" % s.get_all_source_params())
''')
