seed("pad-coords", "P18",
     ("forcepho/patches/pixel_patch.py", "            xp = np.append(xp, np.zeros(pad, dtype=xp.dtype)-1)\n            yp = np.append(yp, np.zeros(pad, dtype=yp.dtype)-1)",
      "            xp = np.append(xp, np.zeros(pad, dtype=xp.dtype) + xp[-1:].sum())\n            yp = np.append(yp, np.zeros(pad, dtype=yp.dtype) + yp[-1:].sum())"),
     "a number of in-region pixels that is not a multiple of the warp size, and residuals written out and put back into images",
     "padding pixels repeat a real pixel's coordinates, so filling images from a patch overwrites that pixel with padding values",
     '''
import numpy as np
from mini import *
from forcepho.postprocess import Residuals
from forcepho.utils.io import write_residuals
d = np.arange(1, 1 + 7 * 9).reshape(7, 9).astype(float)
f = image("a.fits", 7, 9, "F090W", data=d)
p = patcher([f], ["F090W"])
n = 63
fl, xx, yy = p.data[p.ierr > 0], p.xpix, p.ypix
keep = p.xpix >= 0
if keep.sum() != n: fail("%d pixels carry image coordinates, the image has %d" % (keep.sum(), n))
im = np.zeros((7, 9)); im[p.xpix[keep].astype(int), p.ypix[keep].astype(int)] = p.data[keep]
if not np.array_equal(im, d): fail("image not recovered")
''')

seed("find-exp-swap", "P11",
     ("forcepho/patches/storage.py", '                imsize = hdr["NAXIS1"], hdr["NAXIS2"]\n                bbox =', '                imsize = hdr["NAXIS2"], hdr["NAXIS1"]\n                bbox ='),
     "an exposure whose image is not square, and a position near its long end",
     "MetaStore.find_exposures misses exposures covering the position (and reports ones that do not)",
     '''
from mini import *
from argparse import Namespace
from forcepho.patches.storage import MetaStore
from astropy.wcs import WCS
h = header(60, 20, "F090W"); h["NAXIS"] = 2; h["NAXIS1"] = 60; h["NAXIS2"] = 20
m = MetaStore(); m.add_exposure(Namespace(hdr=h, band="F090W", expID="e1"))
for x, y, want in ((5, 10, 1), (55, 10, 1), (30, 40, 0), (10, 45, 0)):
    ra, dec = WCS(h).pixel_to_world_values(x, y)
    e, b = m.find_exposures((float(ra), float(dec)), ["F090W"])
    if len(e) != want: fail("position at pixel %s, %s: %s" % (x, y, e))
''')


seed("bounds-sorted", "P12",
     ("forcepho/superscene.py", "            self.bounds_catalog[active_inds] = new_bounds[:]", "            self.bounds_catalog[np.sort(active_inds)] = new_bounds[:]"),
     "a patch whose active sources are not in catalog order, checked in with new bounds",
     "the bounds of a source are replaced by those of another source of the same patch",
     '''
from mini import *
from forcepho.superscene import SuperScene, sourcecat_dtype
c = np.zeros(4, dtype=sourcecat_dtype(bands=["F090W"]))
c["ra"] = RA0 + np.array([0, 1, 2, 3]) / 3600; c["dec"] = DEC0; c["rhalf"] = 0.1; c["q"] = 0.8; c["sersic"] = 2; c["F090W"] = 10
s = SuperScene(c, bands=["F090W"], statefile=os.path.join(TMP, "s.fits"), boundary_radius=8, maxradius=6, maxactive_per_patch=3)
reg, act, fix = s.checkout_region(seed_index=3)
idx = act["source_index"].astype(int)
nb = s.bounds_catalog[idx].copy()
for i, k in enumerate(idx): nb["F090W"][i] = (-k - 1.0, 100.0 + k)
s.checkin_region(act, fix, niter=1, new_bounds=nb)
for k in idx:
    if tuple(s.bounds_catalog["F090W"][k]) != (-k - 1.0, 100.0 + k): fail("bounds of source %d are %s" % (k, s.bounds_catalog["F090W"][k]))
''')

seed("overlap-reach", "P13",
     ("forcepho/superscene.py", "        kinds = self.kdt.query_ball_point(center, radius + self.boundary_radius)", "        kinds = self.kdt.query_ball_point(center, radius + self.maxradius)"),
     "a source with a radius of influence between the patch radius and the boundary radius, at a distance that only that radius bridges",
     "large neighbours are not linked: groups are split and overlapping sources are left out of the scene",
     '''
from mini import *
from forcepho.superscene import LinkedSuperScene, sourcecat_dtype
c = np.zeros(3, dtype=sourcecat_dtype(bands=["F090W"]))
c["ra"] = RA0; c["dec"] = DEC0 + np.array([0, 5.0, 300.0]) / 3600; c["rhalf"] = 0.1; c["q"] = 0.8; c["sersic"] = 2; c["F090W"] = 10
s = LinkedSuperScene(c, bands=["F090W"], statefile=os.path.join(TMP, "s.fits"), boundary_radius=8.0, maxradius=2.0, roi=np.array([0.3, 5.0, 0.3]))
a, b = sorted(s.grow_source(0)), sorted(s.grow_source(1))
if a != [0, 1] or b != [0, 1]: fail("groups %s %s" % (a, b))
''')

seed("sigma-floor-sign", "P15",
     ("forcepho/superscene.py", "            sigma_flux = np.maximum(sigma_flux, np.abs(0.05 * active[b]))", "            sigma_flux = np.maximum(np.abs(sigma_flux), 0.05 * active[b])"),
     "a source with negative flux and a small tabulated uncertainty",
     "the 5% floor on the flux uncertainty does not apply to negative fluxes, so their bounds collapse onto the value",
     '''
from mini import *
from forcepho.superscene import make_bounds
c = cat([(0, 0, .8, .1, 2, .1, -40.0), (1, 1, .8, .1, 2, .1, 40.0)], ["F090W"])
u = c.copy(); u["F090W"] = 0.0
b = make_bounds(c, ["F090W"], unccat=u)["F090W"]
for i in (0, 1):
    w = b[i, 1] - b[i, 0]
    if abs(w - 2 * 5 * 0.05 * 40) > 1e-6: fail("width of the flux bounds of source %d: %s" % (i, w))
''')

seed("chaincat-alias", "P30",
     ("forcepho/utils/chain.py", "        colnames = list(bands)\n", "        colnames = bands\n"),
     "making a chain catalog twice from the same list of bands",
     "make_chaincat appends the shape columns to the caller's list of bands, so later uses see wrong bands",
     '''
from mini import *
from forcepho.utils.chain import make_chaincat
a = np.zeros(2, dtype=[("source_index", int)]); a["source_index"] = [4, 7]
bands = ["F090W", "F150W"]
ch = np.arange(5 * 16.0).reshape(5, 16)
c1 = make_chaincat(ch, bands, a, (1.0, 2.0))
if bands != ["F090W", "F150W"]: fail("the list of bands became %s" % bands)
c2 = make_chaincat(ch, bands, a, (1.0, 2.0))
if not np.array_equal(c1, c2): fail("second catalog differs")
''')

seed("sigmoid-underflow", "P05",
     ("forcepho/model.py", "    return (0.5 / np.cosh(0.5*z))**2\n", "    s = sigmoid(z)\n    return s * (1 - s)\n"),
     "a sampling position beyond about z = 37, where 1 - sigmoid(z) rounds to zero",
     "the Jacobian is zero and the log-determinant minus infinity for parameters near their upper bound",
     '''
from mini import *
from forcepho.model import BoundedTransform
t = BoundedTransform(np.array([-1.0, 0.0]), np.array([3.0, 2.0]))
for z in (-45.0, -20.0, 20.0, 34.0, 45.0):
    v = t.lndetjac(np.array([z, -z]))
    want = np.log(4.0) + np.log(2.0) - 2 * (abs(z) + 2 * np.log1p(np.exp(-abs(z))))
    if not abs(v - want) < 1e-3 * abs(want): fail("lndetjac at %s is %s, expected %s" % (z, v, want))
''')

seed("cache-close", "P04",
     ("forcepho/model.py", '            parameter position `z`\n        """\n        if np.any(z != self._z):', '            parameter position `z`\n        """\n        if not np.allclose(z, self._z):'),
     "a gradient requested at a position within 1e-5 (relative) of the last one evaluated",
     "lnprob_grad returns the gradient of a nearby earlier position",
     '''
from mini import *
from forcepho.model import FastPosterior, Transform
from forcepho.proposal import CPUProposer
from forcepho.superscene import bounds_vectors, make_bounds
f = image("a.fits", 24, 24, "F090W", seed=3)
p = patcher([f], ["F090W"])
c = cat([(0, 0, .8, .1, 2, .12, 500.0)], ["F090W"])
model, q = p.prepare_model(active=c, bounds=make_bounds(c, ["F090W"]))[:2]
z = model.transform.inverse_transform(q) if hasattr(model.transform, "inverse_transform") else q
z = z + 1.0
z2 = z * (1 + 4e-6)
g1 = np.array(model.lnprob_grad(z)); g2 = np.array(model.lnprob_grad(z2))
fresh, q = p.prepare_model(active=c, bounds=make_bounds(c, ["F090W"]))[:2]
w = np.array(fresh.lnprob_grad(z2))
if not np.array_equal(g2, w): fail("gradient at a slightly moved position is that of the previous one")
''')

seed("skip-masked", "P01",
     ("forcepho/src/compute_gaussians_kernel.cc", "            PixFloat residual = ComputeResidualImage(xp, yp, data, imageGauss, n_gauss_total);\n",
      "            if (ierr <= 0) continue;  // no weight, nothing to add\n            PixFloat residual = ComputeResidualImage(xp, yp, data, imageGauss, n_gauss_total);\n"),
     "residuals (or a rendered model) requested for pixels without weight",
     "residuals of masked pixels are left over from earlier evaluations instead of data minus model",
     '''
from mini import *
from forcepho.superscene import make_bounds
u = np.ones((24, 24)); u[10:14, 10:14] = np.inf
f = image("a.fits", 24, 24, "F090W", unc=u, data=np.zeros((24, 24)))
p = patcher([f], ["F090W"])
c = cat([(0, 0, .8, .1, 2, .12, 500.0)], ["F090W"])
model, q = p.prepare_model(active=c, bounds=make_bounds(c, ["F090W"]))[:2]
r1 = np.concatenate(model.residuals(q)); 
q2 = q.copy(); q2[0] *= 2
r2 = np.concatenate(model.residuals(q2))
real = p.xpix >= 0
bad = np.abs(r2[real] - 2 * r1[real]) > 1e-3 * np.abs(r1).max()
mask = real & (p.ierr == 0)
if bad.any() or np.abs(r1[mask]).min() == 0: fail("%d residuals do not follow the model" % bad.sum())
''')
