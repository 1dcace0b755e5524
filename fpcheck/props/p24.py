"""P24: the pure-Python (slow) renderer, likelihood, stamps and PSFs."""
import os
import pickle
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["conformal shear galaxies are not exactly circular: the (q, pa) -> (eta_+, eta_x) jacobian is singular there",
               "fixed sources of a scene have coverage 1 (or less) on every stamp",
               "the slow likelihood has one PSF per stamp; the compiled one is compared with one PSF for all radii"]

BANDS = ["F1", "F2", "F3"]
H = 1e-30


# ---------------------------------------------------------------- generators

def psf_st():
    return st.fixed_dictionaries(dict(g=st.lists(L.psfgauss_st(), min_size=1, max_size=3), units=st.sampled_from(["pixels", "pixels", "arcsec"]),
                                      names=st.sampled_from(["cen", "cr"])))


def stamp_st():
    return st.fixed_dictionaries(dict(nx=st.integers(3, 14), ny=st.integers(3, 14), band=st.integers(0, 2), scale=st.sampled_from([0.03, 0.06, 0.1]),
                                      rot=L.rnd(-180, 180, 2), parity=st.sampled_from([-1, 1]), aspect=L.rnd(0.8, 1.25, 3), shear=L.rnd(-0.15, 0.15, 3),
                                      ra=L.rnd(1, 359, 4), dec=L.rnd(-70, 70, 4), fx=L.rnd(0.2, 0.8), fy=L.rnd(0.2, 0.8),
                                      G=st.sampled_from([1.0, 1.0, 0.37, 12.5]), psf=psf_st(), seed=st.integers(0, 9999),
                                      mask=L.rnd(0, 0.4, 2)))


KINDS = ["star", "simple", "galaxy", "galaxy", "fixedsersic", "shear", "shear"]


def src_st():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), dx=L.rnd(-3, 3), dy=L.rnd(-3, 3), q=L.rnd(0.3, 0.99, 3), pa=L.rnd(-1.7, 1.7, 3),
                                      sersic=st.one_of(L.rnd(0.9, 6, 3), L.rnd(0.9, 6, 3), st.just(0.3)), rhalf=L.rnd(0.02, 0.6, 3),
                                      flux=st.lists(st.one_of(L.rnd(-5, 80, 2), L.rnd(0.1, 80, 2), st.just(0.0)), min_size=3, max_size=3),
                                      radii=st.lists(L.rnd(0.02, 0.5, 3), min_size=1, max_size=3), fixed=st.booleans(),
                                      cover=st.lists(st.sampled_from([2, 2, 2, 1, 0, -1]), min_size=3, max_size=3)))


# ---------------------------------------------------------------- real objects

class Case:
    def __init__(self, d, nrad=3, seed=5):
        self.sp = dict(spline=dict(seed=seed, nrad=nrad), nrad=nrad)
        self.path = os.path.join(d, "spl.h5")
        L.write_spline(self.sp, self.path)
        self.amps = L.amps_for(self.sp)


def matrices(s):
    th = np.deg2rad(s["rot"])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    D = R @ np.array([[s["parity"] / s["scale"], s["shear"] / s["scale"]], [0, s["aspect"] / s["scale"]]])
    CW = D @ np.diag([np.cos(np.deg2rad(s["dec"])), 1.0]) * 3600.0
    return D, CW


def psf_params(p):
    nm = ("xcen", "ycen") if p["names"] == "cen" else ("xcr", "ycr")
    u = 0.05 if p["units"] == "arcsec" else 1.0
    tab = np.zeros(len(p["g"]), dtype=[(c, np.float64) for c in ("amp",) + nm + ("Cxx", "Cyy", "Cxy")])
    for k, (a, x, y, sx, sy, rho) in enumerate(p["g"]):
        tab[k] = (a, x * u, y * u, (sx * u) ** 2, (sy * u) ** 2, rho * sx * sy * u * u)
    return tab


def make_stamp(s, sources=None):
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.stamp import PostageStamp

    class Stamp(PostageStamp):
        def coverage(self, source):
            return self.cover[source.id] if getattr(self, "cover", None) is not None else 2
    t = Stamp(nx=s["nx"], ny=s["ny"], filtername=BANDS[s["band"]])
    t.scale, t.dpix_dsky = matrices(s)
    t.crval = np.array([s["ra"], s["dec"]])
    t.crpix = np.array([s["fx"] * s["nx"], s["fy"] * s["ny"]])
    t.photocounts = s["G"]
    t.psf = PointSpreadFunction(psf_params(s["psf"]), units=s["psf"]["units"])
    rs = np.random.RandomState(s["seed"])
    t.pixel_values = rs.normal(0, 3, (s["nx"], s["ny"]))
    ierr = rs.uniform(0.2, 2, s["nx"] * s["ny"])
    ierr[rs.rand(len(ierr)) < s["mask"]] = 0.0
    t.ierr = ierr
    return t


def sky_of(s, stamp):
    """Sky position dx, dy pixels from the middle of a stamp."""
    D, CW = matrices(stamp)
    pix = np.array([(stamp["nx"] - 1) / 2.0 + s["dx"], (stamp["ny"] - 1) / 2.0 + s["dy"]])
    crpix = np.array([stamp["fx"] * stamp["nx"], stamp["fy"] * stamp["ny"]])
    return np.linalg.solve(CW, pix - crpix) + np.array([stamp["ra"], stamp["dec"]])


def make_source(s, sky, c, bands):
    from forcepho import sources as F
    k = s["kind"]
    if k == "star":
        o = F.Star(filters=list(bands))
        vec = list(s["flux"][:len(bands)]) + [sky[0], sky[1]]
    elif k == "simple":
        o = F.SimpleGalaxy(filters=list(bands), radii=np.array(s["radii"]))
        vec = list(s["flux"][:len(bands)]) + [sky[0], sky[1], s["q"], s["pa"]]
    elif k in ("galaxy", "fixedsersic"):
        o = F.Galaxy(filters=list(bands), splinedata=c.path, free_sersic=(k == "galaxy"))
        o.sersic, o.rhalf = s["sersic"], s["rhalf"]
        vec = list(s["flux"][:len(bands)]) + [sky[0], sky[1], s["q"], s["pa"]] + ([s["sersic"], s["rhalf"]] if k == "galaxy" else [])
    else:
        o = F.ConformalShearGalaxy(filters=list(bands), splinedata=c.path)
        eta = -2 * np.log(s["q"])
        vec = list(s["flux"][:len(bands)]) + [sky[0], sky[1], eta * np.cos(2 * s["pa"]), eta * np.sin(2 * s["pa"]), s["sersic"], s["rhalf"]]
    vec = np.array(vec, dtype=float)
    o.set_params(vec)
    check(np.array_equal(o.get_param_vector(), vec), "set_params then get_param_vector: %r became %r", vec, o.get_param_vector())
    check(o.n_params == len(vec), "n_params is %d for %d parameters", o.n_params, len(vec))
    return o, vec


# ---------------------------------------------------------------- reference

def components(s, c):
    """(radii, amplitudes, d/dsersic, d/drhalf)"""
    k = s["kind"]
    if k == "star":
        return np.zeros(1), np.ones(1), np.zeros(1), np.zeros(1)
    if k == "simple":
        n = len(s["radii"])
        return np.array(s["radii"]), np.ones(n) / n, np.zeros(n), np.zeros(n)
    rad = c.amps.radii
    if s["sersic"] < 0.8:
        a = np.zeros(len(rad))
        a[np.argmin(np.abs(s["rhalf"] - rad))] = 1
        return rad, a, 0 * a, 0 * a
    n, r = s["sersic"], s["rhalf"]
    return rad, c.amps(n, r), c.amps(n, r, dn=1), c.amps(n, r, dr=1)


def mixture(pos, M, rad, amps, psf, x, y, second=True):
    """pos: centre in pixels; M = T T^T (pixels per unit radius squared)."""
    tot = 0
    for a, r in zip(amps, rad):
        for (b, px, py, cxx, cyy, cxy) in psf:
            sxx, syy, sxy = r * r * M[0][0] + cxx, r * r * M[1][1] + cyy, r * r * M[0][1] + cxy
            det = sxx * syy - sxy ** 2
            fxx, fyy, fxy = syy / det, sxx / det, -sxy / det
            dx, dy = x - (pos[0] + px), y - (pos[1] + py)
            vx, vy = fxx * dx + fxy * dy, fyy * dy + fxy * dx
            g = np.exp(-0.5 * (dx * vx + dy * vy)) / (2 * np.pi * np.sqrt(det))
            if second:
                g = g * (1 + (vx ** 2 + vy ** 2 - fxx - fyy) / 24.0)
            tot = tot + a * b * g
    return tot


def ref_psf(s):
    D, _ = matrices(s)
    out = []
    for t in psf_params(s["psf"]):
        a, px, py, cxx, cyy, cxy = t
        C = np.array([[cxx, cxy], [cxy, cyy]])
        m = np.array([px, py])
        if s["psf"]["units"] == "arcsec":
            C, m = D @ C @ D.T, D @ m
        out.append((a, m[0], m[1], C[0, 0], C[1, 1], C[0, 1]))
    return out


def ref_model(s, vec, nb, ib, stamp, c, second=True, grad=True):
    """Image and gradients wrt (flux, remaining parameters of the vector)."""
    D, CW = matrices(stamp)
    x, y = np.meshgrid(np.arange(stamp["nx"]), np.arange(stamp["ny"]), indexing="ij")
    x, y = x.ravel().astype(float), y.ravel().astype(float)
    crpix = np.array([stamp["fx"] * stamp["nx"], stamp["fy"] * stamp["ny"]])
    psf = ref_psf(stamp)
    rad, amps, da_n, da_r = components(s, c)
    dsky = vec[nb:nb + 2] - np.array([stamp["ra"], stamp["dec"]])

    def unit(du, shp, a):
        pos = [crpix[0] + CW[0, 0] * du[0] + CW[0, 1] * du[1], crpix[1] + CW[1, 0] * du[0] + CW[1, 1] * du[1]]
        if s["kind"] == "shear":
            ep, ec = shp
            e = np.sqrt(ep ** 2 + ec ** 2)
            # expm of [[ep, ec], [ec, -ep]]
            ch, sh = np.cosh(e), np.sinh(e) / e
            E = [[ch + sh * ep, sh * ec], [sh * ec, ch - sh * ep]]
        elif s["kind"] == "star":
            E = [[1.0, 0.0], [0.0, 1.0]]
        else:
            q, pa = shp
            cc, ss = np.cos(pa), np.sin(pa)
            E = [[cc ** 2 / q ** 2 + ss ** 2 * q ** 2, cc * ss * (1 / q ** 2 - q ** 2)], [cc * ss * (1 / q ** 2 - q ** 2), ss ** 2 / q ** 2 + cc ** 2 * q ** 2]]
        E = np.array(E)
        M = D @ E @ D.T
        return stamp["G"] * mixture(pos, M, rad, a, psf, x, y, second)
    shp = list(vec[nb + 2:nb + 4])
    f = vec[ib]
    u = unit(list(dsky), shp, amps)
    env = np.abs(f) * unit(list(dsky), shp, np.abs(amps))
    if not grad:
        return f * u, env, None
    g = [u]
    npar = len(vec) - nb
    for j in range(min(4, npar)):
        p = [complex(v) for v in list(dsky) + shp]
        p[j] += 1j * H
        g.append(f * np.imag(unit(p[:2], p[2:], amps)) / H)
    if npar == 6:
        g += [f * unit(list(dsky), shp, da_n), f * unit(list(dsky), shp, da_r)]
    return f * u, env, np.array(g)


def near(a, b, what, rtol=1e-7, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    check(np.all(np.isfinite(a)), "%s: not finite", what)
    sc = np.abs(b).max() if scale is None and b.size else (scale or 0)
    err = np.abs(a - b)
    if err.size:
        k = np.unravel_index(np.argmax(err), err.shape)
        check(err[k] <= rtol * sc + 1e-250, "%s: %r, expected %r at %s", what, a[k], b[k], k)


# ---------------------------------------------------------------- single gaussians

def gauss_st():
    return st.fixed_dictionaries(dict(amp=st.one_of(L.rnd(-5, 50, 3), st.just(0.0)), x=L.rnd(-3, 8), y=L.rnd(-3, 8), sx=L.rnd(0.6, 4, 3), sy=L.rnd(0.6, 4, 3),
                                      rho=L.rnd(-0.9, 0.9, 3), second=st.booleans(), det=st.booleans(), seed=st.integers(0, 999), n=st.integers(1, 12)))


def body_gauss(case, info):
    from forcepho.slow import gaussmodel as G
    sx, sy, rho = case["sx"], case["sy"], case["rho"]
    F = np.linalg.inv([[sx ** 2, rho * sx * sy], [rho * sx * sy, sy ** 2]])
    g = G.ImageGaussian()
    p = [case["amp"], case["x"], case["y"], F[0, 0], F[1, 1], F[0, 1]]
    g.amp, g.xcen, g.ycen, g.fxx, g.fyy, g.fxy = p
    rs = np.random.RandomState(case["seed"])
    x, y = rs.randint(-2, 9, case["n"]), rs.randint(-2, 9, case["n"])

    def f(p):
        a, xc, yc, fxx, fyy, fxy = p
        dx, dy = x - xc, y - yc
        v = a * np.exp(-0.5 * (fxx * dx ** 2 + 2 * fxy * dx * dy + fyy * dy ** 2))
        if case["second"]:
            v = v * (1 + ((fxx * dx + fxy * dy) ** 2 + (fxy * dx + fyy * dy) ** 2 - fxx - fyy) / 24)
        if case["det"]:
            v = v * np.sqrt(fxx * fyy - fxy ** 2)
        return v
    kw = dict(second_order=case["second"], use_det=case["det"])
    C, grad = G.compute_gaussian(g, x, y, compute_deriv=True, **kw)
    near(C, f(p), "counts", 1e-10, scale=max(1e-3, abs(case["amp"])))
    C2 = G.compute_gaussian(g, x, y, compute_deriv=False, **kw)
    check(np.array_equal(C, C2), "counts depend on whether derivatives are wanted")
    for j in range(6):
        pc = [complex(v) for v in p]
        pc[j] += 1j * H
        want = np.imag(f(pc)) / H
        near(grad[j], want, "d counts / d %s" % ["amp", "xcen", "ycen", "fxx", "fyy", "fxy"][j], 1e-8, scale=max(np.abs(want).max(), 1e-3))
    info.label("second" if case["second"] else "first", "det" if case["det"] else "nodet", "zero" if case["amp"] == 0 else "nonzero")


# ---------------------------------------------------------------- rendering

def body_render(case, info):
    with tempfile.TemporaryDirectory(dir=".") as d:
        c = Case(d, nrad=case["nrad"], seed=case["spl"])
        s, stp = case["src"], case["stamp"]
        bands = [b for b in BANDS if b != "F2"] if case["twob"] else list(BANDS)
        if case["twob"] and stp["band"] == 1:
            stp = dict(stp, band=2)
        if case["one"]:
            bands = [BANDS[stp["band"]]]
        if case["rev"]:
            bands = bands[::-1]
        ib, nb = bands.index(BANDS[stp["band"]]), len(bands)
        t = make_stamp(stp)
        src, vec = make_source(s, sky_of(s, stp), c, bands)
        second = case["second"]
        im, env, grad = ref_model(s, vec, nb, ib, stp, c, second=second)
        got, ggrad = src.render(t, compute_deriv=True, second_order=second)
        sc = max(np.abs(env).max(), 1e-12)
        near(got, im, "%s image" % s["kind"], 1e-7, scale=sc)
        check(ggrad.shape == grad.shape, "%s: %s gradients, expected %s", s["kind"], ggrad.shape, grad.shape)
        names = ["flux"] + ["ra", "dec"] + (["eta_+", "eta_x"] if s["kind"] == "shear" else ["q", "pa"]) + ["sersic", "rhalf"]
        # component-wise scale of the derivatives: unit image times what a component can change by
        for j in range(len(grad)):
            m = max(np.abs(grad[j]).max(), 1e-6 * sc, 1e-12 if j else 1e-300)
            near(ggrad[j], grad[j], "%s: d image / d %s" % (s["kind"], names[j]), 2e-6, scale=m)
        i2, none = t.render(src, compute_deriv=False, second_order=second)
        check(none is None and np.array_equal(i2, got), "%s: the image depends on whether gradients are wanted", s["kind"])
        check(np.array_equal(src.get_param_vector(), vec), "rendering changed the source")
        # as one of a scene, by way of metadata on the source
        meta(src, [t], [ib])
        from forcepho.slow.gaussmodel import compute_gig, convert_to_gaussians
        gig = convert_to_gaussians(src, 0, compute_deriv=True)
        i3, g3 = compute_gig(gig, t.xpix.reshape(-1), t.ypix.reshape(-1), second_order=second)
        near(i3, got, "image from source metadata", 1e-12, scale=sc)
        near(g3[src.use_gradients], ggrad, "gradients from source metadata", 1e-10, scale=max(np.abs(ggrad).max(), 1e-300))
    info.label(s["kind"], stp["psf"]["units"], "G" if stp["G"] != 1 else "G1", "zero" if vec[ib] == 0 else "nonzero", "nb%d" % nb)
    info.trivial_if(np.abs(im).max() < 1e-10)


def meta(src, stamps, ibs):
    src.stamp_scales = [t.scale for t in stamps]
    src.stamp_psfs = [[t.psf] for t in stamps]
    src.stamp_cds = [t.dpix_dsky for t in stamps]
    src.stamp_crpixs = [t.crpix for t in stamps]
    src.stamp_crvals = [t.crval for t in stamps]
    src.stamp_zps = [t.photocounts for t in stamps]
    src.stamp_filterindex = list(ibs)


def render_st():
    return st.fixed_dictionaries(dict(src=src_st(), stamp=stamp_st(), twob=st.booleans(), one=st.booleans(), rev=st.booleans(), second=st.sampled_from([True, True, False]),
                                      nrad=st.integers(1, 5), spl=st.integers(0, 99)))


# ---------------------------------------------------------------- likelihoods

def like_st():
    return st.fixed_dictionaries(dict(srcs=st.lists(src_st(), min_size=1, max_size=4), stamps=st.lists(stamp_st(), min_size=1, max_size=3),
                                      rev=st.booleans(), spl=st.integers(0, 99), order=st.permutations(["slow", "fast", "meta", "fastmeta"]).map(list), repeat=st.booleans(),
                                      second=st.sampled_from([True, True, True, False]), prior=st.booleans(), tr=st.booleans(), move=L.rnd(0.9, 1.1, 3)))


def body_like(case, info):
    from forcepho.slow.likelihood import FastWorkPlan, WorkPlan, lnlike_multi, make_image, negative_lnlike_multi
    from forcepho.sources import Scene
    with tempfile.TemporaryDirectory(dir=".") as d:
        c = Case(d, seed=case["spl"])
        bands = BANDS[::-1] if case["rev"] else list(BANDS)
        stamps = [dict(s) for s in case["stamps"]]
        # one common field
        for s in stamps[1:]:
            s["ra"], s["dec"] = stamps[0]["ra"] + 1e-5, stamps[0]["dec"] - 2e-5
        real = [make_stamp(s) for s in stamps]
        objs, vecs = [], []
        for s in case["srcs"]:
            o, v = make_source(s, sky_of(s, stamps[0]), c, bands)
            o.fixed = s["fixed"]
            objs.append(o)
            vecs.append(v)
        scene = Scene(sources=objs)
        nb = len(bands)
        cover = [[min(s["cover"][k], 1) if s["fixed"] else s["cover"][k] for s in case["srcs"]] for k in range(len(stamps))]
        for t, cv in zip(real, cover):
            t.cover = cv
        for o in objs:
            meta(o, real, [bands.index(t.filtername) for t in real])
        act = [i for i, s in enumerate(case["srcs"]) if not s["fixed"]]
        starts, k = {}, 0
        for i in act:
            starts[i] = k
            k += len(vecs[i])
        if not act:
            info.label("noactive")
            return
        # the parameters differ from those the scene holds
        for i in act:
            vecs[i] = vecs[i].copy()
            vecs[i][:nb] *= case["move"]
            vecs[i][nb:nb + 2] += (case["move"] - 1) * 1e-4
        theta = np.concatenate([vecs[i] for i in act])
        # reference
        lnp, g, ims, gabs = 0.0, np.zeros(len(theta)), [], np.zeros(len(theta))
        for t, s, cv in zip(real, stamps, cover):
            tot = np.zeros(t.npix)
            ders = {}
            ib = bands.index(t.filtername)
            for i, src in enumerate(case["srcs"]):
                if cv[i] <= 0:
                    continue
                im, env, gr = ref_model(src, vecs[i], nb, ib, s, c, second=case["second"], grad=cv[i] > 1)
                tot = tot + im
                if cv[i] > 1:
                    ders[i] = gr
            chi = (t.pixel_values.ravel() - tot) * t.ierr
            lnp += -0.5 * np.sum(chi ** 2)
            for i, gr in ders.items():
                ix = [starts[i] + ib] + list(range(starts[i] + nb, starts[i] + len(vecs[i])))
                g[ix] += gr @ (chi * t.ierr)
                gabs[ix] += np.abs(gr) @ np.abs(chi * t.ierr)
                want = scene.param_indices(i, t.filtername)
                check(list(want) == ix, "param_indices of source %d in %s: %s, expected %s", i, t.filtername, want, ix)
            ims.append((tot, ders))
        for i in act:
            want = list(range(starts[i], starts[i] + len(vecs[i])))
            check(list(scene.param_indices(i)) == want, "param_indices of all of source %d: %s, expected %s", i, scene.param_indices(i), want)
        seq = case["order"] + (case["order"] if case["repeat"] else [])
        for how in seq:
            plans = [(FastWorkPlan if how.startswith("fast") else WorkPlan)(t) for t in real]
            if not case["second"]:
                for p in plans:
                    p.compute_keywords = dict(second_order=False)
            a, b = lnlike_multi(theta.copy(), scene, plans, source_meta=how.endswith("meta"))
            near(a, lnp, "%s likelihood" % how, 1e-9, scale=max(abs(lnp), 1e-6))
            for j in range(len(theta)):
                check(np.isfinite(b[j]) and abs(b[j] - g[j]) <= 1e-6 * gabs[j] + 1e-12, "%s: d lnlike / d theta[%d] is %r, expected %r", how, j, b[j], g[j])
            a1 = lnlike_multi(theta.copy(), scene, plans, grad=False, source_meta=how.endswith("meta"))
            check(a1 == a, "%s: likelihood %r without gradients, %r with", how, a1, a)
            if not how.endswith("meta"):
                na, nbg = negative_lnlike_multi(theta.copy(), scene=scene, plans=plans)
                check(na == -a and np.array_equal(nbg, -b), "the negative likelihood is not minus the likelihood")
            check(WorkPlan.compute_keywords == {} and FastWorkPlan.compute_keywords == {}, "options shared by all plans were changed: %s", WorkPlan.compute_keywords)
        for t, (tot, ders) in zip(real, ims):
            im, gr = make_image(scene, t, Theta=theta, compute_kwargs=dict(second_order=case["second"]))
            near(im, tot.reshape(t.nx, t.ny), "make_image", 1e-8, scale=max(np.abs(tot).max(), 1e-9))
            want = np.concatenate([ders[i] for i in sorted(ders)]) if ders else np.zeros((0, t.npix))
            check(gr.shape == want.shape, "make_image: %s gradients, expected %s", gr.shape, want.shape)
        if case["second"]:
            posterior(case, scene, real, theta, lnp, g, gabs, ims)
    n1 = sum(cv.count(1) for cv in cover)
    info.label("nact%d" % len(act), "nstamp%d" % len(stamps), "fixed" if n1 else "nofixed", "off" if any(x <= 0 for cv in cover for x in cv) else "all-on",
               "fixed-first" if any(s["fixed"] for s in case["srcs"][:act[-1]]) else "active-first")
    info.trivial_if(all(x <= 1 for cv in cover for x in cv))


def posterior(case, scene, real, theta, lnp, g, gabs, ims):
    from forcepho.model import BoundedTransform, SlowPosterior

    def prior(q):
        return -0.5 * np.sum((q - theta - 0.1) ** 2), -(q - theta - 0.1)
    tr = None
    lo, hi = theta - 1.0 - np.abs(theta) * 0.1, theta + 2.0 + np.abs(theta) * 0.1
    if case["tr"]:
        tr = BoundedTransform(lo, hi)
    m = SlowPosterior(scene=scene, stamps=real, lnprior=prior if case["prior"] else None, transform=tr)
    z = tr.inverse_transform(theta) if tr is not None else theta.copy()
    lp, gp = (prior(theta) if case["prior"] else (0.0, 0.0))
    want, wg = lnp + lp, g + gp
    sc = gabs + np.abs(gp) + 1e-9
    if tr is not None:
        u = (theta - lo) / (hi - lo)
        jac = (hi - lo) * u * (1 - u)
        want = want + np.sum(np.log(jac))
        wg = wg * jac + (1 - 2 * u)
        sc = sc * jac + 1
    # the positions of sources are sensitive: theta -> z -> theta rounds
    eps = 1e-6 if tr is None else 1e-4
    a, b = m.lnprob(z), m.lnprob_grad(z)
    check(abs(a - want) <= eps * (1e-3 * abs(want) + np.sum(gabs * 1e-9) + 1) + 1e-9 * abs(want), "slow posterior: %r, expected %r", a, want)
    if tr is None:
        check(np.all(np.abs(b - wg) <= 1e-6 * sc), "slow posterior gradient: %r, expected %r", b, wg)
        if case["prior"]:
            # the scene is elsewhere
            scene.set_all_source_params(theta * 1.003)
            res = m.residuals(theta)
        else:
            res = m.residuals()
        for r, t, (tot, _) in zip(res, real, ims):
            near(r, t.pixel_values - tot.reshape(t.nx, t.ny), "slow posterior residuals", 1e-8, scale=np.abs(tot).max() + 1)
    n, ng = m.nll(z)
    check(n == -a and np.array_equal(ng, -b), "nll is not minus the log-probability")
    check(m.ncall == 1, "%d evaluations at one position", m.ncall)
    # the same array moved in place, and back, is another position each time
    keep, z1 = np.array(b), z.copy()
    m = SlowPosterior(scene=scene, stamps=real, lnprior=prior if case["prior"] else None, transform=tr)
    a1 = m.lnprob(z1)
    step = 0.01 * (1 + np.abs(z1)) if tr is not None else 1e-3 * (1 + np.abs(z1))
    z1[-1] -= step[-1]
    z1[0] += step[0]
    a2, b2 = m.lnprob_and_grad(z1)
    fresh = SlowPosterior(scene=scene, stamps=real, lnprior=prior if case["prior"] else None, transform=tr)
    a3, b3 = fresh.lnprob_and_grad(z1.copy())
    check(abs(a1 - a) <= 1e-9 * (abs(a) + 1) and abs(a2 - a3) <= 1e-9 * (abs(a3) + 1) and np.allclose(b2, b3, rtol=1e-9, atol=1e-9 * (1 + np.abs(b3).max())), "after moving the position in place: %r, a fresh model gives %r", a2, a3)
    check(np.array_equal(keep, b), "a gradient returned earlier changed")
    check(abs(-m.nll_nograd(z) - a) <= 1e-9 * (abs(a) + 1), "back at the first position: %r, before %r", -m.nll_nograd(z), a)


# ---------------------------------------------------------------- stamps, PSFs, catalogs

def aux_st():
    return st.fixed_dictionaries(dict(stamp=stamp_st(), fwhm=L.rnd(0.2, 6, 3), srcs=st.lists(src_st(), min_size=1, max_size=4), spl=st.integers(0, 99),
                                      kind=st.sampled_from(["star", "simple", "galaxy", "fixedsersic"]), nreal=st.integers(1, 3), over=st.sampled_from([1, 2, 4, 8]),
                                      center=L.rnd(5, 200, 1), start=st.sampled_from([0, 0, 3]), pts=st.lists(st.tuples(L.rnd(-20, 30), L.rnd(-20, 30)).map(list), min_size=1, max_size=4),
                                      nrad=st.integers(1, 4)))


def body_aux(case, info):
    from astropy.io import fits
    from forcepho import sources as F
    from forcepho.slow import psf as PS
    s = case["stamp"]
    t = make_stamp(s)
    D, CW = matrices(s)
    check(t.npix == s["nx"] * s["ny"] and tuple(t.shape) == (s["nx"], s["ny"]), "stamp size")
    check(t.xpix.shape == (s["nx"], s["ny"]) and np.all(t.xpix == np.arange(s["nx"])[:, None]) and np.all(t.ypix == np.arange(s["ny"])[None, :]), "stamp pixel coordinates")
    for p in case["pts"]:
        p = np.array(p)
        sky = t.pix_to_sky(p)
        near(t.sky_to_pix(sky), p, "pix -> sky -> pix", 1e-7, scale=30)
        near(t.crpix + CW @ (sky - t.crval), p, "pix -> sky", 1e-7, scale=30)
    near(t.pix_to_sky(t.crpix), t.crval, "reference pixel", 1e-12)
    with tempfile.TemporaryDirectory(dir=".") as d:
        fn = os.path.join(d, "x.fits")
        hd, w = t.to_fits(fn, overwrite=True)
        with fits.open(fn) as h:
            check(np.array_equal(h[0].data, t.pixel_values.T), "to_fits: image data")
            if np.any(t.ierr):
                with np.errstate(all="ignore"):
                    check(np.array_equal(h[1].data, (1 / t.ierr).reshape(t.nx, t.ny).T), "to_fits: uncertainties")
            from astropy.wcs import WCS
            w2 = WCS(h[0].header)
        for ww in (w, w2):
            ra, dec = ww.all_pix2world(t.crpix[0], t.crpix[1], 0)
            check(abs((ra - t.crval[0]) * np.cos(np.deg2rad(dec))) < 1e-9 and abs(dec - t.crval[1]) < 1e-9, "WCS of a stamp puts the reference pixel at %r, %r, expected %r", ra, dec, t.crval)
            pos, CW2, D2 = L.local_astrometry(ww, t.crval[0], t.crval[1])
            near(D2, D, "WCS of a stamp: pixels per arcsec", 1e-4)
        near(t.dpix_dsky, CW, "dpix_dsky after making the WCS", 2e-4)
        # PSFs
        tab = psf_params(s["psf"])
        P = PS.PointSpreadFunction(tab, units=s["psf"]["units"])
        want = [tuple(float(v) for v in (r[0], r[1], r[2], r[3], r[4], r[5])) for r in tab]
        check([tuple(map(float, x)) for x in P.as_tuplelist()] == want, "as_tuplelist: %s, expected %s", P.as_tuplelist(), want)
        check(P.n_gauss == len(tab), "n_gauss")
        o = F.SimpleGalaxy(filters=["a"], radii=np.arange(1, case["nrad"] + 1) * 0.1)
        o.stamp_psfs = [[PS.PointSpreadFunction()], [PS.PointSpreadFunction(tab)] * case["nrad"]]
        pg = o.psfgauss(1)
        check([(tuple(map(float, a)), r) for a, r in pg] == [(w_, r) for r in range(case["nrad"]) for w_ in want], "psfgauss: %s", pg)
        # images of a mixture
        flat = np.concatenate([[a, x + 2, y + 3, sx, sy, rho] for a, x, y, sx, sy, rho in s["psf"]["g"]])
        im = PS.mvn_pdf_2d_mix_fn(len(s["psf"]["g"]), s["nx"], s["ny"])(flat)
        gx, gy = np.meshgrid(np.arange(s["nx"]), np.arange(s["ny"]), indexing="ij")
        wim = mixture([2, 3], np.zeros((2, 2)), [0.0], [1.0], [(a, x, y, sx ** 2, sy ** 2, rho * sx * sy) for a, x, y, sx, sy, rho in s["psf"]["g"]], gx, gy, second=False)
        near(im, wim, "image of the PSF mixture", 1e-9, scale=np.abs(wim).max() + 1e-300)
        P = PS.get_psf(fwhm=case["fwhm"])
        im = mixture([0, 0], np.zeros((2, 2)), [0.0], [1.0], [(float(P.amplitudes[0]), 0, 0, P.covariances[0, 0, 0], P.covariances[0, 1, 1], P.covariances[0, 0, 1])],
                     np.array([0.0, case["fwhm"] / 2]), np.zeros(2), second=False)
        check(P.n_gauss == 1 and abs(im[1] / im[0] - 0.5) < 1e-3, "a PSF of FWHM %r has fallen to %r of its peak at half of it", case["fwhm"], im[1] / im[0])
        h5 = os.path.join(d, "p.h5")
        pars = np.array([psf_params(dict(s["psf"], g=[[a * (k + 1), x, y, sx, sy, r] for a, x, y, sx, sy, r in s["psf"]["g"]])) for k in range(case["nreal"])])
        with h5py.File(h5, "w") as h:
            h["parameters"] = pars
        for k in range(case["nreal"]):
            P = PS.get_psf(h5, psf_realization=k)
            check([tuple(map(float, x)) for x in P.as_tuplelist()] == [tuple(map(float, r)) for r in pars[k]], "get_psf from hdf5, realization %d", k)
        # old-style fits: amplitude, mu (first, second image axis), sigma (ditto), rho
        fit = np.array([[a, 3.0 * y + case["center"], 3.0 * x + case["center"], 4 * sy, 4 * sx, rho] for a, x, y, sx, sy, rho in s["psf"]["g"]])
        ans = dict(fitted_params=fit.ravel().copy())
        pk = os.path.join(d, "p.pkl")
        with open(pk, "wb") as f:
            pickle.dump({len(fit): [None] * (case["nreal"] - 1) + [ans]}, f)
        for kw in (dict(n_gauss=len(fit)), dict()):
            P = PS.get_psf(pk, psf_realization=case["nreal"] - 1, oversample=case["over"], center=case["center"], **kw)
            for k, (a, x, y, sx, sy, rho) in enumerate(s["psf"]["g"]):
                o8 = case["over"]
                near(P.means[k], np.array([3.0 * x, 3.0 * y]) / o8, "old-style PSF mean", 1e-9, scale=10)
                near(P.covariances[k], np.array([[16 * sx ** 2, 16 * rho * sx * sy], [16 * rho * sx * sy, 16 * sy ** 2]]) / o8 ** 2, "old-style PSF covariance", 1e-9)
                check(P.amplitudes[k] == a, "old-style PSF amplitude")
        check(np.array_equal(ans["fitted_params"], fit.ravel()), "the fit was modified")
        # scenes of other kinds of source, from and to catalogs
        kind = case["kind"]
        c = Case(d, seed=case["spl"])
        cls = dict(star=F.Star, simple=F.SimpleGalaxy, galaxy=F.Galaxy, fixedsersic=F.Galaxy)[kind]
        kw = dict(star={}, simple=dict(radii=np.array([0.1, 0.2])), galaxy=dict(splinedata=c.path), fixedsersic=dict(splinedata=c.path, free_sersic=False))[kind]
        cols = dict(star=["ra", "dec"], simple=["ra", "dec", "q", "pa"], galaxy=["ra", "dec", "q", "pa", "sersic", "rhalf"], fixedsersic=["ra", "dec", "q", "pa"])[kind]
        rows = np.zeros(len(case["srcs"]), dtype=[(b, np.float32) for b in BANDS] + [(k_, np.float32) for k_ in ["ra", "dec", "q", "pa", "sersic", "rhalf", "extra"]])
        for k, r in enumerate(case["srcs"]):
            rows[k] = tuple(r["flux"]) + (10 + r["dx"], r["dy"], r["q"], r["pa"], r["sersic"], r["rhalf"], 7 + k)
        use = BANDS[:1 + case["nrad"] % 3]
        sc = F.Scene(catalog=rows, source_type=cls, filternames=list(use), extra_parameters=["extra"], **kw)
        check(len(sc) == len(rows) and [o.id for o in sc.sources] == list(range(len(rows))), "scene from a catalog: %d sources", len(sc))
        out = sc.to_catalog(extra_cols=["extra"])
        check(len(out) == len(rows) and set(out.dtype.names) == set(["id", "extra"] + cols + list(use)), "catalog columns %s", out.dtype.names)
        for n in out.dtype.names:
            wantc = np.arange(len(rows)) if n == "id" else rows[n]
            check(np.array_equal(out[n], wantc), "catalog -> scene -> catalog: %s is %r, expected %r", n, out[n], wantc)
        vec = sc.get_all_source_params()
        sc.set_all_source_params(vec * 2.0)
        check(np.array_equal(sc.get_all_source_params(), vec * 2.0), "set and get of all source parameters")
    info.label(kind, "nreal%d" % case["nreal"])


# ---------------------------------------------------------------- against the compiled evaluator

def kern_st():
    return st.fixed_dictionaries(dict(scene=L.scene_st(max_bands=2, max_exp=2, max_src=2, sip=False, maxsize=16, psf_perbin=False)))


def body_kernel(case, info):
    from forcepho.slow.likelihood import make_image
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.stamp import PostageStamp
    from .p01 import residual_images, tol
    sc = case["scene"]
    for p in sc["psfs"]:
        p["jitter"], p["drop"] = 0, 0
    with L.SceneFiles(sc) as files:
        ref = L.RefScene(sc)
        p, res, pix = residual_images(sc, files, L.catalog(sc), sc["bands"])
        model, q = p.prepare_model(active=L.catalog(sc))
        lnp, grad = model.lnprob_and_grad(q)[:2] if hasattr(model, "lnprob_and_grad") else (None, None)
        scene = p.scene
        for j, e in enumerate(L.exposure_order(sc, sc["bands"])):
            ex = sc["exps"][e]
            b = sc["bands"][ex["band"]]
            tab = L.psf_table(sc["psfs"][ex["band"]], sc["nrad"])
            env = ref.image(e, env=True)
            tot = np.zeros((ex["nx"], ex["ny"]))
            for i, src in enumerate(scene.sources):
                t = PostageStamp(nx=ex["nx"], ny=ex["ny"], filtername=b)
                pos, CW, D = ref.astro[e][i]
                t.scale, t.dpix_dsky, t.crpix = D, CW, pos
                t.crval = np.array([src.ra, src.dec])
                t.psf = PointSpreadFunction(tab[tab["sersic_bin"] == 0])
                t.pixel_values = files.data[e]
                tot += src.render(t, compute_deriv=False)[0].reshape(ex["nx"], ex["ny"])
            x, y, m = pix[j]
            want = files.data[e] - tot
            err = np.abs(res[j][m] - want[x[m], y[m]])
            tt = tol(env, files.data[e])[x[m], y[m]]
            k = np.argmax(err / tt)
            check(np.all(err <= tt), "exposure %d pixel (%d, %d): compiled residual %r, slow %r", e, x[m][k], y[m][k], res[j][m][k], want[x[m], y[m]][k])
    info.label("nsrc%d" % len(sc["sources"]), "nexp%d" % len(sc["exps"]))


# ---------------------------------------------------------------- patches made of stamps

def static_st():
    return st.fixed_dictionaries(dict(stamps=st.lists(stamp_st(), min_size=1, max_size=4), srcs=st.lists(src_st(), min_size=1, max_size=3), nrad=st.integers(1, 5),
                                      spl=st.integers(0, 99), again=st.booleans()))


def body_static(case, info):
    from forcepho.patches.device_patch import CPUPatchMixin
    from forcepho.patches.static_patch import StaticPatch
    from forcepho.sources import Galaxy, Scene
    from forcepho.slow.psf import PointSpreadFunction
    from .p01 import tol

    class SP(StaticPatch, CPUPatchMixin):
        pass

    with tempfile.TemporaryDirectory(dir=".") as d:
        c = Case(d, nrad=case["nrad"], seed=case["spl"])
        ids = sorted({s["band"] for s in case["stamps"]})
        stamps = sorted((dict(s) for s in case["stamps"]), key=lambda s: s["band"])
        bands = [BANDS[i] for i in ids]
        real = []
        for k, s in enumerate(stamps):
            s["psf"] = dict(s["psf"], units="pixels", g=(s["psf"]["g"] * 3)[:2 + s["band"] % 2])
            s["ra"] = 0.0
            t = make_stamp(s)
            t.crval = np.array([1e-5 * k, -2e-5 * k])
            t.band = 3 * s["band"] + 1
            real.append(t)
        objs = []
        for k, s in enumerate(case["srcs"]):
            s = dict(s, kind="galaxy", sersic=max(s["sersic"], 0.9))
            D, CW = matrices(stamps[0])
            off = np.linalg.solve(CW, np.array([(stamps[0]["nx"] - 1) / 2 + s["dx"], (stamps[0]["ny"] - 1) / 2 + s["dy"]]) - real[0].crpix)
            o = Galaxy(filters=list(bands), splinedata=c.path, free_sersic=True)
            o.set_params(np.array([s["flux"][i] for i in ids] + [off[0], off[1], s["q"], s["pa"], s["sersic"], s["rhalf"]], dtype=float))
            meta(o, real, [bands.index(t.filtername) for t in real])
            o.stamp_psfs = [[t.psf] * len(o.radii) for t in real]
            objs.append(o)
        scene = Scene(sources=objs)
        scene.npsf_per_source = np.array([len(o.radii) * (2 + i % 2) for i in ids])
        p = SP(real, scene, return_residual=True)
        if case["again"]:
            p.build_patch(real, scene)
        p.send_to_device()
        chi2, dchi, res = p.get_proposer().evaluate_proposal(scene.get_proposal(), patch=p, unpack=False)
        res = p.get_proposer().unpack_residuals(res, p, reshape=True)
        check(len(res) == len(real), "%d residual images of %d stamps", len(res), len(real))
        want, allow = np.zeros(len(ids)), np.zeros(len(ids))
        for e, (t, s) in enumerate(zip(real, stamps)):
            ib = bands.index(t.filtername)
            tot, env = np.zeros(t.npix), np.zeros(t.npix)
            for o, src in zip(objs, case["srcs"]):
                im = o.render(t, compute_deriv=False)[0]
                f = o.flux[ib]
                tot += im
                rad, amps = o.radii, np.abs(o.amplitudes)
                env += np.abs(f) * t.photocounts * envelope(o, amps, s, t)
            tt = tol(env.reshape(t.nx, t.ny), t.pixel_values)
            r = t.pixel_values - tot.reshape(t.nx, t.ny)
            check(res[e].shape == (t.nx, t.ny), "residual image %d has shape %s", e, res[e].shape)
            err = np.abs(res[e] - r)
            check(np.all(err <= tt), "stamp %d: residuals of the patch differ from those of the slow renderer by %g (allowed %g)", e, err.max(), tt.flat[np.argmax(err / tt)])
            w = t.ierr.reshape(t.nx, t.ny)
            want[ib] += np.sum((r * w) ** 2) - np.sum((t.pixel_values * w) ** 2)
            allow[ib] += np.sum(2 * np.abs(r) * w * w * tt + (tt * w) ** 2) + 1e-5 * np.sum((t.pixel_values * w) ** 2)
        check(np.all(np.abs(chi2 - want) <= allow), "chi-square %s, expected %s (allowed %s)", chi2, want, allow)
    info.label("nb%d" % len(ids), "nexp%d" % len(real), "nsrc%d" % len(objs), "nrad%d" % case["nrad"])


def envelope(o, amps, s, t):
    D, CW = matrices(s)
    x, y = t.xpix.reshape(-1), t.ypix.reshape(-1)
    pos = t.crpix + CW @ (np.array([o.ra, o.dec]) - t.crval)
    cp, sp = np.cos(o.pa), np.sin(o.pa)
    T = D @ np.array([[cp, -sp], [sp, cp]]) @ np.diag([1.0 / o.q, o.q])
    # the largest of the two axis orders bounds the envelope
    T2 = D @ np.array([[cp, -sp], [sp, cp]]) @ np.diag([o.q, 1.0 / o.q])
    psf = [(abs(a), px, py, cxx, cyy, cxy) for a, px, py, cxx, cyy, cxy in ref_psf(s)]
    return np.maximum(mixture(pos, T @ T.T, o.radii, amps, psf, x, y, second=False), mixture(pos, T2 @ T2.T, o.radii, amps, psf, x, y, second=False))


# ---------------------------------------------------------------- a catalog on a stamp

def cat_st():
    return st.fixed_dictionaries(dict(srcs=st.lists(src_st(), min_size=1, max_size=4), stamp=stamp_st(), nrad=st.integers(1, 4), spl=st.integers(0, 99), other=st.booleans()))


def body_cat(case, info):
    """A fitted catalog drawn with an idealised PSF."""
    from forcepho.postprocess import forcepho_slow_model
    with tempfile.TemporaryDirectory(dir=".") as d:
        c = Case(d, nrad=case["nrad"], seed=case["spl"])
        stp = case["stamp"]
        t = make_stamp(stp)
        psf, t.psf = t.psf, None
        cols = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
        cat = np.zeros(len(case["srcs"]), dtype=[("id", int)] + [(x, float) for x in ([BANDS[2], BANDS[1], BANDS[0]] if case["other"] else BANDS) + cols])
        want, sc = 0, 0
        for i, s in enumerate(case["srcs"]):
            s = dict(s, kind="galaxy")
            sky = sky_of(s, stp)
            for x, v in zip(cols, [sky[0], sky[1], s["q"], s["pa"], s["sersic"], s["rhalf"]]):
                cat[x][i] = v
            for k, b in enumerate(BANDS):
                cat[b][i] = s["flux"][k]
            vec = np.array([s["flux"][stp["band"]]] + [cat[x][i] for x in cols])
            im, env, _ = ref_model(s, vec, 1, 0, stp, c, grad=False)
            want, sc = want + im, sc + env
        keep = cat.copy()
        got, scene = forcepho_slow_model(cat, t, BANDS[stp["band"]], psf=psf, splinedata=c.path)
        check(got.shape == (stp["nx"], stp["ny"]) and len(scene) == len(cat), "image of shape %s, scene of %d", got.shape, len(scene))
        near(got.ravel(), want, "image of the catalog", 1e-7, scale=max(sc.max(), 1e-12))
        check(np.array_equal(cat, keep), "the catalog changed")
    info.trivial_if(len(case["srcs"]) < 2)


def subs():
    return [Sub("catalog", cat_st, body_cat, quick=200, shards=1, rule="catalogs of galaxies drawn on a stamp with a given PSF", nontrivial_rule="at least two sources"),
            Sub("gaussian", gauss_st, body_gauss, quick=1500, shards=2, rule="compute_gaussian and its six derivatives against complex-step derivatives", nontrivial_rule="any gaussian"),
            Sub("render", render_st, body_render, quick=1600, shards=4, rule="image and parameter gradients of one source of any kind on one stamp", nontrivial_rule="image not all ~0"),
            Sub("likelihood", like_st, body_like, quick=800, shards=4, rule="scenes of mixed sources with coverage maps on several stamps: every plan type, posterior, make_image",
                nontrivial_rule="at least one active source on a stamp"),
            Sub("aux", aux_st, body_aux, quick=400, shards=2, rule="stamps, stamp WCS, PSF files and scenes of all source kinds", nontrivial_rule="all"),
            Sub("static", static_st, body_static, quick=160, shards=2, rule="patches made of stamps, evaluated by the compiled and the slow implementation", nontrivial_rule="all"),
            Sub("kernel", kern_st, body_kernel, quick=120, shards=4, rule="slow and compiled images of the same scene", nontrivial_rule="all")]
