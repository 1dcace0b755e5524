"""P31: Gaussian-mixture fits of images, and the tools that make mixture tables."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy import integrate
from scipy.special import gammainc, gammaincinv, ive

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["images are positive and at least as many pixels as parameters",
               "starts from which the likelihood is finite at every step (a start that makes it NaN is reported as such and not judged further)"]


def image_st(lo=6, hi=14):
    return st.fixed_dictionaries(dict(nx=st.integers(lo, hi), ny=st.integers(lo, hi), n=st.integers(1, 3), seed=st.integers(0, 99999),
                                      noise=st.sampled_from([0.0, 0.02, 0.3]), norm=st.sampled_from([1.0, 1.0, 1.0, 3.7]), pedestal=st.sampled_from([1e-6, 1e-3])))


def gauss2d(x, y, amp, mx, my, sx, sy, rho):
    C = np.array([[sx**2, rho * sx * sy], [rho * sx * sy, sy**2]])
    F = np.linalg.inv(C)
    dx, dy = np.broadcast_arrays(x - mx, y - my)
    return amp * np.exp(-0.5 * (F[0, 0] * dx * dx + 2 * F[0, 1] * dx * dy + F[1, 1] * dy * dy)) / (2 * np.pi * np.sqrt(np.linalg.det(C)))


def make_image(c):
    rs = np.random.RandomState(c["seed"])
    x, y = np.arange(c["nx"])[:, None], np.arange(c["ny"])[None, :]
    im = np.zeros((c["nx"], c["ny"]))
    for _ in range(c["n"]):
        im += gauss2d(x, y, rs.uniform(0.2, 1), c["nx"] * rs.uniform(0.25, 0.75), c["ny"] * rs.uniform(0.25, 0.75), rs.uniform(0.8, 3), rs.uniform(0.8, 3), rs.uniform(-0.6, 0.6))
    im *= 1 + c["noise"] * rs.uniform(-1, 1, im.shape)
    im += c["pedestal"] * im.max()
    return im / im.sum() * c["norm"]


def mixture(p, shape):
    x, y = np.arange(shape[0])[:, None], np.arange(shape[1])[None, :]
    return sum(gauss2d(x, y, *row) for row in np.reshape(p, (-1, 6)))


def em_step(p, im):
    p = np.reshape(p, (-1, 6))
    x, y = np.broadcast_arrays(np.arange(im.shape[0])[:, None] * 1.0, np.arange(im.shape[1])[None, :] * 1.0)
    pdf = np.array([gauss2d(x, y, *row) for row in p])
    r = pdf / pdf.sum(axis=0) * im
    N = r.sum(axis=(1, 2))
    out = []
    for k in range(len(p)):
        mx, my = (r[k] * x).sum() / N[k], (r[k] * y).sum() / N[k]
        vx, vy = (r[k] * (x - mx)**2).sum() / N[k], (r[k] * (y - my)**2).sum() / N[k]
        c = (r[k] * (x - mx) * (y - my)).sum() / N[k]
        out.append([N[k] / N.sum(), mx, my, np.sqrt(vx), np.sqrt(vy), c / np.sqrt(vx * vy)])
    return np.array(out)


def lnlike(p, im):
    return float(np.sum(im * np.log(mixture(p, im.shape))))


def im_moments(im):
    x, y = np.arange(im.shape[0])[:, None], np.arange(im.shape[1])[None, :]
    T = im.sum()
    mx, my = (im * x).sum() / T, (im * y).sum() / T
    return np.array([mx, my, (im * (x - mx)**2).sum() / T, (im * (y - my)**2).sum() / T, (im * (x - mx) * (y - my)).sum() / T])


def mix_moments(p):
    p = np.reshape(p, (-1, 6))
    a = p[:, 0]
    mx, my = (a * p[:, 1]).sum(), (a * p[:, 2]).sum()
    return np.array([mx, my, (a * (p[:, 3]**2 + (p[:, 1] - mx)**2)).sum(), (a * (p[:, 4]**2 + (p[:, 2] - my)**2)).sum(),
                     (a * (p[:, 5] * p[:, 3] * p[:, 4] + (p[:, 1] - mx) * (p[:, 2] - my))).sum()])


def check_answer(a, im, k):
    """Everything in one answer belongs to its reported parameters."""
    p = np.asarray(a["fitted_params"], float)
    check(p.shape == (6 * k,), "%d parameters for %d components", p.size, k)
    check(np.array_equal(a["original_image"], im), "answer holds another image")
    rec = mixture(p, im.shape)
    check(np.allclose(a["recon_image"], rec, rtol=1e-9, atol=1e-12 * np.abs(rec).max()), "reconstructed image is not the mixture at the reported parameters")
    check(abs(a["error_original"] - np.sqrt((im**2).sum())) < 1e-9, "error_original")
    check(abs(a["error_residual"] - np.sqrt(((im - rec)**2).sum())) < 1e-9 * (1 + a["error_residual"]), "error_residual %s", a["error_residual"])
    return p


def collapsed(a):
    """A start that ended in NaN, or in a component narrower than any pixel structure (not a mixture one can evaluate)."""
    p = np.reshape(a["fitted_params"], (-1, 6))
    return not np.isfinite(a["final_log_likelihood"]) or np.any(p[:, 3:5] < 0.05) or np.any(np.abs(p[:, 5]) > 0.9999) or np.any(p[:, 0] < 1e-12)


def body_em(case, info):
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    im = make_image(case["image"])
    im0 = im.copy()
    k, rep, thr = case["k"], case["repeat"], case["thresh"]
    kw = dict(dlnlike_thresh=thr, repeat=rep, printint=False, printfinal=False)
    with np.errstate(all="ignore"):
        np.random.seed(case["rng"])
        A = fit_mvn_mix(im, k, "em", case["init"], **kw)
        np.random.seed(case["rng"])
        best = fit_mvn_mix(im, k, "em", case["init"], returnfull=False, **kw)
    check(np.array_equal(im, im0), "the image was modified")
    check(len(A) == rep, "%d answers for %d repeats", len(A), rep)
    check(len({id(a["fitted_params"]) for a in A}) == rep, "answers share their parameters")
    nan = [collapsed(a) for a in A]
    info.trivial_if(all(nan))
    info.label("starts with NaN likelihood: %d" % sum(nan))
    for a, bad in zip(A, nan):
        if bad:
            continue
        p = check_answer(a, im, k)
        q = p.reshape(k, 6)
        check(np.all(q[:, 0] >= 0) and np.all(q[:, 3:5] > 0) and np.all(np.abs(q[:, 5]) < 1 + 1e-12), "unphysical mixture %s", q)
        check(abs(q[:, 0].sum() - 1) < 1e-9, "amplitudes sum to %s", q[:, 0].sum())
        L0 = lnlike(p, im)
        check(abs(a["final_log_likelihood"] - L0) < 1e-8 * (1 + abs(L0)), "reported likelihood %s, the mixture's is %s", a["final_log_likelihood"], L0)
        check(np.allclose(mix_moments(p), im_moments(im), rtol=1e-6, atol=1e-7), "moments of the mixture %s, of the image %s", mix_moments(p), im_moments(im))
        # converged: another update neither lowers the likelihood nor raises it by much more than the threshold
        r = em_step(p, im)
        dL = lnlike(r, im) - L0
        if np.isfinite(dL):
            check(dL > -1e-10 * (1 + abs(L0)), "an update lowers the likelihood by %s", -dL)
            # (the first steps from an unnormalised start may cross the threshold by chance)
            check(dL < 30 * thr + 1e-12 or thr > 1e-5, "not converged: another update raises the likelihood by %s, threshold %s", dL, thr)
        if k == 1:
            m = im_moments(im)
            check(np.allclose(q[0], [1, m[0], m[1], np.sqrt(m[2]), np.sqrt(m[3]), m[4] / np.sqrt(m[2] * m[3])], atol=1e-7), "single gaussian is not the moment fit")
    if not any(nan):
        err = [a["error_residual"] for a in A]
        check(np.array_equal(best["fitted_params"], A[int(np.argmin(err))]["fitted_params"]),
              "best of the repeats has residual %s, residuals are %s", best["error_residual"], err)


def body_cap(case, info):
    """A threshold that is never reached: the best fit so far is still returned."""
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    im = make_image(case["image"])
    with np.errstate(all="ignore"):
        np.random.seed(case["rng"])
        A = fit_mvn_mix(im, case["k"], "em", "greedy", dlnlike_thresh=0.0, repeat=1, printint=False, printfinal=False)
    check(len(A) == 1, "%d answers for 1 repeat", len(A))
    p = check_answer(A[0], im, case["k"])
    check(abs(A[0]["final_log_likelihood"] - lnlike(p, im)) < 1e-8, "likelihood of an unconverged fit")
    check(np.allclose(mix_moments(p), im_moments(im), rtol=1e-6, atol=1e-7), "moments of an unconverged fit")


def body_ls(case, info):
    """Least squares: an exact gaussian is recovered; the answer belongs to its parameters."""
    from forcepho.mixtures.psf_mix_em import fit_mvn_mix
    t = case["truth"]
    nx, ny = case["nx"], case["ny"]
    true = [t["amp"], nx * t["u"], ny * t["v"], t["sx"], t["sy"], t["rho"]]
    im = mixture(np.array(true), (nx, ny))
    A = fit_mvn_mix(im.copy(), 1, "scipy_ls", "greedy", repeat=2, printint=False, printfinal=False)
    check(len(A) == 2, "%d answers for 2 repeats", len(A))
    for a in A:
        p = check_answer(a, im, 1)
        check(np.allclose(p, true, rtol=1e-2, atol=1e-2), "fitted %s, truth %s", p, true)
        check(a["error_residual"] < 1e-3 * a["error_original"], "residual of an exact model")


def body_helpers(case, info):
    from forcepho.mixtures import psf_mix_em as E
    im = make_image(case["image"])
    m = im_moments(im)
    check(np.allclose(E.mean_params(im), m[:2]), "centroid")
    check(np.allclose(E.cov_params(im), [np.sqrt(m[2]), np.sqrt(m[3]), m[4] / np.sqrt(m[2] * m[3])]), "second moments")
    x, y = np.arange(im.shape[0])[:, None], np.arange(im.shape[1])[None, :]
    for i in range(3):
        for j in range(3):
            check(np.isclose(E.noncentral_moment(im, i, j), (im * x**i * y**j).sum()), "moment %d,%d", i, j)
            check(np.isclose(E.central_moment(im, i, j), (im * (x - m[0])**i * (y - m[1])**j).sum(), atol=1e-12), "central moment %d,%d", i, j)
    a = np.random.RandomState(case["image"]["seed"]).uniform(-1, 1, (4, 3, 5))
    a[1] = 0
    for ax in range(3):
        n = E.normalized(a, axis=ax, order=1)
        s = np.abs(n).sum(axis=ax)
        check(np.all(np.isclose(s, 1) | np.isclose(s, 0)), "norms along axis %d: %s", ax, s)
        check(np.allclose(n * np.abs(a).sum(axis=ax, keepdims=True), a), "normalised array is not proportional")


def body_psf(case, info):
    """psf_mixture: the table written describes the image, centred on the full image, in detector pixels."""
    import h5py
    from astropy.io import fits
    from forcepho.mixtures.utils_em import psf_mixture
    c = case["image"]
    full = make_image(c).astype(np.float64) * case["total"]
    hdr = fits.Header()
    if case["wcs"]:
        s = case["wcs"] / 3600.0
        for k, v in dict(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CRVAL1=10.0, CRVAL2=-5.0, CRPIX1=1.0, CRPIX2=1.0, CD1_1=-s, CD1_2=0.0, CD2_1=0.0, CD2_2=s).items():
            hdr[k] = v
    fits.PrimaryHDU(full, header=hdr).writeto("psf_p31.fits", overwrite=True)
    np.random.seed(case["rng"])
    over, k, rep, width = case["oversample"], case["k"], case["repeat"], case["width"]
    with np.errstate(all="ignore"):
        out = psf_mixture("psf_p31.fits", "f999w", k, nrepeat=rep, newstyle=True, width=width, oversample=over)
    with h5py.File("gmpsf_f999w_ng%d.h5" % k, "r") as f:
        par = f["parameters"][:]
        models, lnl, img = f["models"][:], f["lnlike"][:], f["psf_image"][:]
        start, stop, center, frac = f.attrs["start"], f.attrs["stop"], f.attrs["center"], f.attrs["flux_fraction"]
        nmix, nrep, ov = f.attrs["nmix"], f.attrs["nrepeat"], f.attrs["oversample"]
        pix_im, pix_par = f["psf_image"].attrs["arcsec_per_pixel"], f["parameters"].attrs["arcsec_per_pixel"]
    for fn in ("psf_p31.fits", "gmpsf_f999w_ng%d.h5" % k, "gmpsf_f999w_ng%d.pdf" % k):
        check(os.path.exists(fn), "%s was not written", fn)
        os.remove(fn)
    check((nmix, nrep, ov) == (k, rep, over), "attributes %s %s %s", nmix, nrep, ov)
    if case["wcs"]:
        check(abs(pix_im - case["wcs"]) < 1e-6 * case["wcs"], "pixel scale %s", pix_im)
        check(abs(pix_par - over * case["wcs"]) < 1e-6 * pix_par, "pixel scale of the parameters %s", pix_par)
    cen = (np.array(full.shape) - 1) / 2.0
    check(np.allclose(center, cen), "centre %s of an image of shape %s", center, full.shape)
    sub = full[start[0]:stop[0], start[1]:stop[1]]
    if width is None:
        check(sub.shape == full.shape, "cut out without a width")
    else:
        check(np.all(stop - start <= 2 * width + 1), "section larger than the width")
        check(np.all(np.minimum(2 * width, np.array(full.shape)) - (stop - start) <= 1), "section smaller than the width")
    check(abs(frac - sub.sum() / full.sum()) < 1e-9, "flux fraction %s", frac)
    norm = sub / sub.sum()
    check(img.shape == norm.T.shape and np.allclose(img, norm.T, rtol=1e-9), "stored image is not the normalised section, x first")
    for got, want, w in ((out["parameters"], par, "parameters"), (out["data"], img, "data"), (out["lnlike"], lnl, "likelihoods"), (out["models"], models, "models")):
        check(np.array_equal(np.asarray(got), want, equal_nan=w == "likelihoods"), "returned %s differ from those written", w)
    info.trivial_if(not np.any(np.isfinite(lnl)))
    # coordinates (oversampled, full image) of the section's pixels: x is the column
    xs = (np.arange(start[1], stop[1]) - cen[1])[:, None]
    ys = (np.arange(start[0], stop[0]) - cen[0])[None, :]
    for i in range(rep):
        if not np.isfinite(lnl[i]):
            continue
        if np.any(np.minimum(par[i]["vxx"], par[i]["vyy"]) * over**2 < 0.05**2) or np.any(par[i]["vxy"]**2 > 0.9998 * par[i]["vxx"] * par[i]["vyy"]):
            continue
        m = np.zeros(norm.T.shape)
        for g in par[i]:
            sx, sy = np.sqrt(float(g["vxx"])) * over, np.sqrt(float(g["vyy"])) * over
            m += gauss2d(xs, ys, float(g["amp"]), float(g["x"]) * over, float(g["y"]) * over, sx, sy, float(g["vxy"]) * over**2 / (sx * sy))
        check(np.allclose(m, models[i], atol=2e-3 * m.max()), "stored parameters do not give the stored model (largest difference %s of %s)", np.abs(m - models[i]).max(), m.max())
        check(abs(lnl[i] - np.sum(norm.T * np.log(models[i]))) < 1e-7 * (1 + abs(lnl[i])), "stored likelihood")
        check(abs(models[i][:].sum() - m.sum()) < 1e-2, "flux of the model")
        tot = np.array([(norm.T * xs).sum(), (norm.T * ys).sum()])
        got = np.array([(par[i]["amp"] * par[i]["x"]).sum(), (par[i]["amp"] * par[i]["y"]).sum()]) * over
        check(np.allclose(got, tot, atol=2e-4 * max(full.shape)), "centroid of the mixture %s, of the image %s", got, tot)


def body_oned(case, info):
    """Profile helpers behind the Sersic mixture tables."""
    from forcepho.mixtures import sersic_mix_oned as S
    n, rh = case["n"], case["rh"]
    b = gammaincinv(2 * n, 0.5)
    x = np.array(sorted(case["x"])) * rh

    def mu(r):
        return np.exp(-b * ((r / rh)**(1 / n) - 1))
    x0 = x.copy()
    check(np.allclose(S.sersic_profile(x, n=n, rh=rh), mu(x), rtol=1e-10), "profile")
    check(np.array_equal(x, x0), "radii modified")
    check(abs(S.sersic_profile(np.array([rh]), n=n, rh=rh)[0] - 1) < 1e-10, "profile is not 1 at the half-light radius")
    r = S.rfrac_from_halfn(case["frac"], n=n, rh=rh)
    check(abs(gammainc(2 * n, b * (r / rh)**(1 / n)) - case["frac"]) < 1e-9, "radius enclosing %s", case["frac"])
    rs = np.random.RandomState(case["seed"])
    k = case["k"]
    amps, disp = rs.uniform(0.05, 1, k), rs.uniform(0.05, 2, k) * rh
    want = sum(a / np.sqrt(2 * np.pi) / d * np.exp(-x**2 / 2 / d**2) for a, d in zip(amps, disp))
    check(np.allclose(S.normal_oned(x, 0.0, amps, disp), want), "sum of gaussians")
    mus = rs.uniform(-1, 1, k)
    want = sum(a / np.sqrt(2 * np.pi) / d * np.exp(-(x - m)**2 / 2 / d**2) for a, d, m in zip(amps, disp, mus))
    check(np.allclose(S.normal_oned(x, mus, amps, disp), want), "sum of shifted gaussians")
    d2 = disp.copy()
    if case["point"]:
        d2[0] = 0.0
    want = sum(a * (1 - np.exp(-0.5 * (x / d)**2) if d > 0 else 1.0) for a, d in zip(amps, d2)) / amps.sum()
    check(np.allclose(S.gauss_cfd(x, amps, d2), want), "enclosed light of a mixture")
    sm = case["smooth"] * rh
    target = mu(x)
    dd = np.hypot(disp, sm)
    g = sum(a / (2 * np.pi * d**2) * np.exp(-x**2 / 2 / d**2) for a, d in zip(amps, dd))
    chi = 1e-2 * np.sum(((g - target) / target)**2 * target * x) / np.sum(x * target)
    for kw, p in ((dict(radii=np.log(disp)), np.log(amps)), (dict(), np.log(np.concatenate([amps, disp])))):
        c, xx, t, m = S.chisq(p, x=x, target=target, smoothing=sm, return_models=True, **kw)
        check(np.allclose(m, g), "mixture profile")
        check(abs(c - chi) < 1e-9 * (1 + chi), "misfit %s, expected %s", c, chi)
        check(S.chisq(p, x=x, target=target, smoothing=sm, **kw) == c, "misfit without models")
        ar = S.chisq(p, x=x, target=target, smoothing=sm, arpenalty=0.1, arscale=rh, **kw)
        w = 0.1 * np.sum(amps / (dd * np.sqrt(2 * np.pi)) * np.exp(dd / rh))
        check(abs(ar - c - w) < 1e-8 * (1 + abs(w)), "penalty of extended components")


def body_smooth(case, info):
    """Smoothed Sersic profile against a direct two-dimensional convolution."""
    from forcepho.mixtures import sersic_mix_oned as S
    n, rh, s = case["n"], case["rh"], case["s"] * case["rh"]
    b = gammaincinv(2 * n, 0.5)
    x = np.array(sorted(case["x"])) * s
    got = S.sersic_profile(x, n=n, rh=rh, sigma=s)

    def conv(r):
        def f(q):
            return np.exp(-b * ((q / rh)**(1 / n) - 1)) * q / s**2 * np.exp(-0.5 * ((r - q) / s)**2) * ive(0, r * q / s**2)
        pts = sorted({max(0, r - 6 * s), r, r + 6 * s})
        return sum(integrate.quad(f, lo, hi, limit=300, epsrel=1e-9)[0] for lo, hi in zip([0] + pts[:-1], pts) if hi > lo) + \
            integrate.quad(f, pts[-1], pts[-1] + 10 * s, limit=200)[0]
    want = np.array([conv(r) for r in x])
    check(np.allclose(got, want, rtol=1e-3), "smoothed profile %s, convolution %s", got, want)


def body_table(case, info):
    """fit_profiles writes one row per (index, radius), index slowest, with unit total flux; amplitude_table prints it."""
    import h5py
    from forcepho.mixtures import sersic_mix_oned as S
    ng, rg = np.array(sorted(case["ng"])), np.array(sorted(case["rg"]))
    lnr = np.log(np.geomspace(0.15, 2.0, case["nrad"]) * rg.mean())
    x = np.geomspace(0.05, 5, 60) * rg.mean()
    sm = case["smooth"] * rg.mean()
    name = S.fit_profiles(outroot="prof_p31", rgrid=rg, ngrid=ng, lnradii=lnr.copy(), smoothing=sm, x=x, asmooth=1e-8, arpenalty=1e-6)
    S.amplitude_table(name)
    with open("prof_p31.tbl") as fp:
        tbl = np.array([[float(v) for v in ln.split()] for ln in fp if ln.strip() and not ln.startswith("#")])
    with h5py.File(name, "r") as f:
        d = {k: f[k][:] for k in f}
        check(abs(f.attrs["smoothing"] - sm) < 1e-12, "smoothing attribute")
    for e in ("h5", "tbl", "prof.pdf", "amps.pdf", "cdf.pdf"):
        os.remove("prof_p31." + e)
    radii = np.exp(lnr) if sm == 0 else np.concatenate([[0.0], np.exp(lnr)])
    check(np.allclose(d["radii"], radii), "radii %s", d["radii"])
    N, R = [v.ravel() for v in np.meshgrid(ng, rg, indexing="ij")]
    check(np.allclose(d["nsersic"], N) and np.allclose(d["rh"], R), "grid %s %s", d["nsersic"], d["rh"])
    A = d["amplitudes"].astype(float)
    check(A.shape == (len(N), len(radii)) and np.all(A >= 0) and np.allclose(A.sum(axis=1), 1, atol=1e-5), "amplitudes are not fractions of the light: %s", A.sum(axis=1))
    disp = np.hypot(radii, sm)
    for i in range(len(N)):
        b = gammaincinv(2 * N[i], 0.5)
        t = np.exp(-b * ((x / R[i])**(1 / N[i]) - 1))
        check(np.allclose(d["truth"][i], t, rtol=1e-4), "profile of row %d", i)
        m = (A[i] / (2 * np.pi * disp**2) * np.exp(-0.5 * (x[:, None] / disp)**2)).sum(axis=1)
        ok = m > 1e-4 * m.max()
        ratio = d["model"][i][ok] / m[ok]
        check(np.allclose(ratio, ratio[0], rtol=1e-3), "model of row %d is not the mixture of its amplitudes", i)
        # a descent from the start: better than a single component of any radius
        use = x < 2 * radii.max()
        tt, w = d["smooth_sersic"][i][use], (d["smooth_sersic"][i] * x)[use]
        def misfit(g):
            return np.sum(((g - tt) / tt)**2 * w) / w.sum()
        single = min(min(misfit(f * np.exp(-0.5 * (x[use] / dd)**2)) for f in np.geomspace(0.01, 30, 60) * tt.max()) for dd in disp if dd > 0)
        check(misfit(d["model"][i][use]) < single * 1.05 + 1e-3, "misfit of the mixture %s, of one component %s", misfit(d["model"][i][use]), single)
    check(tbl.shape == (len(N), 2 + len(radii)), "printed table %s", tbl.shape)
    check(np.allclose(tbl[:, 0], N, atol=0.051) and np.allclose(tbl[:, 1], R, atol=0.0051) and np.allclose(tbl[:, 2:], A, rtol=2e-3, atol=1e-30), "printed table differs from the stored one")


def body_twod(case, info):
    from forcepho.mixtures import psf_mix_hmc as H, sersic_mix_twod as T
    for m in (H, T):
        if not hasattr(m, "jnp"):
            m.jnp = np          # numpy stands in for jax.numpy where jax is not installed
    rs = np.random.RandomState(case["seed"])
    k, npix = case["k"], 30
    xp, yp = rs.uniform(0, 20, npix), rs.uniform(0, 20, npix)
    x, y, w, sx, q, rho = rs.uniform(5, 15, k), rs.uniform(5, 15, k), rs.uniform(0, 1, k), rs.uniform(1, 4, k), rs.uniform(0.6, 1.6, k), rs.uniform(-0.7, 0.7, k)
    a, bg = case["a"], case["bg"]
    want = bg + sum(gauss2d(xp, yp, a * w[i], x[i], y[i], sx[i], sx[i] * q[i], rho[i]) for i in range(k))
    got = np.asarray(H.psf_prediction(xp, yp, x=x, y=y, a=a, weight=w, sx=sx, q=q, rho=rho, bg=bg))
    check(np.allclose(got, want, rtol=1e-4, atol=1e-5), "PSF prediction")
    want = np.array([gauss2d(xp, yp, a * w[i], x[0], y[0], sx[i], sx[i], 0.0) for i in range(k)]).T
    for kw in (dict(weight=w), dict(lnW=np.log(w))):
        got = np.asarray(T.sersic_prediction(xp, yp, x=x[0], y=y[0], a=a, radii=sx, bg=bg, **kw))
        check(np.allclose(got, want.sum(axis=1) + bg, rtol=1e-4, atol=1e-5), "profile prediction")
        check(np.allclose(np.asarray(T.sersic_prediction(xp, yp, x=x[0], y=y[0], a=a, radii=sx, separate=True, **kw)), want, rtol=1e-4, atol=1e-5), "separate components")
    n = k + 1
    for prior, s in (("exp-squared", case["s"]), ("triangular", 0.9 * case["s"] / 4), ("finite-difference", 0.9 * case["s"] / 4)):
        K = T.get_kernel(n, prior, scale=s)
        check(K.shape == (n, n) and np.allclose(K, K.T) and np.allclose(np.diag(K), 1), "%s kernel is not a correlation matrix", prior)
        check(np.linalg.eigvalsh(K).min() > -1e-9, "%s kernel is not positive", prior)
        check(K[0, -1] <= K[0, 1] + 1e-9, "%s kernel does not fall off", prior)


def subs():
    return [
        Sub("em", lambda: st.fixed_dictionaries(dict(image=image_st(), k=st.integers(1, 4), repeat=st.integers(1, 3), rng=st.integers(0, 9999),
                                                     thresh=st.sampled_from([1e-4, 1e-6, 1e-7]), init=st.sampled_from(["random", "random", "random", "greedy"]))),
            body_em, quick=200, thorough=2500, shards=4, rule="random images of 1-3 blended gaussians with noise; 1-4 components, 1-3 repeats",
            nontrivial_rule="at least one start converged"),
        Sub("cap", lambda: st.fixed_dictionaries(dict(image=image_st(4, 6), k=st.integers(1, 2), rng=st.integers(0, 999))), body_cap, quick=2, thorough=40, shards=1,
            rule="fits that never reach the threshold"),
        Sub("ls", lambda: st.fixed_dictionaries(dict(nx=st.integers(12, 20), ny=st.integers(12, 20), truth=st.fixed_dictionaries(dict(
            amp=L.rnd(0.3, 3), u=L.rnd(0.35, 0.6), v=L.rnd(0.35, 0.6), sx=L.rnd(1, 2), sy=L.rnd(1, 2), rho=L.rnd(-0.6, 0.6))))), body_ls, quick=40, thorough=600, shards=1,
            rule="exact gaussians well inside the image"),
        Sub("moments", lambda: st.fixed_dictionaries(dict(image=image_st())), body_helpers, quick=100, thorough=2000, shards=1, rule="random images"),
        Sub("psf", lambda: st.fixed_dictionaries(dict(image=image_st(9, 16), k=st.integers(1, 3), repeat=st.integers(1, 2), rng=st.integers(0, 9999), oversample=st.sampled_from([1, 2, 8]),
                                                      width=st.sampled_from([None, 3, 5, 20]), total=st.sampled_from([1.0, 250.0]), wcs=st.sampled_from([0, 0.03, 0.06]))),
            body_psf, quick=40, thorough=400, shards=3, rule="PSF images (also non-square) cut out and fitted", nontrivial_rule="a start converged"),
        Sub("oned", lambda: st.fixed_dictionaries(dict(n=L.rnd(0.6, 6), rh=L.rnd(0.05, 3), frac=L.rnd(0.01, 0.99), k=st.integers(1, 8), seed=st.integers(0, 9999), point=st.booleans(),
                                                       smooth=st.sampled_from([0, 0.1, 0.5]), x=st.lists(L.rnd(0.01, 6), min_size=2, max_size=12))),
            body_oned, quick=300, thorough=6000, shards=1, rule="profile helpers"),
        Sub("smooth", lambda: st.fixed_dictionaries(dict(n=L.rnd(0.8, 4), rh=L.rnd(0.05, 3), s=L.rnd(0.02, 0.25), x=st.lists(L.rnd(0.05, 12), min_size=1, max_size=4))), body_smooth,
            quick=40, thorough=1000, shards=1, rule="smoothed profiles against a two-dimensional convolution"),
        Sub("table", lambda: st.fixed_dictionaries(dict(ng=st.lists(st.sampled_from([1.0, 1.5, 2.5, 4.0]), min_size=1, max_size=2, unique=True),
                                                        rg=st.lists(st.sampled_from([0.3, 0.5, 0.9]), min_size=1, max_size=2, unique=True), nrad=st.integers(3, 4),
                                                        smooth=st.sampled_from([0.0, 0.05]))), body_table, quick=2, thorough=40, shards=1,
            examples=[dict(ng=[1.0, 2.5], rg=[0.3, 0.5], nrad=3, smooth=0.05)], rule="small mixture tables", case_timeout=300),
        Sub("twod", lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 99999), k=st.integers(1, 6), a=L.rnd(0.1, 5), bg=L.rnd(-1, 1), s=L.rnd(0.2, 3))), body_twod,
            quick=100, thorough=2000, shards=1, rule="predictions of the sampled mixture models, numpy standing in for jax.numpy"),
    ]
