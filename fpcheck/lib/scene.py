"""Generated scenes, the files forcepho reads them from, and an independent reference model.

A scene case is a plain dict of numbers (JSON-able).  `write_scene` turns it into FITS images, a
PSF store and (optionally) a spline file; `RefScene` renders it in double precision from the same
numbers, using only numpy, scipy's spline and astropy's WCS.
"""
import os
import shutil
import tempfile

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st
from scipy.interpolate import RectBivariateSpline

from ..boot import REPO

BANDS = ["F090W", "F150W", "F200W", "F200WA", "CLEAR"]
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
BIG_SPLINE = os.path.join(REPO, "demo", "data", "sersic_splinedata_large.h5")
SMALL_SPLINE = os.path.join(REPO, "demo", "data", "sersic_splinedata.h5")


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def rnd(lo, hi, nd=4):
    """Floats rounded to a few decimals: readable cases, generic values."""
    return fl(lo, hi).map(lambda v: round(v, nd))


# ---------------------------------------------------------------- strategies

def mostly(small, large, n=14):
    """Small inputs, and a large one now and then."""
    return st.one_of(*[small] * n, large)


def wcs_st(sip=True, maxsize=26, minsize=8):
    return st.fixed_dictionaries(dict(
        nx=st.integers(minsize, maxsize), ny=st.integers(minsize, maxsize),
        scale=st.sampled_from([0.03, 0.05, 0.08, 0.0317]),
        rot=rnd(-180, 180, 2), parity=st.sampled_from([-1, 1]),
        aspect=st.sampled_from([1.0, 1.0, 1.07]),
        dx=rnd(-3, 3), dy=rnd(-3, 3),
        sip=(st.sampled_from([0.0, 0.0, 1e-5, -2e-5, 4e-5]) if sip else st.just(0.0))))


def source_st(nb, ext=0.25, rmax=0.45, rmin=0.03, nmin=0.85, nmax=6.0, fluxlo=0.1, fluxhi=200.0, qmin=0.25):
    return st.fixed_dictionaries(dict(
        dx=rnd(-ext, ext), dy=rnd(-ext, ext),
        q=rnd(qmin, 1.0), pa=rnd(-1.7, 1.7), sersic=rnd(nmin, nmax), rhalf=rnd(rmin, rmax),
        flux=st.lists(rnd(fluxlo, fluxhi, 3), min_size=nb, max_size=nb)))


def psfgauss_st():
    # amp, x, y (pixels), sigma_x, sigma_y, rho
    return st.tuples(rnd(0.05, 1.0), rnd(-0.8, 0.8), rnd(-0.8, 0.8),
                     rnd(0.7, 3.0), rnd(0.7, 3.0), rnd(-0.6, 0.6)).map(list)


@st.composite
def scene_st(draw, max_bands=3, max_exp=4, max_src=4, sip=True, maxsize=26, nmin_src=1, psf_perbin=True,
             custom_spline=True, min_bands=1, maxdec=65.0, rmax=0.45, fluxlo=0.1, fluxhi=200.0, tweaks=False):
    nb = draw(st.integers(min_bands, max_bands))
    bands = draw(st.permutations(BANDS))[:nb]
    nexp = draw(st.integers(nb, max(nb, max_exp)))
    exps = []
    for i in range(nexp):
        e = draw(wcs_st(sip=sip, maxsize=maxsize))
        # every band has at least one exposure; extras fall anywhere
        e["band"] = i if i < nb else draw(st.integers(0, nb - 1))
        e["seed"] = draw(st.integers(0, 99999))
        exps.append(e)
    order = draw(st.permutations(range(nexp)))
    exps = [exps[i] for i in order]
    nsrc = draw(st.integers(nmin_src, max_src))
    use_custom = custom_spline and draw(st.booleans())
    if use_custom:
        spline = dict(nrad=draw(st.integers(2, 10)), seed=draw(st.integers(0, 9999)))
        nrad = spline["nrad"]
    else:
        spline = None
        nrad = 9
    psfs = []
    for b in range(nb):
        ng = draw(st.integers(1, 3))
        base = [draw(psfgauss_st()) for _ in range(ng)]
        drop = draw(st.integers(0, 3)) if psf_perbin else 0
        psfs.append(dict(base=base, seed=draw(st.integers(0, 9999)) if psf_perbin else 0,
                         jitter=draw(st.sampled_from([0.0, 0.1])) if psf_perbin else 0.0, drop=drop))
    return dict(bands=list(bands), ra0=draw(st.one_of(rnd(5, 355), rnd(5, 355), rnd(5, 355), rnd(-2e-4, 2e-4, 7))), dec0=draw(rnd(-maxdec, maxdec)),
                exps=exps, sources=[draw(source_st(nb, rmax=rmax, fluxlo=fluxlo, fluxhi=fluxhi)) for _ in range(nsrc)],
                psfs=psfs, spline=spline, nrad=nrad,
                noise=draw(st.sampled_from([0.01, 0.1, 1.0])))


MOREBANDS = ["F%03dM" % (300 + 7 * k) for k in range(25)]
EXTREMES = ["bigimage", "manysrc", "manyband", "manyexp", "flux", "off", "tiny", "psf", "psf"]


@st.composite
def extreme_st(draw, kinds=EXTREMES):
    """Scenes that are extreme in one respect, up to the declared limits of the kernel."""
    kind = draw(st.sampled_from(kinds))
    if kind == "bigimage":
        # more than 2**15 pixels per patch (and per exposure, sometimes)
        sc = draw(scene_st(max_bands=2, max_exp=3, max_src=3, maxsize=10, custom_spline=False))
        for e in sc["exps"]:
            e["nx"], e["ny"] = draw(st.tuples(st.integers(120, 230), st.integers(120, 230)))
            e["sip"] = 0.0
        for i, s in enumerate(sc["sources"]):
            s["dx"], s["dy"] = draw(rnd(-2.5, 2.5)), draw(rnd(-2.5, 2.5))
    elif kind == "manysrc":
        n = draw(st.integers(13, 30))
        sc = draw(scene_st(max_bands=2, max_exp=2, nmin_src=1, max_src=1, maxsize=14))
        nb = len(sc["bands"])
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        sc["sources"] = [dict(dx=round(rs.uniform(-.4, .4), 4), dy=round(rs.uniform(-.4, .4), 4), q=round(rs.uniform(.3, 1), 3), pa=round(rs.uniform(-1.6, 1.6), 3),
                              sersic=round(rs.uniform(.9, 5.5), 3), rhalf=round(rs.uniform(.04, .4), 3), flux=[round(rs.uniform(1, 100), 2) for _ in range(nb)])
                         for _ in range(n)]
    elif kind == "manyband":
        nb = draw(st.integers(6, 30))
        sc = draw(scene_st(max_bands=1, max_exp=1, max_src=2, maxsize=10))
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        names = [(BANDS + MOREBANDS)[i] for i in rs.permutation(30)[:nb]]
        e0, p0 = sc["exps"][0], sc["psfs"][0]
        sc["bands"] = names
        sc["exps"] = [dict(e0, band=b, seed=e0["seed"] + b, rot=round(e0["rot"] + 11.0 * b, 2), nx=8 + (b * 5) % 7, ny=8 + (b * 3) % 5) for b in rs.permutation(nb)]
        for e in sc["exps"]:
            e["band"] = int(e["band"])
        sc["psfs"] = [dict(p0, base=[[g[0], g[1], g[2], g[3] * (1 + 0.02 * b), g[4], g[5]] for g in p0["base"]], seed=p0["seed"] + b) for b in range(nb)]
        for s in sc["sources"]:
            s["flux"] = [round(rs.uniform(1, 100), 2) for _ in range(nb)]
    elif kind == "manyexp":
        sc = draw(scene_st(max_bands=3, max_exp=3, max_src=2, maxsize=10))
        n = draw(st.integers(8, 40))
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        e0 = sc["exps"]
        sc["exps"] = e0 + [dict(e0[rs.randint(len(e0))], seed=int(rs.randint(99999)), rot=round(rs.uniform(-180, 180), 2), nx=int(rs.randint(5, 11)), ny=int(rs.randint(5, 11)),
                                dx=round(rs.uniform(-3, 3), 3), dy=round(rs.uniform(-3, 3), 3)) for _ in range(n)]
        sc["exps"] = [sc["exps"][i] for i in rs.permutation(len(sc["exps"]))]
    elif kind == "flux":
        sc = draw(scene_st(maxsize=14))
        for s in sc["sources"]:
            s["flux"] = [draw(st.sampled_from([-f, -f, 1e-3 * f, 1e3 * f, 0.0])) for f in s["flux"]]
    elif kind == "psf":
        # undersampled, broad or skewed PSFs, with negative components, of up to eight gaussians
        # (no distortion: with gaussians this narrow the error of the local linear map would show)
        sc = draw(scene_st(maxsize=14, max_src=2, sip=False))
        for p in sc["psfs"]:
            lo, hi = draw(st.sampled_from([(0.22, 0.5), (0.25, 1.5), (3.0, 9.0), (0.5, 4.0)]))
            base = []
            for _ in range(draw(st.integers(1, 8))):
                base.append(draw(st.tuples(rnd(0.02, 1.0), rnd(-2, 2), rnd(-2, 2), rnd(lo, hi), rnd(lo, hi), rnd(-0.9, 0.9)).map(list)))
            for g in base[1:]:
                g[0] *= draw(st.sampled_from([1, 1, -0.3]))
            p["base"] = base
    elif kind == "off":
        sc = draw(scene_st(maxsize=16))
        for s in sc["sources"]:
            s["dx"], s["dy"] = draw(rnd(-1.5, 1.5)), draw(rnd(-1.5, 1.5))
    else:
        sc = draw(scene_st(maxsize=10, max_exp=5))
        for e in sc["exps"]:
            e["nx"], e["ny"] = draw(st.tuples(st.integers(1, 5), st.integers(1, 5)))
    sc["extreme"] = kind
    return sc


# ---------------------------------------------------------------- spline tables

def spline_table(case):
    """(ngrid, rgrid, amplitudes[nn, nr, nrad], radii) of a case."""
    sp = case["spline"]
    if sp is None:
        with h5py.File(BIG_SPLINE, "r") as d:
            n, r, A, radii = d["nsersic"][:], d["rh"][:], d["amplitudes"][:], d["radii"][:]
        ng, rg = np.unique(n), np.unique(r)
        return ng, rg, A.reshape(len(ng), len(rg), -1), radii
    rs = np.random.RandomState(sp["seed"])
    ng = np.linspace(0.8, 6.2, 7)
    rg = np.linspace(0.0, 1.0, 9)
    k = sp["nrad"]
    radii = np.sort(rs.uniform(0.01, 0.5, k))
    if rs.rand() < 0.5:
        radii[0] = 0.0
    c = rs.uniform(0.2, 1.0, (k, 5))
    N, R = np.meshgrid(ng, rg, indexing="ij")
    A = np.array([c[i, 0] + 0.3 * c[i, 1] * np.sin(N * c[i, 2] + i) * np.cos(2 * R * c[i, 3]) + 0.2 * c[i, 4] * R
                  for i in range(k)])
    A = np.moveaxis(A, 0, -1) / k
    return ng, rg, A, radii


_SPL = {}


class Amps:
    """Reference interpolation of the tabulated amplitudes."""

    def __init__(self, case):
        ng, rg, A, self.radii = spline_table(case)
        self.spl = [RectBivariateSpline(ng, rg, A[..., i]) for i in range(A.shape[-1])]

    def __call__(self, n, r, dn=0, dr=0):
        return np.array([float(s(n, r, dx=dn, dy=dr)[0, 0]) for s in self.spl])


def amps_for(case):
    if case["spline"] is None:
        if "big" not in _SPL:
            _SPL["big"] = Amps(case)
        return _SPL["big"]
    return Amps(case)


def write_spline(case, path):
    ng, rg, A, radii = spline_table(case)
    N, R = np.meshgrid(ng, rg, indexing="ij")
    with h5py.File(path, "w") as h:
        h["nsersic"] = N.ravel()
        h["rh"] = R.ravel()
        h["amplitudes"] = A.reshape(-1, A.shape[-1])
        h["radii"] = radii


# ---------------------------------------------------------------- PSF stores

PSF_DT = np.dtype([(c, np.float32) for c in ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"]]
                  + [("sersic_bin", np.int32)])


def psf_table(psf, nrad):
    """Flat PSF table of one band: gaussians of every radius bin, in shuffled order."""
    rs = np.random.RandomState(psf["seed"])
    rows = []
    for k in range(nrad):
        base = psf["base"]
        ng = len(base)
        if psf["drop"] and ng > 1 and (k % (psf["drop"] + 1)) == psf["drop"]:
            ng -= 1  # the number of gaussians may depend on the radius bin
        for g in range(ng):
            a, x, y, sx, sy, rho = base[g]
            j = 1 + psf["jitter"] * rs.uniform(-1, 1, 5)
            sx, sy = sx * j[0], sy * j[1]
            rows.append((a * j[2], x * j[3], y * j[4], sx**2, sy**2, rho * sx * sy, k))
    tab = np.array(rows, dtype=PSF_DT)
    if psf["jitter"]:
        tab = tab[rs.permutation(len(tab))]
    return tab


def write_psfstore(case, path):
    with h5py.File(path, "w") as h:
        for b, psf in zip(case["bands"], case["psfs"]):
            tab = psf_table(psf, case["nrad"])
            g = h.create_group(b)
            g.create_dataset("parameters", data=tab[None, :])
            g.attrs["n_psf_per_source"] = len(tab)


# ---------------------------------------------------------------- images

def make_header(case, e):
    """FITS header with a TAN (or TAN-SIP) WCS; zero-indexed centre near the image centre."""
    hdr = fits.Header()
    s = e["scale"] / 3600.0
    th = np.deg2rad(e["rot"])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    M = R @ np.diag([e["parity"] * s, s * e["aspect"]])
    sip = e["sip"] != 0
    hdr["CTYPE1"] = "RA---TAN-SIP" if sip else "RA---TAN"
    hdr["CTYPE2"] = "DEC--TAN-SIP" if sip else "DEC--TAN"
    hdr["CRVAL1"], hdr["CRVAL2"] = case["ra0"], case["dec0"]
    hdr["CRPIX1"] = (e["nx"] + 1) / 2.0 + e["dx"]
    hdr["CRPIX2"] = (e["ny"] + 1) / 2.0 + e["dy"]
    hdr["CUNIT1"] = hdr["CUNIT2"] = "deg"
    hdr["CD1_1"], hdr["CD1_2"], hdr["CD2_1"], hdr["CD2_2"] = M[0, 0], M[0, 1], M[1, 0], M[1, 1]
    if sip:
        c = e["sip"]
        hdr["A_ORDER"], hdr["B_ORDER"] = 2, 2
        hdr["A_2_0"], hdr["A_1_1"], hdr["A_0_2"] = c, -0.5 * c, 0.3 * c
        hdr["B_2_0"], hdr["B_1_1"], hdr["B_0_2"] = -0.4 * c, 0.6 * c, c
    hdr["FILTER"] = case["bands"][e["band"]]
    return hdr


def noise_image(e, level):
    rs = np.random.RandomState(e["seed"])
    return (rs.normal(0, 1, (e["nx"], e["ny"])) * level).astype(np.float32)


def unc_image(e, level):
    rs = np.random.RandomState(e["seed"] + 1)
    return (level * rs.uniform(0.5, 2.0, (e["nx"], e["ny"]))).astype(np.float32)


def write_fits(path, data_xy, unc_xy, hdr):
    """data_xy[x, y]; stored transposed, as FITS images are."""
    hdul = fits.HDUList([fits.PrimaryHDU(),
                         fits.ImageHDU(np.ascontiguousarray(data_xy.T), header=hdr, name="SCI"),
                         fits.ImageHDU(np.ascontiguousarray(unc_xy.T), header=hdr, name="ERR")])
    hdul.writeto(path, overwrite=True)


class SceneFiles:
    """Files of a case in a scratch directory (removed by close())."""

    def __init__(self, case, data=None, unc=None, root=None, names=None):
        self.dir = tempfile.mkdtemp(prefix="scene-", dir=root)
        self.case = case
        self.psf = os.path.join(self.dir, "psf.h5")
        write_psfstore(case, self.psf)
        if case["spline"] is None:
            self.spline = BIG_SPLINE
        else:
            self.spline = os.path.join(self.dir, "spline.h5")
            write_spline(case, self.spline)
        self.data = data if data is not None else [noise_image(e, case["noise"]) for e in case["exps"]]
        self.unc = unc if unc is not None else [unc_image(e, case["noise"]) for e in case["exps"]]
        self.hdrs = [make_header(case, e) for e in case["exps"]]
        self.files = []
        for i, e in enumerate(case["exps"]):
            p = os.path.join(self.dir, (names[i] if names else "im%02d.fits" % i))
            write_fits(p, self.data[i], self.unc[i], self.hdrs[i])
            self.files.append(p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def catalog(case, bands=None, sources=None, dtype=np.float64, extra=()):
    bands = case["bands"] if bands is None else bands
    srcs = case["sources"] if sources is None else sources
    cols = ["id"] + SHAPES + list(bands)
    dt = [("id", np.int32)] + [(c, dtype) for c in cols[1:]] + list(extra)
    cat = np.zeros(len(srcs), dtype=np.dtype(dt))
    for i, s in enumerate(srcs):
        ra, dec = source_sky(case, s)
        cat[i]["id"] = i
        cat[i]["ra"], cat[i]["dec"] = ra, dec
        for c in ["q", "pa", "sersic", "rhalf"]:
            cat[i][c] = s[c]
        for b in bands:
            cat[i][b] = s["flux"][case["bands"].index(b)]
    return cat


def source_sky(case, s):
    dec = case["dec0"] + s["dy"] / 3600.0
    ra = case["ra0"] + s["dx"] / 3600.0 / np.cos(np.deg2rad(case["dec0"]))
    return ra, dec


BACKEND = "cpu"     # P33 runs scenes on the emulated GPU


def patch_class(backend=None):
    from forcepho.patches import FITSPatch, CPUPatchMixin
    from forcepho.patches.device_patch import GPUPatchMixin

    class Patcher(FITSPatch, GPUPatchMixin if (backend or BACKEND) == "gpu" else CPUPatchMixin):
        pass
    return Patcher


def make_patch(case, files, allbands=None, region=None, fitsfiles=None, **kw):
    """A built FITS patch.  Default band order: the order in the case."""
    P = patch_class()
    if case["exps"][0]["seed"] % 2:
        kw = dict(dict(return_residual=True), **kw)
    p = P(fitsfiles=files.files if fitsfiles is None else fitsfiles, psfstore=files.psf,
          splinedata=files.spline, **kw)
    p.build_patch(region=region, sourcecat=None, allbands=case["bands"] if allbands is None else allbands)
    return p


# ---------------------------------------------------------------- reference model

def local_astrometry(wcs, ra, dec):
    """pixel position, d(pix)/d(sky degrees), d(pix)/d(arcsec on the sky), by central differences."""
    c = np.cos(np.deg2rad(dec))
    h = 2e-5  # degrees
    x0, y0 = wcs.all_world2pix(ra, dec, 0, tolerance=1e-10, maxiter=50)
    xp, yp = wcs.all_world2pix([ra + h / c, ra - h / c, ra, ra], [dec, dec, dec + h, dec - h], 0,
                               tolerance=1e-10, maxiter=50)
    CW = np.array([[(xp[0] - xp[1]) / (2 * h / c), (xp[2] - xp[3]) / (2 * h)],
                   [(yp[0] - yp[1]) / (2 * h / c), (yp[2] - yp[3]) / (2 * h)]])
    D = CW @ np.diag([1 / c, 1.0]) / 3600.0
    return np.array([float(x0), float(y0)]), CW, D


class RefScene:
    """Double-precision model of a case.  refpos: sky positions at which astrometry is linearised."""

    def __init__(self, case, sources=None, wcses=None, refpos=None):
        self.case = case
        self.sources = case["sources"] if sources is None else sources
        self.wcs = wcses if wcses is not None else [WCS(make_header(case, e)) for e in case["exps"]]
        self.amps = amps_for(case)
        self.psf = [psf_table(p, case["nrad"]) for p in case["psfs"]]
        self.sky = [source_sky(case, s) for s in self.sources]
        self.refpos = refpos if refpos is not None else self.sky
        self.astro = [[local_astrometry(w, *rp) for rp in self.refpos] for w in self.wcs]

    def params(self):
        """[nsrc][nb + 6] parameter table: fluxes then ra, dec, q, pa, sersic, rhalf."""
        return np.array([list(s["flux"]) + [sky[0], sky[1], s["q"], s["pa"], s["sersic"], s["rhalf"]]
                         for s, sky in zip(self.sources, self.sky)])

    def source_image(self, e, i, par, x=None, y=None, amps=None, env=False):
        """Unit-flux image of source i in exposure e.  par: dra, ddec (from refpos), q, pa (may be complex)."""
        ex = self.case["exps"][e]
        if x is None:
            x, y = np.meshgrid(np.arange(ex["nx"]), np.arange(ex["ny"]), indexing="ij")
        dra, ddec, q, pa = par
        pos, CW, D = self.astro[e][i]
        cx = pos[0] + CW[0, 0] * dra + CW[0, 1] * ddec
        cy = pos[1] + CW[1, 0] * dra + CW[1, 1] * ddec
        c, s = np.cos(pa), np.sin(pa)
        R = np.array([[c, -s], [s, c]])
        T = D @ R @ np.array([[1 / q, 0 * q], [0 * q, q]])
        TT = T @ T.T
        psf = self.psf[ex["band"]]
        rad2 = self.amps.radii**2
        k = psf["sersic_bin"]
        f64 = {n: psf[n].astype(np.float64) for n in psf.dtype.names}
        Sxx = rad2[k] * TT[0, 0] + f64["Cxx"]
        Syy = rad2[k] * TT[1, 1] + f64["Cyy"]
        Sxy = rad2[k] * TT[0, 1] + f64["Cxy"]
        det = Sxx * Syy - Sxy**2
        Fxx, Fyy, Fxy = Syy / det, Sxx / det, -Sxy / det
        w = f64["amp"] * amps[k] / (2 * np.pi * np.sqrt(det))
        dx = x[..., None] - (cx + f64["xcen"])
        dy = y[..., None] - (cy + f64["ycen"])
        vx = Fxx * dx + Fxy * dy
        vy = Fyy * dy + Fxy * dx
        arg = dx * vx + dy * vy
        if env == "cut":
            # components are dropped beyond 6 sigma: what that can remove from a pixel
            return (np.abs(w) * 6e-8 * (arg > 34)).sum(-1)
        g = np.exp(-0.5 * arg) * (1 + (vx**2 + vy**2 - Fxx - Fyy) / 24.0)
        if env:
            # absolute contributions, plus the dropped tails in units of the 5e-4 tolerance
            # (three times as much with distortion: the local matrix comes from finite differences)
            return (np.abs(w) * (np.abs(g) + 1.2e-4 * (arg > 34))).sum(-1) * (3.0 if ex["sip"] else 1.0)
        return (w * g).sum(-1)

    def rel(self, i, row, nb):
        ra, dec, q, pa = row[nb:nb + 4]
        return (ra - self.refpos[i][0], dec - self.refpos[i][1], q, pa)

    def image(self, e, table=None, env=False, xy=None):
        table = self.params() if table is None else table
        nb = len(self.case["bands"])
        b = self.case["exps"][e]["band"]
        x, y = xy if xy is not None else (None, None)
        tot = 0.0
        for i, row in enumerate(table):
            a = self.amps(row[nb + 4], row[nb + 5])
            im = self.source_image(e, i, self.rel(i, row, nb), amps=a, env=env, x=x, y=y)
            tot = tot + (abs(row[b]) if env else row[b]) * im
        return tot

    def image_derivs(self, e, table=None):
        """d image / d (flux_b, ra, dec, q, pa, sersic, rhalf) for each source: [nsrc][7] images."""
        table = self.params() if table is None else table
        nb = len(self.case["bands"])
        b = self.case["exps"][e]["band"]
        out = []
        for i, row in enumerate(table):
            n, r = row[nb + 4], row[nb + 5]
            a = self.amps(n, r)
            p = self.rel(i, row, nb)
            unit = self.source_image(e, i, p, amps=a)
            ders = [unit]
            for j in range(4):
                h = 1e-30
                pc = [complex(v) for v in p]
                pc[j] += 1j * h
                ders.append(row[b] * np.imag(self.source_image(e, i, pc, amps=a)) / h)
            for j in range(2):
                hh = 1e-5
                up = self.amps(n + hh * (j == 0), r + hh * (j == 1))
                dn = self.amps(n - hh * (j == 0), r - hh * (j == 1))
                ders.append(row[b] * self.source_image(e, i, p, amps=(up - dn) / (2 * hh)))
            out.append(ders)
        return out


def exposure_order(case, allbands):
    """Exposure indices in the order a patch holds them: by requested band, then file order."""
    order = []
    for b in allbands:
        order += [i for i, e in enumerate(case["exps"]) if case["bands"][e["band"]] == b]
    return order


def real_pixels(patch):
    """For each exposure of a patch: integer coordinates and mask of real (non-padding) pixels."""
    xs, ys = patch.split_pix("xpix"), patch.split_pix("ypix")
    return [(x.astype(int), y.astype(int), (x >= 0) & (y >= 0)) for x, y in zip(xs, ys)]
