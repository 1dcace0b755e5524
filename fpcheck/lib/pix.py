"""Regions, exposures and the brute-force pixel selection they imply."""
import numpy as np
from astropy.wcs import WCS
from hypothesis import strategies as st

from . import scene as L

ARC = 3600.0


def region_st(none=True, big=1.5):
    circ = st.fixed_dictionaries(dict(kind=st.just("circle"), dx=L.rnd(-0.4, 0.4), dy=L.rnd(-0.4, 0.4),
                                      r=L.rnd(0.04, big)))
    rect = st.fixed_dictionaries(dict(kind=st.just("rect"), dx=L.rnd(-0.4, 0.4), dy=L.rnd(-0.4, 0.4),
                                      w=L.rnd(0.04, big), h=L.rnd(0.04, big)))
    opts = [circ, rect]
    if none:
        opts.append(st.just(dict(kind="none")))
    return st.one_of(*opts)


class RefRegion:
    """The geometry of a generated region, computed independently of forcepho.region."""

    def __init__(self, case, reg):
        self.kind = reg["kind"]
        c = np.cos(np.deg2rad(case["dec0"]))
        if self.kind == "none":
            return
        self.ra = case["ra0"] + reg["dx"] / ARC / c
        self.dec = case["dec0"] + reg["dy"] / ARC
        if self.kind == "circle":
            self.r = reg["r"] / ARC
            cc = np.cos(np.deg2rad(self.dec))
            self.box = (self.ra - self.r / cc, self.ra + self.r / cc, self.dec - self.r, self.dec + self.r)
        else:
            w, h = reg["w"] / ARC / c, reg["h"] / ARC
            self.box = (self.ra - w, self.ra + w, self.dec - h, self.dec + h)

    def build(self):
        from forcepho.region import CircularRegion, RectangularRegion
        if self.kind == "none":
            return None
        if self.kind == "circle":
            return CircularRegion(self.ra, self.dec, self.r)
        return RectangularRegion(*self.box)

    def corners(self):
        a, b, c, d = self.box
        return np.array([a, b, b, a]), np.array([c, c, d, d])

    def points_in(self, x, y, wcs):
        """(definitely inside, definitely outside) for pixel-coordinate points."""
        if self.kind == "none":
            t = np.ones(np.shape(x), bool)
            return t, ~t
        if self.kind == "circle":
            xc, yc = wcs.all_world2pix(self.ra, self.dec, 0)
            xr, yr = wcs.all_world2pix(self.ra, self.dec + self.r, 0)
            r = np.hypot(xc - xr, yc - yr)
            d = np.hypot(x - xc, y - yc)
            return d < r * (1 - 1e-5) - 1e-5, d > r * (1 + 1e-5) + 1e-5
        sh = np.shape(x)
        ra, dec = wcs.all_pix2world(np.ravel(x), np.ravel(y), 0)
        ra, dec = ra.reshape(sh), dec.reshape(sh)
        ra = (ra - self.ra + 180) % 360 - 180 + self.ra
        m = 1e-9
        a, b, c, d = self.box
        ins = (ra > a + m) & (ra < b - m) & (dec > c + m) & (dec < d - m)
        out = (ra < a - m) | (ra > b + m) | (dec < c - m) | (dec > d + m)
        return ins, out

    def cells(self, x0, y0, step, wcs):
        """Cells whose lower left points are x0, y0: does any corner lie in the region?  (yes, no, neither=ambiguous)"""
        yes = np.zeros(np.shape(x0), bool)
        no = np.ones(np.shape(x0), bool)
        for ox in (0, step):
            for oy in (0, step):
                i, o = self.points_in(x0 + ox, y0 + oy, wcs)
                yes |= i
                no &= o
        return yes, no

    def exposure(self, wcs, nx, ny, around=True):
        """True / False / None (too close to call): is the exposure selected by the bounding box rule?"""
        if self.kind == "none":
            return True
        bx, by = wcs.all_world2pix(*self.corners(), 0)
        m = 1e-5
        ins = np.any((bx > m) & (bx < nx - m) & (by > m) & (by < ny - m))
        out = np.all((bx < -m) | (bx > nx + m) | (by < -m) | (by > ny + m))
        if ins:
            return True
        if not out:
            return None
        if around:
            sur = (bx.max() > nx + m) & (bx.min() < -m) & (by.max() > ny + m) & (by.min() < -m)
            nsur = (bx.max() < nx - m) | (bx.min() > m) | (by.max() < ny - m) | (by.min() > m)
            if sur:
                return True
            if not nsur:
                return None
        return False


@st.composite
def images_st(draw, max_exp=5, maxsize=22, square=False, sip=True, large=False):
    nb = draw(st.integers(1, 3))
    bands = list(draw(st.permutations(L.BANDS)))[:nb]
    exps = []
    for i in range(draw(st.integers(1, max_exp))):
        e = draw(L.wcs_st(sip=sip, maxsize=maxsize))
        e["dx"], e["dy"] = draw(L.rnd(-9, 9)), draw(L.rnd(-9, 9))
        e["band"] = draw(st.integers(0, nb - 1))
        e["seed"] = draw(st.integers(0, 99999))
        exps.append(e)
    if draw(st.booleans()) and len(exps) < max_exp:
        # an exposure with the pointing of another, but not all else
        e = dict(draw(st.sampled_from(exps)), seed=draw(st.integers(0, 99999)))
        what = draw(st.sampled_from(["rot", "rot", "sip", "size", "band"]))
        if what == "rot":
            e["rot"] = -e["rot"]
        elif what == "sip":
            e["sip"] = 0.0
        elif what == "size":
            e["ny"] += 3
        else:
            e["band"] = draw(st.integers(0, nb - 1))
        exps.append(e)
    kind = draw(st.sampled_from([None] * 20 + ["big", "many", "tall"])) if large else None
    if kind == "big":
        for e in exps:
            f = draw(st.integers(3, 9))
            e.update(nx=e["nx"] * f + e["seed"] % 5, ny=e["ny"] * f, dx=e["dx"] * f, dy=e["dy"] * f, sip=0.0)
    elif kind == "tall":
        # sides as long as those of real detectors
        for e in exps[:2]:
            n = draw(st.integers(4200, 6000))
            e.update(nx=n, ny=8, sip=0.0) if e["seed"] % 2 else e.update(nx=9, ny=n, sip=0.0)
        exps = exps[:2]
    elif kind == "many":
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        for k in range(draw(st.integers(8, 45))):
            exps.append(dict(exps[rs.randint(len(exps))], seed=int(rs.randint(99999)), rot=round(rs.uniform(-180, 180), 2),
                             nx=int(rs.randint(8, 15)), ny=int(rs.randint(8, 15)), band=int(rs.randint(nb)),
                             dx=round(rs.uniform(-6, 6), 3), dy=round(rs.uniform(-6, 6), 3)))
    return dict(bands=bands, ra0=draw(st.one_of(*[L.rnd(5, 355)] * 5, L.rnd(-1e-4, 1e-4, 7))), dec0=draw(L.rnd(-65, 65)), exps=exps)


def check_books(patch, bands_of_exposures, sizes, allbands, check):
    """Exposure and band bookkeeping against the exposures (in patch order) and their pixel counts."""
    ne = len(sizes)
    ub = [b for b in allbands if b in bands_of_exposures]
    check(patch.n_exp == ne and patch.n_bands == len(ub), "n_exp %s n_bands %s, expected %s %s",
          patch.n_exp, patch.n_bands, ne, len(ub))
    check(list(patch.bands) == list(bands_of_exposures), "bands %s expected %s", list(patch.bands), bands_of_exposures)
    check(list(patch.bandlist) == ub, "bandlist %s expected %s", list(patch.bandlist), ub)
    per = [sum(1 for b in bands_of_exposures if b == u) for u in ub]
    check(list(patch.band_N) == per, "band_N %s expected %s", list(patch.band_N), per)
    check(list(patch.n_exp_per_band) == per, "n_exp_per_band %s expected %s", list(patch.n_exp_per_band), per)
    start = np.concatenate([[0], np.cumsum(per)[:-1]])
    check(list(patch.band_start) == list(start), "band_start %s expected %s", list(patch.band_start), list(start))
    check(list(patch.exposure_N) == list(sizes), "exposure_N %s expected %s", list(patch.exposure_N), list(sizes))
    est = np.concatenate([[0], np.cumsum(sizes)[:-1]])
    check(list(patch.exposure_start) == list(est), "exposure_start %s expected %s", list(patch.exposure_start), list(est))
    npb = [sum(n for n, b in zip(sizes, bands_of_exposures) if b == u) for u in ub]
    check(list(patch.band_N_pix) == npb, "band_N_pix %s expected %s", list(patch.band_N_pix), npb)
    check(patch.npix == sum(sizes), "npix %s expected %s", patch.npix, sum(sizes))
    for attr in ("xpix", "data"):
        arr = getattr(patch, attr)
        parts = patch.split_pix(attr)
        check(len(parts) == ne, "split_pix gave %d parts", len(parts))
        for p, s, n in zip(parts, est, sizes):
            check(np.array_equal(p, arr[s:s + n]), "split_pix(%s) part differs", attr)
        parts = patch.split_band(attr)
        check(len(parts) == len(ub), "split_band gave %d parts", len(parts))
        s = 0
        for p, n in zip(parts, npb):
            check(np.array_equal(p, arr[s:s + n]), "split_band(%s) part differs", attr)
            s += n
