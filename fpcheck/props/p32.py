"""P32: region files for display."""
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["the regions package defines what a region file means (angles from the longitude axis, width before height); "
               "ellipses rounder than b/a = 0.95 have no orientation to compare"]


def case_st():
    src = st.fixed_dictionaries(dict(x=L.rnd(-60, 60), y=L.rnd(-60, 60), q=st.one_of(L.rnd(0.4, 0.96), st.just(1.0)), pa=L.rnd(-1.8, 1.8, 4),
                                     n=L.rnd(1, 5), rh=L.rnd(0.03, 0.6, 3), f=L.rnd(-3, 200), roi=L.rnd(0.2, 3)))
    return st.fixed_dictionaries(dict(ra0=st.one_of(L.rnd(1, 359), st.just(0.0)), dec0=L.rnd(-75, 75), src=L.mostly(st.lists(src, min_size=1, max_size=8), st.lists(src, min_size=15, max_size=60)),
                                      size=st.sampled_from(["roi", "given", "file"]), ell=st.sampled_from([True, True, True, False]), ids=st.sampled_from(["int", "str"]),
                                      showid=st.booleans(), colors=st.booleans(), iso=st.one_of(st.none(), L.rnd(0.5, 30, 2)), rot=L.rnd(0, 360, 0), flip=st.booleans(),
                                      npatch=L.mostly(st.integers(0, 12), st.integers(13, 150)), seed=st.integers(0, 9999)))


def catalog(case):
    from forcepho.superscene import sourcecat_dtype
    src = case["src"]
    base = sourcecat_dtype(bands=["F090W", "F200W"])
    dt = [("id", "S8")] + [d for d in base.descr if d[0] != "id"] if case["ids"] == "str" else base
    c = np.zeros(len(src), dtype=dt)
    k = np.cos(np.deg2rad(case["dec0"]))
    c["ra"] = [(case["ra0"] + s["x"] / 3600 / k) % 360 for s in src]
    c["dec"] = [case["dec0"] + s["y"] / 3600 for s in src]
    for a, b in (("q", "q"), ("pa", "pa"), ("sersic", "n"), ("rhalf", "rh"), ("roi", "roi"), ("F090W", "f")):
        c[a] = [s[b] for s in src]
    c["F200W"] = 2 * c["F090W"] + 1
    ids = np.random.RandomState(case["seed"]).permutation(5000)[:len(src)]
    c["id"] = ids if case["ids"] == "int" else [("g%d" % i).encode() for i in ids]
    return c


def pixel_axes(case, ra, dec):
    """An image around the source, and the direction in it of a step along (dE, dN)."""
    w = WCS(naxis=2)
    w.wcs.ctype, w.wcs.crval, w.wcs.crpix = ["RA---TAN", "DEC--TAN"], [ra, dec], [50.0, 60.0]
    t = np.deg2rad(case["rot"])
    w.wcs.cd = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]) @ np.diag([1e-5 * (1 if case["flip"] else -1), 1e-5])

    def direction(pa):
        h = 1e-6
        p = np.array(w.all_world2pix([ra, ra + h * np.cos(pa) / np.cos(np.deg2rad(dec))], [dec, dec + h * np.sin(pa)], 0))
        d = p[:, 1] - p[:, 0]
        return np.arctan2(d[1], d[0])
    return w, direction


def text_of(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def same(case, regs, cat, size, labelled, tol):
    check(len(regs) == len(cat), "%d regions for %d sources", len(regs), len(cat))
    for i, r in enumerate(regs):
        row = cat[i]
        c = r.center.fk5 if hasattr(r.center, "fk5") else r.center
        dra = (c.ra.deg - row["ra"] + 180) % 360 - 180
        check(abs(dra) < tol and abs(c.dec.deg - row["dec"]) < tol, "region %d is at %s, %s, its source at %s, %s", i, c.ra.deg, c.dec.deg, row["ra"], row["dec"])
        q = row["q"] if case["ell"] or size is not None and case["size"] == "file" else 1.0
        a, b = size[i] / q, size[i] * q
        wd, ht = r.width.to_value("arcsec"), r.height.to_value("arcsec")
        check(abs(wd * ht - a * b) <= 1e-4 * a * b + 1e-6 and abs(max(wd, ht) - a) <= 1e-4 * a + 1e-6, "region %d has axes %s, %s; size %s and sqrt(b/a) %s give %s, %s", i, wd, ht, size[i], q, a, b)
        if q < 0.95:
            if case["flip"]:
                continue
            w, direction = pixel_axes(case, row["ra"], row["dec"])
            p = r.to_pixel(w)
            got = p.angle.to_value("rad") + (0 if p.width >= p.height else np.pi / 2)
            want = direction(row["pa"])
            off = abs((got - want + np.pi / 2) % np.pi - np.pi / 2)
            check(off < 2e-3, "the major axis of region %d points %s degrees away from that of its source (pa %s)", i, np.rad2deg(off), row["pa"])
        if labelled:
            check(str(r.meta.get("text")) in (text_of(row["id"]), str(row["id"])), "label %s of source %s", r.meta.get("text"), row["id"])


def body(case, info):
    from forcepho.utils.ds9 import annotate_regions, cat_to_regions
    cat = catalog(case)
    keep = cat.copy()
    n = len(cat)
    rs = np.random.RandomState(case["seed"])
    d = tempfile.mkdtemp()
    try:
        if case["size"] == "file":
            source_file(case, cat, d)
        else:
            roi = None if case["size"] == "roi" else rs.uniform(0.2, 3, n)
            arg = cat
            if rs.randint(2):
                arg = os.path.join(d, "cat.fits")
                fits.writeto(arg, cat)
            regs = cat_to_regions(arg, roi=roi, ellipse=case["ell"], showid=case["showid"])
            same(case, regs, cat, cat["roi"] if roi is None else roi, case["showid"], 1e-9)
            if case["colors"]:
                cols = [["red", "blue", "cyan"][i % 3] for i in range(n)]
                out = annotate_regions(regs, ids=list(range(n)), colors=cols)
                check([r.visual["color"] for r in out] == cols and [r.meta["text"] for r in out] == [str(i) for i in range(n)], "annotations")
        check(np.array_equal(cat, keep), "the catalog changed")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.label(case["size"], "iso" if case["iso"] else "rhalf")
    info.trivial_if(n < 2)


def source_file(case, cat, d):
    """The region file of a run."""
    from regions import Regions
    from scipy.special import gamma, gammaincinv
    from forcepho import postprocess as PP
    fits.writeto(os.path.join(d, "outscene_run.fits"), cat)
    kw = dict(isophote=("F200W", case["iso"])) if case["iso"] else {}
    with np.errstate(all="ignore"):
        size = cat["rhalf"].astype(float)
        if case["iso"]:
            # the radius at which a Sersic profile of that flux reaches the isophote; else the half-light radius
            f, nn, rh = cat["F200W"], cat["sersic"], cat["rhalf"]
            b = gammaincinv(2 * nn, 0.5)
            ie = f / (rh ** 2 * 2 * np.pi * nn * np.exp(b) * b ** (-2 * nn) * gamma(2 * nn))
            x = 1 - np.log(case["iso"] / ie) / b
            size = np.where(x > 0, rh * np.abs(x) ** nn, rh)
            if np.any(np.abs(x) < 1e-9):
                return
        if np.any(size < 1e-3):
            return
        PP.write_sourcereg(d, slist="s.reg", showid=case["showid"], **kw)
    regs = Regions.read(os.path.join(d, "image", "s.reg"), format="ds9")
    same(case, list(regs), cat, size, case["showid"], 1e-7)


def patch_body(case, info):
    """Circles of the patches of a run."""
    from types import SimpleNamespace as NS
    from forcepho import postprocess as PP
    from forcepho.fitting import Result
    from forcepho.region import CircularRegion
    from regions import Regions
    rs = np.random.RandomState(case["seed"])
    d = tempfile.mkdtemp()
    n = case["npatch"]
    try:
        want = []
        for k in range(n):
            reg = CircularRegion((case["ra0"] + rs.uniform(-0.1, 0.1)) % 360, case["dec0"] + rs.uniform(-0.1, 0.1), rs.uniform(1, 30) / 3600)
            want.append((reg.ra, reg.dec, reg.radius))
            r = Result()
            r.chain = rs.normal(size=(2, 7))
            act = catalog(dict(case, src=case["src"][:1]))
            patch = NS(bandlist=["F090W"], patch_reference_coordinates=np.zeros(2), npix=1, epaths=["x"])
            model = NS(patch=patch, scene=NS(sources=[NS(SHAPE_COLS=list(L.SHAPES))]), ncall=3)
            r.ndim = 7
            r.starting_position = r.chain[0].copy()
            r.fill(reg, act, None, model, bounds=None, patchID=k)
            r.dump_to_h5(os.path.join(d, "patch%d_samples.h5" % k))
        names = [os.path.join(d, "patch%d_samples.h5" % k) for k in range(n)]
        rs.shuffle(names)
        out = os.path.join(d, "p.reg")
        PP.write_patchreg(list(names), plist=out)
        regs = list(Regions.read(out, format="ds9")) if n else []
        got = [(r.center.ra.deg, r.center.dec.deg, r.radius.to_value("deg")) for r in regs]
        check(len(got) == n and np.allclose(sorted(got), sorted(want), rtol=0, atol=1e-9), "patch circles %s, expected %s", got, want)
        check(len({r.meta.get("text") for r in regs}) == n, "patch labels are not distinct")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.trivial_if(n < 2)


def subs():
    return [Sub("sources", case_st, body, quick=700, shards=6, budget=45, rule="catalogs turned into ellipses, directly, from a file, and as the region file of a run (read back)",
                nontrivial_rule="at least two sources"),
            Sub("patches", case_st, patch_body, quick=120, shards=2, budget=30, rule="patch results turned into a file of circles", nontrivial_rule="at least two patches")]
