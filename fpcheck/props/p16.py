"""P16: catalog ingestion."""
import os
import tempfile

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L

ASSUMPTIONS = ["the FILTERS keyword is in the primary header of a catalog file",
               "position angles given to convert_pa are within four half-turns of the supported interval (its max_try)"]

RANGES = dict(rhalf=(0.051, 0.29), q=(0.2, 0.99), sersic=(1.01, 4.99), pa=(-2.0, 2.0))
KEYS = dict(rhalf="rhalf_range", q="sqrtq_range", sersic="sersic_range", pa="pa_range")


def rect_st():
    src = st.fixed_dictionaries(dict(
        ra=L.rnd(0.0, 359.9999, 6), dec=L.rnd(-89, 89, 6),
        rhalf=st.one_of(L.rnd(0.0, 1.0, 4), st.sampled_from([0.051, 0.29, 0.0, 0.05])), q=st.one_of(L.rnd(0.0, 1.3, 4), st.sampled_from([0.2, 0.99, 1.0])),
        sersic=st.one_of(L.rnd(0.3, 8, 3), st.sampled_from([1.01, 4.99, 1.0])), pa=st.one_of(L.rnd(-7, 7, 4), st.sampled_from([0.0, 2.0, -2.0, 1.5707963])),
        flux=st.lists(L.rnd(-50, 1e5, 3), min_size=4, max_size=4), roi=L.rnd(0, 5, 3), id=st.integers(-5, 10 ** 6)))
    rng = st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(
        rhalf=st.tuples(L.rnd(0.01, 0.1, 3), L.rnd(0.2, 2, 2)), q=st.tuples(L.rnd(0.05, 0.5, 3), L.rnd(0.8, 1.0, 3)),
        sersic=st.tuples(L.rnd(0.5, 1.5, 2), L.rnd(3, 6, 2)), pa=st.tuples(L.rnd(-3, -1, 2), L.rnd(1, 3, 2)))))
    return st.fixed_dictionaries(dict(
        src=st.tuples(st.lists(src, min_size=1, max_size=8), st.sampled_from([1] * 12 + [4, 30])).map(lambda t: t[0] * t[1]), nb=st.integers(1, 4), cols=st.permutations(list(range(14))), order=st.permutations(list(range(4))),
        sep=st.sampled_from([",", ", ", " ,"]), single=st.booleans(), optional=st.lists(st.sampled_from(["id", "roi", "n_iter", "n_patch"]), unique=True),
        extra=st.booleans(), file=st.booleans(), rotate=st.booleans(), reverse=st.booleans(), rng=rng,
        bad=st.sampled_from([None] * 8 + ["nan", "inf", "noband", "noshape"]), badcol=st.integers(0, 20), badrow=st.integers(0, 20)))


def build(case):
    bands = [L.BANDS[i] for i in case["order"][:case["nb"]]]
    opt = sorted(case["optional"])
    cols = list(L.SHAPES) + bands + opt + (["extra_a", "extra_name"] if case["extra"] else [])
    cols = [cols[i] for i in case["cols"] if i < len(cols)] + cols[14:]
    ft = np.float32 if case["single"] else np.float64
    dt = []
    for c in cols:
        if c in ("id", "n_iter", "n_patch"):
            dt.append((c, np.int32))
        elif c == "extra_name":
            dt.append((c, "S8"))
        elif c in ("ra", "dec"):
            dt.append((c, np.float64))
        else:
            dt.append((c, ft))
    cat = np.zeros(len(case["src"]), dtype=dt)
    for i, s in enumerate(case["src"]):
        for c in cols:
            if c in bands:
                cat[c][i] = s["flux"][bands.index(c)]
            elif c == "n_iter":
                cat[c][i] = 17 * i
            elif c == "n_patch":
                cat[c][i] = i + 3
            elif c == "extra_a":
                cat[c][i] = -i
            elif c == "extra_name":
                cat[c][i] = "s%d" % i
            else:
                cat[c][i] = s[c]
    return cat, bands, opt


def rect_body(case, info):
    from forcepho.superscene import rectify_catalog
    cat, bands, opt = build(case)
    n = len(cat)
    kw = {}
    rng = dict(RANGES)
    if case["rng"]:
        rng = {k: tuple(v) for k, v in case["rng"].items()}
        kw.update({KEYS[k]: v for k, v in rng.items()})
    if case["rotate"]:
        kw["rotate"] = True
    if case["reverse"]:
        kw["reverse"] = True
    names = [c for c in cat.dtype.names if c in L.SHAPES or c in bands]
    hdr = fits.Header()
    flist = list(bands)
    if case["bad"] in ("nan", "inf"):
        c = names[case["badcol"] % len(names)]
        cat[c][case["badrow"] % n] = np.nan if case["bad"] == "nan" else np.inf
    elif case["bad"] == "noband":
        flist.insert(case["badcol"] % (len(flist) + 1), "F999X")
    elif case["bad"] == "noshape":
        gone = L.SHAPES[case["badcol"] % 6]
        keepcols = [c for c in cat.dtype.names if c != gone]
        new = np.zeros(n, dtype=[(c, cat.dtype[c]) for c in keepcols])
        for c in keepcols:
            new[c] = cat[c]
        cat = new
    hdr["FILTERS"] = case["sep"].join(flist)
    keep = cat.copy()
    if case["file"]:
        fn = tempfile.mktemp(suffix=".fits", dir=".")
        fits.HDUList([fits.PrimaryHDU(header=hdr), fits.BinTableHDU(cat)]).writeto(fn)
        arg = fn
    else:
        arg = (cat, hdr)
    try:
        if case["bad"]:
            try:
                rectify_catalog(arg, **kw)
                refused = False
            except (AssertionError, KeyError, ValueError):
                refused = True
            check(refused, "an unusable catalog (%s) was accepted", case["bad"])
            info.label("refused")
            return
        out, gotbands, header = rectify_catalog(arg, **kw)
    finally:
        if case["file"] and os.path.exists(fn):
            os.remove(fn)
    check(np.array_equal(cat, keep), "the caller's catalog was changed")
    check(list(gotbands) == bands, "bands %s, expected %s", gotbands, bands)
    check(header["FILTERS"].replace(" ", "") == ",".join(bands), "header returned has FILTERS %s", header["FILTERS"])
    check(len(out) == n, "%d sources became %d", n, len(out))
    for c in ["ra", "dec"] + bands + opt:
        check(np.array_equal(np.asarray(out[c], float), np.asarray(cat[c].astype(out[c].dtype), float)), "column %s changed: %s -> %s", c, cat[c].tolist(), out[c].tolist())
    check(np.array_equal(out["source_index"], np.arange(n)), "source_index is %s", out["source_index"].tolist())
    for c in ("is_active", "is_valid"):
        check(c in out.dtype.names, "bookkeeping column %s is missing", c)
    for c in ("id", "roi", "n_iter", "n_patch"):
        if c not in opt:
            check(c in out.dtype.names and not np.any(out[c]), "missing column %s was not filled with zeros", c)
    clipped = 0
    for c in ("rhalf", "q", "sersic", "pa"):
        x = np.asarray(cat[c], float)
        want = np.minimum(np.maximum(x, rng[c][0]), rng[c][1])
        clipped += int(np.sum(want != x))
        if c != "pa":
            check(np.allclose(out[c], want, rtol=1e-12, atol=0), "%s became %s, expected %s", c, out[c].tolist(), want.tolist())
            check(np.all((out[c] >= rng[c][0]) & (out[c] <= rng[c][1])), "%s outside its range", c)
            continue
        if case["rotate"]:
            # orientation turned by 90 degrees, modulo 180
            sg = -1.0 if case["reverse"] else 1.0
            d = (sg * np.asarray(out[c]) - (want + np.pi / 2)) / np.pi
            check(np.allclose(d, np.round(d), atol=1e-9), "position angles %s became %s", want.tolist(), out[c].tolist())
            check(np.all(np.abs(out[c]) <= max(np.pi / 2, abs(rng["pa"][0]), rng["pa"][1]) + 1e-9), "position angle outside the interval: %s", out[c].tolist())
        else:
            sg = -1.0 if case["reverse"] else 1.0
            check(np.allclose(out[c], sg * want, rtol=1e-12, atol=0), "position angles became %s, expected %s", out[c].tolist(), (sg * want).tolist())
    info.label("file" if case["file"] else "array", "clipped" if clipped else "all-in-range")
    info.trivial_if(n == 1 and len(bands) == 1)


# ---- angles
def pa_st():
    ang = st.one_of(L.rnd(-14.0, 14.0, 6), st.sampled_from([k * 0.25 for k in range(-17, 18)]).map(lambda t: ["pi", t]))
    return st.fixed_dictionaries(dict(pa=st.lists(ang, min_size=1, max_size=8), deg=st.booleans(), rotate=st.booleans(), reverse=st.booleans(), f32=st.booleans()))


def pa_body(case, info):
    from forcepho.superscene import convert_pa
    rad = np.array([a if not isinstance(a, (list, tuple)) else a[1] * np.pi for a in case["pa"]], float)
    x = np.rad2deg(rad) if case["deg"] else rad.copy()
    if case["deg"]:
        x = np.round(x, 3)
        rad = np.deg2rad(x)
    tol = 1e-9
    if case["f32"]:
        x = x.astype(np.float32)
        tol = 1e-5
    keep = x.copy()
    kw = dict(from_deg=True) if case["deg"] else {}
    y = convert_pa(x, rotate=case["rotate"], reverse=case["reverse"], **kw)
    check(np.array_equal(x, keep), "the caller's angles were changed")
    y = np.asarray(y, float)
    check(y.shape == x.shape, "shape changed")
    check(np.all(np.abs(y) <= np.pi / 2 + tol), "angles %s (from %s) are outside +-pi/2", y.tolist(), x.tolist())
    want = rad + (np.pi / 2 if case["rotate"] else 0.0)
    if case["reverse"]:
        want = -want
    d = (y - want) / np.pi
    check(np.allclose(d, np.round(d), atol=tol), "%s became %s: not the same orientation", x.tolist(), y.tolist())
    if not case["rotate"] and not case["reverse"]:
        ins = np.abs(rad) <= np.pi / 2 - 1e-5
        check(np.allclose(y[ins], rad[ins], atol=tol), "angles already in the interval were changed")
    info.label("deg" if case["deg"] else "rad", "rotate" if case["rotate"] else "", "reverse" if case["reverse"] else "")
    info.trivial_if(bool(np.all(np.abs(rad) < np.pi / 2)) and not case["rotate"])


# ---- into a scene
def ing_st():
    return st.fixed_dictionaries(dict(base=rect_st(), linked=st.booleans(), flags=st.integers(0, 3), drop=st.booleans()))


def ing_body(case, info):
    from forcepho.superscene import LinkedSuperScene, SuperScene, rectify_catalog
    base = dict(case["base"], bad=None, file=False)
    cat, bands, opt = build(base)
    out, bands, hdr = rectify_catalog((cat, dict(FILTERS=",".join(bands))))
    out["is_active"] = case["flags"] & 1
    out["is_valid"] = case["flags"] >> 1
    out["source_index"] = out["source_index"][::-1]
    cls = LinkedSuperScene if case["linked"] else SuperScene
    if case["drop"]:
        # a catalog without one of the bands is refused
        try:
            cls(sourcecat=out.copy(), bands=list(bands) + ["F999X"], statefile="s.fits")
            ok = False
        except AssertionError:
            ok = True
        check(ok, "a scene accepted a catalog without one of its bands")
    want = out.copy()
    db = cls(sourcecat=out, bands=list(bands), statefile="s.fits", bounds_kwargs=dict(sqrtq_range=(0.1, 1.0), pa_range=(-3, 3)))
    s = db.sourcecat
    check(len(s) == len(cat) == db.n_sources, "number of sources changed")
    for c in list(L.SHAPES) + list(bands) + ["id", "roi", "n_iter", "n_patch"]:
        check(field.same_col(c, s[c], want[c]), "column %s changed on ingestion", c)
        check(field.same_col(c, db.original[c], want[c]), "column %s of the saved original catalog changed", c)
    check(np.array_equal(s["source_index"], np.arange(len(cat))), "source_index not reset")
    check(np.all(s["is_valid"] == 1) and np.all(s["is_active"] == 0), "sources are not all available after ingestion")
    db.check_bounds()
    db.sourcecat["ra"] += 1
    check(field.same_col("ra", db.original["ra"], want["ra"]), "the saved original follows the working catalog")
    info.label(cls.__name__)


def subs():
    return [
        Sub("rectify", rect_st, rect_body, quick=1800, shards=4, rule="catalogs as files or arrays, any column order and types, values in and out of range, unusable ones",
            nontrivial_rule="more than one source or band"),
        Sub("angles", pa_st, pa_body, quick=2500, shards=2, rule="angles in degrees or radians, several turns away, at multiples of pi/4",
            nontrivial_rule="an angle outside the interval, or a rotation"),
        Sub("ingest", ing_st, ing_body, quick=500, shards=2, rule="rectified catalogs put into scenes"),
    ]
