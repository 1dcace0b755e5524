"""P11: exposure metadata, position lookup, identifiers and PSF lookup."""
import os
import shutil
import tempfile
from types import SimpleNamespace

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["positions closer than 0.1 pixel to an image edge may go either way",
               "gWCS/asdf storage is not exercised (gwcs is not installed)"]


def add_st():
    return st.fixed_dictionaries(dict(op=st.just("add"), band=st.integers(0, 2), exp=st.integers(0, 3), wcs=L.wcs_st(),
                                      sx=L.rnd(-12, 12), sy=L.rnd(-12, 12), sregion=st.booleans(), cube=st.booleans(),
                                      flip=st.booleans(), long=st.sampled_from([0, 0, 3, 90, 300])))


def op_st():
    find = st.fixed_dictionaries(dict(op=st.just("find"), dx=L.rnd(-1.0, 1.0), dy=L.rnd(-1.0, 1.0),
                                      at=st.one_of(st.none(), st.tuples(st.integers(0, 9), L.rnd(-0.3, 1.3), L.rnd(-0.3, 1.3))
                                                   .map(list)),
                                      order=st.permutations(range(4)), n=st.sampled_from([4, 4, 3, 2, 1])))
    io = st.sampled_from([dict(op="reload", all=False), dict(op="reload", all=True), dict(op="table")])
    return st.one_of(add_st(), add_st(), find, find, io)


@st.composite
def long_st(draw):
    """A survey: many exposures, small and large, with lookups in between."""
    adds = draw(st.lists(add_st(), min_size=1, max_size=3))
    rest = draw(st.lists(op_st(), min_size=2, max_size=8))
    rs = np.random.RandomState(draw(st.integers(0, 9999)))
    big = draw(st.sampled_from([1, 1, 8, 80]))
    ops = []
    for k in range(draw(st.integers(10, 45))):
        a = adds[rs.randint(len(adds))]
        w = dict(a["wcs"], nx=a["wcs"]["nx"] * big + int(rs.randint(6)), ny=a["wcs"]["ny"] * big + int(rs.randint(6)), rot=round(rs.uniform(-180, 180), 2))
        if big > 1:
            w["sip"] = 0.0
        ops.append(dict(a, wcs=w, band=int(rs.randint(3)), exp=int(rs.randint(40)), sx=round(rs.uniform(-12, 12), 3) * big, sy=round(rs.uniform(-12, 12), 3) * big, long=[0, 0, 3][rs.randint(3)]))
    for r in rest:
        ops.insert(rs.randint(1, len(ops) + 1), r)
    return ops


def case_st():
    return st.fixed_dictionaries(dict(ra0=st.one_of(L.rnd(5, 355), L.rnd(-2e-4, 2e-4, 7).map(lambda v: v % 360.0)), dec0=L.rnd(-75, 75), ops=st.one_of(*[st.lists(op_st(), min_size=2, max_size=10)] * 9, long_st())))


def header(case, o):
    e = dict(o["wcs"], band=0)
    hdr = L.make_header(dict(case, bands=[L.BANDS[o["band"]]]), e)
    hdr["CRPIX1"] += o["sx"]
    hdr["CRPIX2"] += o["sy"]
    full = fits.Header()
    full["NAXIS"] = 2
    full["NAXIS1"], full["NAXIS2"] = e["nx"], e["ny"]
    full.update(hdr)
    full["OBJECT"] = "exp %d of %s" % (o["exp"], L.BANDS[o["band"]])
    full["EFFEXPTM"] = 1.5 + o["exp"]
    if o["sregion"]:
        w = WCS(hdr)
        ra, dec = w.all_pix2world([0, 0, e["nx"], e["nx"]], [0, e["ny"], e["ny"], 0], 0)
        p = list(zip(ra, dec))
        if o["flip"]:
            p = p[::-1]
        full["S_REGION"] = "POLYGON ICRS " + " ".join("%.9f %.9f" % q for q in p)
    if o["cube"] and not e["sip"]:
        full["WCSAXES"] = 3
        full["CTYPE3"], full["CRVAL3"], full["CRPIX3"], full["CDELT3"] = "WAVE", 1e-6, 1.0, 1e-9
        full["CUNIT3"] = "m"
        full["CD3_3"] = 1e-9
    n = o.get("long", 0)
    if n:
        # a pipeline header: many cards, long and odd values, cards after the WCS that matter
        for k in range(n):
            full["K%06d" % k] = [k, 0.1 * k, "value %d" % k, bool(k % 2), "it's a string with quotes / and slashes", -1.5e-300][k % 6]
        full["LONGSTR"] = ("x" * 60 + " ") * 3
        full["HISTORY"] = "made up"
        full["COMMENT"] = "nothing to see"
        cards = full.cards[:]
        full = fits.Header([c for c in cards if c.keyword not in ("CRVAL1", "CRVAL2")] + [c for c in cards if c.keyword in ("CRVAL1", "CRVAL2")])
    return full


def body(case, info):
    from forcepho.patches.storage import MetaStore
    d = tempfile.mkdtemp()
    model = {}
    finds = 0
    try:
        ms = MetaStore()
        path = os.path.join(d, "meta.json")
        for k, o in enumerate(case["ops"]):
            if o["op"] == "add":
                hdr = header(case, o)
                key = (L.BANDS[o["band"]], "e%d" % o["exp"])
                if key in model:
                    info.label("replaced")
                ms.add_exposure(SimpleNamespace(hdr=hdr.copy(), band=key[0], expID=key[1]))
                model[key] = (hdr, WCS(hdr, naxis=2))
            elif o["op"] == "reload":
                ms.write_to_file(path)
                ms = MetaStore(path, load_all=o["all"])
                if o["all"]:
                    got = {(b, e) for b in ms.wcs for e in ms.wcs[b]}
                    check(got == set(model), "reloaded WCSes %s, expected %s", got, set(model))
                    for (b, e), (hdr, w) in model.items():
                        same_wcs(ms.wcs[b][e], w, hdr)
            elif o["op"] == "table":
                t = os.path.join(d, "t%d.fits" % k)
                if not model:
                    continue
                ms.to_table(t)
                tab = fits.getdata(t)
                want = sorted((round(h["CRVAL1"], 8), round(h["CRVAL2"], 8), h["EFFEXPTM"], b.strip()) for (b, e), (h, w) in model.items())
                got = sorted((round(float(r["ra"]), 8), round(float(r["dec"]), 8), float(r["effexptm"]), str(r["filter"]).strip()) for r in tab)
                check(got == want, "summary table %s, expected %s", got[:2], want[:2])
            else:
                finds += find(case, ms, model, o, info)
            check(ms.nexp == len(model), "nexp %s, expected %d", ms.nexp, len(model))
        ms.write_to_file(path)
        for hd in (ms.headers, MetaStore(path).headers):
            got = {(b, e) for b in hd for e in hd[b]}
            check(got == set(model), "store holds %s, expected %s", got, set(model))
            for (b, e), (hdr, w) in model.items():
                h = hd[b][e]
                for key in ("FILTER", "OBJECT", "EFFEXPTM", "NAXIS1", "NAXIS2"):
                    check(h[key] == hdr[key], "%s of %s/%s is %r, expected %r", key, b, e, h[key], hdr[key])
                got = {c.keyword: c.value for c in h.cards}
                lost = [c.keyword for c in hdr.cards if not same_value(got.get(c.keyword), c.value)]
                check(not lost, "cards lost from (or changed in) the header of %s/%s: %s", b, e, lost[:5])
                same_wcs(WCS(h, naxis=2), w, hdr)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.trivial_if(finds == 0 or not model)


def same_value(a, b):
    """Equal up to the 20 characters a FITS card has for a number."""
    if isinstance(b, float) and isinstance(a, (int, float)):
        return abs(a - b) <= 1e-11 * abs(b)
    return a == b


def same_wcs(a, b, hdr):
    x, y = np.array([0.0, hdr["NAXIS1"], 3.3]), np.array([0.0, 1.7, hdr["NAXIS2"]])
    pa, pb = a.all_pix2world(x, y, 0), b.all_pix2world(x, y, 0)
    check(np.allclose(pa[0], pb[0], rtol=0, atol=1e-10) and np.allclose(pa[1], pb[1], rtol=0, atol=1e-10),
          "reloaded header describes other coordinates")


def find(case, ms, model, o, info):
    c = np.cos(np.deg2rad(case["dec0"]))
    ra, dec = case["ra0"] + o["dx"] / 3600 / c, case["dec0"] + o["dy"] / 3600
    if o["at"] and model:
        hdr, w = sorted(model.items())[o["at"][0] % len(model)][1]
        ra, dec = [float(v) for v in w.all_pix2world(o["at"][1] * hdr["NAXIS1"], o["at"][2] * hdr["NAXIS2"], 0)]
    allbands = [(L.BANDS[:4])[i] for i in o["order"]][:o["n"]]
    must, may = [], []
    for (b, e), (hdr, w) in model.items():
        if b not in allbands:
            continue
        x, y = w.all_world2pix(ra, dec, 0, quiet=True)
        m = 0.1
        nx, ny = hdr["NAXIS1"], hdr["NAXIS2"]
        if m < x < nx - m and m < y < ny - m:
            must.append((b, e))
        elif -m < x < nx + m and -m < y < ny + m:
            may.append((b, e))
    eps, bands = ms.find_exposures((ra, dec), allbands)
    got = list(zip(bands, eps))
    check(len(eps) == len(bands) and len(set(got)) == len(got), "lookup returned %s", got)
    check(set(must) <= set(got), "lookup at %s, %s misses %s (got %s)", ra, dec, sorted(set(must) - set(got)), got)
    check(set(got) <= set(must) | set(may), "lookup at %s, %s returned %s, which do not cover it", ra, dec, sorted(set(got) - set(must) - set(may)))
    check([allbands.index(b) for b in bands] == sorted(allbands.index(b) for b in bands), "lookup is not in band order: %s", bands)
    info.label("hits-%d" % min(len(must), 3))
    return len(model) > 0


# ---------------------------------------------------------------- identifiers

def ids_st():
    word = st.text("abcxyz019_-", min_size=1, max_size=6)
    return st.fixed_dictionaries(dict(
        filt=st.sampled_from(["F090W", "f150w", "CLEAR"]), det=st.sampled_from(["NRCA1", "NRCB4", "nrcblong"]),
        split=st.lists(st.sampled_from(["F090W", "f150w", "CLEAR", "F444W"]), max_size=2, unique=True),
        dirs=st.lists(word, max_size=2), base=st.text("abcxyz019_-.", min_size=1, max_size=8).filter(lambda s: s.strip(".")), root=st.lists(word, max_size=2), slash=st.booleans(), use=st.booleans()))


def ids_body(case, info):
    from forcepho.patches.storage import header_to_id
    hdr = fits.Header()
    hdr["FILTER"], hdr["DETECTOR"] = case["filt"], case["det"]
    root = "/" + "/".join(["data"] + case["root"])
    name = "/".join([root] + case["dirs"] + [case["base"] + ".fits"])
    if case["use"]:
        if name.count(root) > 1:
            info.trivial_if(True)
            return
        band, exp = header_to_id(hdr, name, framedir=root, split_by_detector=case["split"])
        want = "/".join(case["dirs"] + [case["base"]])
    else:
        band, exp = header_to_id(hdr, name, split_by_detector=case["split"])
        want = case["base"]
    wb = case["filt"].upper() + (case["det"][3].upper() if case["filt"] in case["split"] else "")
    check(band == wb, "band %r, expected %r", band, wb)
    check(exp == want, "exposure id %r, expected %r", exp, want)


# ---------------------------------------------------------------- PSF lookup

def psf_st():
    return st.fixed_dictionaries(dict(nloc=st.sampled_from([1, 2, 3, 4, 5, 7, 9, 25, 64]), seed=st.integers(0, 9999), nb=st.integers(1, 3),
                                      with_loc=st.sampled_from([True, True, True, False]), q=st.lists(st.tuples(L.rnd(0, 100), L.rnd(0, 100)), min_size=1, max_size=4)))


def psf_body(case, info):
    from forcepho.patches.storage import PSF_DTYPE, PSFStore
    from forcepho.utils.wcs import FWCS
    rs = np.random.RandomState(case["seed"])
    d = tempfile.mkdtemp()
    wcs = WCS(naxis=2)
    wcs.wcs.ctype, wcs.wcs.crval, wcs.wcs.crpix = ["RA---TAN", "DEC--TAN"], [rs.uniform(1, 359), rs.uniform(-80, 80)], [30, 40]
    wcs.wcs.cd = np.array([[-1, 0.3], [0.2, 1]]) * 1e-5
    try:
        path = os.path.join(d, "psf.h5")
        tabs = {}
        with h5py.File(path, "w") as h:
            for b in L.BANDS[:case["nb"]]:
                n = rs.randint(1, 9)
                t = np.zeros((case["nloc"], n), dtype=PSF_DTYPE)
                for c in t.dtype.names:
                    t[c] = rs.uniform(0, 5, t.shape)
                g = h.create_group(b)
                g["parameters"] = t
                loc = rs.uniform(0, 100, (2, case["nloc"]))
                if case["with_loc"]:
                    g["detector_locations"] = loc
                tabs[b] = (t, loc)
        store = PSFStore(path)
        for b, (t, loc) in tabs.items():
            check(np.array_equal(store.lookup(b), t[0]), "default PSF of %s is not the first one", b)
            check(np.array_equal(store.get_local_psf(band=b), t[0]), "local PSF of %s without a position is not the first one", b)
            # positions as near to the boundary between two tabulated ones as to anything
            pairs = [(rs.randint(case["nloc"]), rs.randint(case["nloc"]), rs.choice([0.499, 0.501, 0.4999, 0.5001])) for _ in range(4)]
            for xy in list(case["q"]) + [tuple(loc[:, i] + f * (loc[:, j] - loc[:, i])) for i, j, f in pairs]:
                k = 0
                if case["with_loc"]:
                    dist = np.hypot(xy[0] - loc[0], xy[1] - loc[1])
                    k = int(np.argmin(dist))
                    if np.sum(dist < dist[k] + 1e-9) > 1:
                        continue
                check(np.array_equal(store.lookup(b, xy=tuple(xy)), t[k]), "PSF of %s at %s is not the nearest one (%d)", b, xy, k)
                # the same for a source on an image
                w = FWCS(wcs)
                ra, dec = [float(v) for v in wcs.all_pix2world(xy[0], xy[1], 0)]
                if case["with_loc"] and np.sum(dist < dist[k] + 1e-3) > 1:
                    continue
                got = store.get_local_psf(band=b, source=SimpleNamespace(ra=ra, dec=dec), wcs=w)
                check(np.array_equal(got, t[k]), "PSF of %s for a source at pixel %s is not the nearest one (%d)", b, xy, k)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.trivial_if(case["nloc"] == 1 or not case["with_loc"])


def subs():
    return [
        Sub("history", case_st, body, quick=600, shards=5, budget=50,
            rule="histories of adding, replacing, writing, reloading and looking up exposures",
            nontrivial_rule="at least one lookup with exposures present"),
        Sub("ids", ids_st, ids_body, quick=300, shards=1, budget=15, rule="file names and headers to identifiers"),
        Sub("psf", psf_st, psf_body, quick=200, shards=1, budget=20, rule="PSF stores with several positions and bands",
            nontrivial_rule="several positions tabulated"),
    ]
