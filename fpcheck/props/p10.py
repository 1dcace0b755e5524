"""P10: the pixel store keeps every pixel; store-backed patches select super-pixels."""
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import pix, scene as L

ASSUMPTIONS = [
    "image sides are multiples of the super-pixel size and equal to the store's nside (ingestion rejects others)",
    "the read handle is closed before another exposure is added, as HDF5 requires",
    "values of zero-weight pixels are unspecified but finite",
    "a super-pixel belongs to a region when one of its four corner pixels lies inside; edges within 1e-5 may go either way"]

BAD = [np.nan, np.inf, -np.inf]


def exposure_st():
    return st.fixed_dictionaries(dict(
        op=st.just("add"), band=st.integers(0, 2), exp=st.integers(0, 3), seed=st.integers(0, 99999),
        nbad=st.integers(0, 5), bkg=st.sampled_from(["none", "flat", "map", "nan"]),
        mask=st.sampled_from(["none", "bool", "int", "bits"]), bitmask=st.sampled_from([1, 2, 5, 6]), shift=st.sampled_from([0, 0, 4, 7, 8, 15, 25]), mtype=st.sampled_from(["i8", "u4", "i4"]),
        fluxcal=st.booleans(), zp=st.sampled_from([None, 28.0, 25.5, 8.9, 31.4, 14.2]), dtype=st.sampled_from(["f4", "f8", ">f4"])))


def ops_st():
    other = st.sampled_from(["reopen", "read", "close"]).map(lambda o: dict(op=o))
    ops = st.lists(st.one_of(exposure_st(), exposure_st(), other), min_size=1, max_size=6)
    return st.one_of(*[ops] * 11, long_st())


@st.composite
def long_st(draw):
    """A long history of many exposures."""
    base = draw(exposure_st())
    rs = np.random.RandomState(draw(st.integers(0, 9999)))
    ops = []
    for k in range(draw(st.integers(12, 50))):
        if rs.rand() < 0.1:
            ops.append(dict(op=["reopen", "read", "close"][rs.randint(3)]))
        else:
            ops.append(dict(base, band=int(rs.randint(3)), exp=int(rs.randint(30)), seed=int(rs.randint(99999)), nbad=int(rs.randint(6)), dtype=["f4", "f8", ">f4"][rs.randint(3)]))
    return ops


SIDE = st.one_of(*[st.integers(1, 4)] * 9, st.integers(5, 40))


def case_st():
    return st.fixed_dictionaries(dict(
        sps=st.sampled_from([1, 2, 3, 4, 8]), mx=SIDE, my=SIDE,
        square=st.booleans(), ops=ops_st(), tall=L.mostly(st.just(0), st.integers(2050, 4700), 19)))


def make(o, shape):
    rs = np.random.RandomState(o["seed"])
    im = rs.normal(0, 10, shape)
    ierr = rs.uniform(0.1, 4.0, shape)
    ierr[rs.rand(*shape) < 0.05] = 0.0
    mask = None
    for _ in range(o["nbad"]):
        i, j = rs.randint(shape[0]), rs.randint(shape[1])
        k = rs.randint(4)
        if k == 0:
            im[i, j] = BAD[rs.randint(3)]
        elif k == 1:
            ierr[i, j] = BAD[rs.randint(3)]
        elif k == 2:
            ierr[i, j] = -rs.uniform(0.1, 2)
        else:
            im[i, j] = ierr[i, j] = np.nan
    im, ierr = im.astype(o["dtype"]), ierr.astype(o["dtype"])
    bkg = None
    if o["bkg"] != "none":
        bkg = np.full(shape, 1.25) if o["bkg"] == "flat" else rs.normal(2, 1, shape)
        if o["bkg"] == "nan":
            bkg[rs.randint(shape[0]), rs.randint(shape[1])] = np.nan
        bkg = bkg.astype(o["dtype"])
    if o["mask"] == "bool":
        mask = rs.rand(*shape) < 0.15
    elif o["mask"] == "int":
        mask = (rs.rand(*shape) < 0.15).astype(int) * rs.randint(1, 4, shape)
    elif o["mask"] == "bits":
        mask = ((rs.randint(0, 8, shape) * (rs.rand(*shape) < 0.4)) << o["shift"]).astype(o["mtype"])
    return im, ierr, mask, bkg


def reference(o, im, ierr, mask, bkg):
    v = im.astype(float) - (0 if bkg is None else bkg.astype(float))
    w = ierr.astype(float)
    ok = np.isfinite(v) & np.isfinite(w) & (w >= 0)
    if mask is not None:
        m = mask
        if o["mask"] == "bits":
            m = np.bitwise_and(mask, o["bitmask"] << o["shift"])
        ok &= ~(m != 0)
    f = 1.0
    if o["fluxcal"] and o["zp"] is not None:
        f = 1e9 * 10 ** (0.4 * (8.9 - o["zp"]))
    return v * f, w / f, ok, np.abs(im.astype(float)) * f


def compare(store, model, shape, sps):
    s2 = sps ** 2
    nsx, nsy = shape[0] // sps, shape[1] // sps
    check(store.xpix.shape == (nsx, nsy, s2) and store.ypix.shape == (nsx, nsy, s2), "coordinate arrays have shape %s", store.xpix.shape)
    k, l = np.meshgrid(np.arange(nsx), np.arange(nsy), indexing="ij")
    stray = (store.xpix // sps != k[..., None]) | (store.ypix // sps != l[..., None])
    check(not stray.any(), "block %s holds pixels of another block", np.argwhere(stray)[:1].tolist())
    found = set()
    for b in store.data.keys():
        for e in store.data[b].keys():
            found.add((b, e))
    check(found == set(model), "store holds %s, expected %s", found, set(model))
    for (b, e), (v, w, ok, scale, o) in model.items():
        ds = store.data[b + "/" + e + "/data"]
        dat = ds[:]
        check(dat.shape == (nsx, nsy, 2 * s2), "dataset shape %s", dat.shape)
        check(np.all(np.isfinite(dat)), "non-finite values in the store")
        count = np.zeros(shape, int)
        im = np.zeros(shape)
        ie = np.zeros(shape)
        x, y = store.xpix.astype(int), store.ypix.astype(int)
        np.add.at(count, (x, y), 1)
        check(np.all(count == 1), "pixels lost or duplicated")
        im[x, y] = dat[:, :, :s2]
        ie[x, y] = dat[:, :, s2:]
        check(np.all(ie[~ok] == 0), "a bad pixel of %s/%s has weight", b, e)
        with np.errstate(invalid="ignore"):
            bad = ok & (np.abs(im - v) > 3e-6 * (scale + np.abs(v)) + 1e-30)
            check(not bad.any(), "value of pixel %s in %s/%s is %s, expected %s", np.argwhere(bad)[:1].tolist(), b, e, im[bad][:1], v[bad][:1])
            bad = ok & (np.abs(ie - w) > 3e-6 * w)
        check(not bad.any(), "inverse error of pixel %s in %s/%s is %s, expected %s", np.argwhere(bad)[:1].tolist(), b, e, ie[bad][:1], w[bad][:1])
        f = 1.0 if not (o["fluxcal"] and o["zp"]) else 1e9 * 10 ** (0.4 * (8.9 - o["zp"]))
        check(np.isclose(ds.attrs["counts_to_flux"], f), "recorded calibration %s, applied %s", ds.attrs["counts_to_flux"], f)


def body(case, info):
    from forcepho.patches.storage import ImageNameSet, ImageSet, PixelStore
    sps = case["sps"]
    nx = sps * case["mx"]
    ny = nx if case["square"] else sps * case["my"]
    if case["tall"]:
        # a side as long as a real detector mosaic
        nx, ny = sps * (case["tall"] // sps), sps
        if case["mx"] % 2:
            nx, ny = ny, nx
        case = dict(case, square=False, ops=case["ops"][:4])
    shape = (nx, ny)
    nside = nx if case["square"] else np.array([nx, ny])
    d = tempfile.mkdtemp()
    path = os.path.join(d, "pix.h5")
    model = {}
    try:
        store = PixelStore(path, nside_full=nside, super_pixel_size=sps)
        for o in case["ops"]:
            if o["op"] == "reopen":
                store.close()
                # the file knows its own sizes
                store = PixelStore(path, nside_full=999, super_pixel_size=7)
            elif o["op"] == "close":
                store.close()
            elif o["op"] == "read":
                compare(store, model, shape, sps)
            else:
                store.close()
                arrs = make(o, shape)
                copies = [None if a is None else a.copy() for a in arrs]
                im, ierr, mask, bkg = copies
                hdr = fits.Header()
                if o["zp"] is not None:
                    hdr["ABMAG"] = o["zp"]
                band, exp = L.BANDS[o["band"]], "exp%d" % o["exp"]
                names = ImageNameSet("a.fits", "b.fits", None, None)
                store.add_exposure(ImageSet(im=im, ierr=ierr, mask=mask, bkg=bkg, hdr=hdr, band=band, expID=exp, names=names),
                                   bitmask=o["bitmask"] << o["shift"] if o["mask"] == "bits" else None, do_fluxcal=o["fluxcal"])
                for a, c, n in zip(arrs, copies, ("image", "inverse error", "mask", "background")):
                    check(a is None or np.array_equal(a, c, equal_nan=(a.dtype.kind == "f")), "the caller's %s was overwritten", n)
                if (band, exp) in model:
                    info.label("replaced")
                model[(band, exp)] = reference(o, *arrs) + (o,)
        compare(store, model, shape, sps)
        fresh = PixelStore(path)
        compare(fresh, model, shape, sps)
        fresh.close()
        store.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.label("square" if case["square"] else "oblong", "stored-%s" % (len(model) if len(model) < 8 else "many"), "large" if max(shape) > 32 else "small")
    info.trivial_if(not model)


def reject_body(case, info):
    """Images of the wrong size are refused and leave the store as it was."""
    from forcepho.patches.storage import ImageSet, PixelStore
    d = tempfile.mkdtemp()
    try:
        sps = case["sps"]
        n = sps * case["n"]
        store = PixelStore(os.path.join(d, "p.h5"), nside_full=n if case["dn"] == 0 else np.array([n, n + sps * case["dn"]]), super_pixel_size=sps)
        rs = np.random.RandomState(0)
        n2 = n + sps * case["dn"]
        good = rs.normal(size=(n, n2))
        def iset(im, e):
            return ImageSet(im=im, ierr=np.ones(im.shape), mask=None, bkg=None, hdr=fits.Header(), band="B", expID=e, names=None)
        store.add_exposure(iset(good, "g"))
        shp = (n + case["ex"], n2 + case["ey"])
        if case["dn"] and case["turn"]:
            shp = (n2, n)
        try:
            store.add_exposure(iset(rs.normal(size=shp), case["name"]))
        except (ValueError, AssertionError):
            pass
        else:
            check(False, "an image of shape %s went into a store of side %d, %d", shp, n, n2)
        check(list(store.data.keys()) == ["B"] and list(store.data["B"].keys()) == ["g"], "a refused image left traces")
        got = store.data["B/g/data"][:][..., :sps * sps]
        check(np.array_equal(got, good.astype(np.float32)[store.xpix.astype(int), store.ypix.astype(int)]), "refusal damaged a stored image")
        store.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reject_st():
    return st.fixed_dictionaries(dict(sps=st.sampled_from([1, 2, 4]), n=st.integers(1, 4), name=st.sampled_from(["g", "h"]),
                                      ex=st.integers(0, 9), ey=st.integers(1, 9), dn=st.integers(0, 3), turn=st.booleans()))


# ---------------------------------------------------------------- store-backed patches

def patch_st():
    return st.fixed_dictionaries(dict(
        im=pix.images_st(max_exp=5, sip=True, large=True), sps=st.sampled_from([1, 2, 4, 8]), mx=SIDE, my=SIDE,
        square=st.booleans(), seed=st.integers(0, 9999), regions=st.lists(pix.region_st(none=False, big=1.2), min_size=1, max_size=2),
        bandorder=st.permutations(range(4)), nbands=st.sampled_from([4, 4, 3, 2, 1]), sameids=st.booleans()))


def patch_body(case, info):
    from forcepho.patches import CPUPatchMixin, StorePatch
    from forcepho.patches.storage import ImageSet, MetaStore, PixelStore

    class Patcher(StorePatch, CPUPatchMixin):
        pass
    sps = case["sps"]
    mx, my = case["mx"], case["mx"] if case["square"] else case["my"]
    if sps == 1:
        mx, my = mx * 3, my * 3
    nx, ny = sps * mx, sps * my
    im = dict(case["im"], exps=[dict(e, nx=nx, ny=ny, dx=e["dx"] * nx / 26.0, dy=e["dy"] * ny / 26.0) for e in case["im"]["exps"]])
    many = len(im["exps"]) > 8
    if many:
        # enough pixels and dithers small enough for most exposures to share a small region
        im["exps"] = [dict(e, dx=e["dx"] / 2, dy=e["dy"] / 2) for e in im["exps"]]
        span = min(nx, ny) * 0.03
        case = dict(case, regions=[{k: (v if isinstance(v, str) else round(v * span / (3 if k in ("dx", "dy") else 4), 5)) for k, v in r.items()} for r in case["regions"]])
    rs = np.random.RandomState(case["seed"])
    d = tempfile.mkdtemp()
    try:
        pfile, mfile = os.path.join(d, "pix.h5"), os.path.join(d, "meta.json")
        ps = PixelStore(pfile, nside_full=nx if nx == ny else np.array([nx, ny]), super_pixel_size=sps)
        ms = MetaStore()
        dat, perband = {}, {}
        for i, e in enumerate(im["exps"]):
            b = im["bands"][e["band"]]
            k = perband[b] = perband.get(b, -1) + 1
            exp = "exp%d" % (k if case["sameids"] else i)
            hdr = L.make_header(im, e)
            hdr["NAXIS1"], hdr["NAXIS2"] = nx, ny
            v, w = rs.normal(size=(nx, ny)), rs.uniform(0.1, 2, (nx, ny))
            w[rs.rand(nx, ny) < 0.1] = np.nan
            dat[b + "/" + exp] = (i, v, w)
            iset = ImageSet(im=v.copy(), ierr=w.copy(), mask=None, bkg=None, hdr=hdr, band=b, expID=exp, names=None)
            ps.add_exposure(iset)
            ms.add_exposure(iset)
        ms.write_to_file(mfile)
        patch = Patcher(pixelstore=pfile, metastore=mfile, return_residual=True)
        allb = (im["bands"] + [b for b in L.BANDS if b not in im["bands"]])[:4]
        allbands = [allb[i] for i in case["bandorder"]][:case["nbands"]]
        tot = 0
        for reg in case["regions"]:
            tot += one_patch(case, info, patch, pix.RefRegion(im, reg), im, dat, allbands, sps, nx, ny)
        patch.pixelstore.close()
        info.trivial_if(tot == 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_patch(case, info, patch, rr, im, dat, allbands, sps, nx, ny):
    xs, ys = np.meshgrid(np.arange(0, nx, sps), np.arange(0, ny, sps), indexing="ij")
    must, may, sel = [], [], {}
    for path, (i, v, w) in dat.items():
        b = path.split("/")[0]
        if b not in allbands:
            continue
        wcs = WCS(L.make_header(im, im["exps"][i]))
        rule = rr.exposure(wcs, nx, ny, around=False)
        yes, no = rr.cells(xs, ys, sps - 1, wcs)
        sel[path] = (yes, no)
        if rule and yes.any():
            must.append(path)
        elif not no.all():
            may.append(path)
    try:
        patch.build_patch(region=rr.build(), sourcecat=None, allbands=allbands)
    except (ValueError, AssertionError) as err:
        check(not must, "build_patch refused (%s) although exposures %s hold pixels of the region", err, must)
        info.label("refused")
        return 0
    got = list(patch.epaths)
    info.label("used-%s" % (len(got) if len(got) < 8 else "8to15" if len(got) < 16 else "16up"))
    check(len(set(got)) == len(got) and set(must) <= set(got) <= set(must) | set(may),
          "patch holds exposures %s, expected %s (and perhaps %s)", got, must, may)
    bands = [g.split("/")[0] for g in got]
    parts = [patch.split_pix(a) for a in ("xpix", "ypix", "data", "ierr")]
    pix.check_books(patch, bands, [len(x) for x in parts[0]], allbands, check)
    tot = 0
    for k, path in enumerate(got):
        i, v, w = dat[path]
        ref = L.make_header(im, im["exps"][i])
        check(np.allclose(patch.wcses[k].wcs.crpix, [ref["CRPIX1"], ref["CRPIX2"]]) and
              np.allclose(patch.wcses[k].wcs.cd, [[ref["CD1_1"], ref["CD1_2"]], [ref["CD2_1"], ref["CD2_2"]]]),
              "exposure %s has another exposure's WCS", path)
        x, y, gv, gw = [p[k] for p in parts]
        x, y = x.astype(int), y.astype(int)
        count = np.zeros((nx, ny), int)
        np.add.at(count, (x, y), 1)
        yes, no = [np.kron(m, np.ones((sps, sps), int)).astype(bool) for m in sel[path]]
        check(count.max() <= 1, "pixel present twice")
        check(np.all(count[yes] == 1), "pixels of a super-pixel in the region are missing")
        check(np.all(count[no] == 0), "pixels of a super-pixel outside the region are present")
        ok = np.isfinite(w)[x, y]
        check(np.all(gw[~ok] == 0) and np.all(np.isfinite(gv)), "bad pixel has weight")
        check(np.allclose(gv[ok], v[x, y][ok], rtol=1e-6) and np.allclose(gw[ok], w[x, y][ok], rtol=1e-6),
              "pixel values of %s differ from what was stored", path)
        tot += len(x)
        if yes.any() and no.any():
            info.label("partial-exposure")
    return tot


def subs():
    return [
        Sub("history", case_st, body, quick=400, shards=3, budget=50,
            rule="histories of adding, replacing, reopening and reading exposures; all pixels of all exposures compared at every read",
            nontrivial_rule="at least one exposure stored"),
        Sub("reject", reject_st, reject_body, quick=60, shards=1, budget=15, rule="wrongly sized images"),
        Sub("patch", patch_st, patch_body, quick=600, shards=3, budget=50,
            rule="store-backed patches over one or two regions", nontrivial_rule="at least one pixel selected"),
    ]
