"""P09: patches built from FITS images and from arrays hold exactly the pixels of the region."""
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, pix, scene as L

ASSUMPTIONS = [
    "an exposure is in the patch when a corner of the region's bounding box falls in it or the box surrounds it; "
    "exposures that overlap in any other way may or may not be used",
    "a pixel touches the region when one of its four grid points (x, y)..(x+1, y+1) lies inside",
    "pixels within 1e-5 of the edge may go either way",
    "a patch may refuse (raise) when a selected exposure has no pixel in the region"]


def case_st():
    return st.fixed_dictionaries(dict(
        im=pix.images_st(large=True),
        w=like.weights_st(),
        regions=st.lists(pix.region_st(), min_size=1, max_size=2),
        bandorder=st.permutations(range(4)), nbands=st.sampled_from([4, 4, 3, 2, 1]),
        bg=st.sampled_from(["off", "off", "some", "all", "key_unused"]), bgafter=st.booleans(),
        override=st.sampled_from([None, None, None, "snr", "unc"]),
        max_snr=st.sampled_from([None, None, 3.0, 20.0]),
        ext=st.sampled_from([("SCI", "ERR"), ("SCI", "ERR"), ("IMG", "SIG")]).map(list)))


def write(case, data, unc, d):
    im = case["im"]
    files, offs = [], []
    rs = np.random.RandomState(case["w"]["seed"] + 7)
    for i, e in enumerate(im["exps"]):
        hdr = L.make_header(im, e)
        off = 0.0
        if case["bg"] in ("all", "key_unused") or (case["bg"] == "some" and i % 2):
            off = float(np.round(rs.uniform(-3, 3), 3))
            hdr["BKGOFF"] = off
        offs.append(off if case["bg"] in ("some", "all") else 0.0)
        p = os.path.join(d, "x%02d.fits" % ((i * 7) % 64))
        sci, err = case["ext"]
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.ascontiguousarray(data[i].T), header=hdr, name=sci),
                      fits.ImageHDU(np.ascontiguousarray(unc[i].T), header=hdr, name=err)]).writeto(p)
        files.append(p)
    return files, offs


def expected_pixels(case, d, u, off):
    """Value and inverse error of every pixel; ok = usable."""
    d64 = d.astype(np.float64)
    with np.errstate(all="ignore"):
        if case["override"] == "snr":
            ie = 12.5 / d64
        elif case["override"] == "unc":
            ie = np.full(d.shape, 1 / 0.37)
        else:
            ie = 1.0 / u.astype(np.float64)
        ok = np.isfinite(d64) & np.isfinite(ie) & (ie >= 0)
        v = d64 - off
        scale = np.abs(d64) + abs(off)
        if case["max_snr"]:
            snr = v * ie
            cap = ok & (snr > case["max_snr"])
            near = np.abs(snr - case["max_snr"]) < 1e-3 * case["max_snr"]
            ie = np.where(cap, case["max_snr"] / v, ie)
        else:
            near = np.zeros(d.shape, bool)
    return v, ie, ok, scale, near


def body(case, info):
    im = case["im"]
    nb = len(im["bands"])
    allb = (im["bands"] + [b for b in L.BANDS if b not in im["bands"]])[:4]
    allbands = [allb[i] for i in case["bandorder"]][:case["nbands"]]
    data, unc, _ = like.make_data(dict(im, noise=0.5), case["w"])
    d = tempfile.mkdtemp()
    try:
        files, offs = write(case, data, unc, d)
        P = L.patch_class()
        patch = P(fitsfiles=files, return_residual=True, sci_ext=case["ext"][0], unc_ext=case["ext"][1])
        if case["override"]:
            setattr(patch, case["override"], 12.5 if case["override"] == "snr" else 0.37)
        patch.max_snr = case["max_snr"]
        hashes = [open(f, "rb").read() for f in files]
        any_pix = 0
        for k, reg in enumerate(case["regions"]):
            this, off = case, offs
            if k and case["bgafter"]:
                # background offsets are asked for build by build
                this, off = dict(case, bg="off"), [0.0] * len(offs)
            any_pix += one(this, info, patch, reg, files, off, allbands, data, unc)
        check(hashes == [open(f, "rb").read() for f in files], "image files were modified")
        info.trivial_if(any_pix == 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(case, info, patch, reg, files, offs, allbands, data, unc):
    im = case["im"]
    rr = pix.RefRegion(im, reg)
    info.label("region-" + reg["kind"])
    must, may, empty = [], [], []
    sel = {}
    for b in allbands:
        for i, e in enumerate(im["exps"]):
            if im["bands"][e["band"]] != b:
                continue
            wcs = WCS(L.make_header(im, e))
            rule = rr.exposure(wcs, e["nx"], e["ny"])
            xx, yy = np.meshgrid(np.arange(e["nx"]), np.arange(e["ny"]), indexing="ij")
            yes, no = rr.cells(xx, yy, 1, wcs)
            sel[i] = (yes, no)
            if rule is None or (rule is False and not no.all()) or (rule and not yes.any() and not no.all()):
                may.append(i)
            elif rule and yes.any():
                must.append(i)
            elif rule:
                empty.append(i)
    kw = {}
    if case["bg"] in ("some", "all"):
        kw["tweak_background"] = "BKGOFF"
    try:
        patch.build_patch(region=rr.build(), sourcecat=None, allbands=allbands, **kw)
    except (ValueError, AssertionError) as err:
        check(empty or may or not must, "build_patch refused (%s) although exposures %s hold pixels of the region", err, must)
        info.label("refused")
        return 0
    got = [files.index(str(p)) for p in patch.epaths]
    check(len(set(got)) == len(got), "an exposure appears twice: %s", got)
    check(set(must) <= set(got), "exposures %s missing from the patch (has %s)", must, got)
    check(set(got) <= set(must) | set(may) | set(empty), "exposures %s do not overlap the region", got)
    bands = [im["bands"][im["exps"][i]["band"]] for i in got]
    check([allbands.index(b) for b in bands] == sorted(allbands.index(b) for b in bands), "not in band order: %s", bands)
    xs, ys = patch.split_pix("xpix"), patch.split_pix("ypix")
    vs, ws = patch.split_pix("data"), patch.split_pix("ierr")
    pix.check_books(patch, bands, [len(x) for x in xs], allbands, check)
    check(len(patch.hdrs) == len(got) and len(patch.wcses) == len(got), "headers and WCSes do not match exposures")
    tot = 0
    for k, i in enumerate(got):
        e = im["exps"][i]
        ref = L.make_header(im, e)
        check(patch.hdrs[k]["FILTER"] == ref["FILTER"], "exposure %d has another exposure's header", k)
        for key in ("CRPIX1", "CRPIX2", "CD1_1", "CD2_1"):  # header cards hold about 15 digits
            check(np.isclose(patch.hdrs[k][key], ref[key], rtol=1e-9, atol=1e-13),
                  "exposure %d has another exposure's header (%s)", k, key)
        check(np.allclose(patch.wcses[k].wcs.crpix, [ref["CRPIX1"], ref["CRPIX2"]]), "wcs of another exposure")
        x, y = xs[k].astype(int), ys[k].astype(int)
        real = (x >= 0) & (y >= 0)
        check(np.all(ws[k][~real] == 0), "padding pixels have weight")
        check(np.all(np.isfinite(vs[k])) and np.all(np.isfinite(ws[k])), "non-finite pixels were passed on")
        x, y, v, w = x[real], y[real], vs[k][real].astype(float), ws[k][real].astype(float)
        check(x.size == 0 or (x.max() < e["nx"] and y.max() < e["ny"]), "pixel outside the image")
        count = np.zeros((e["nx"], e["ny"]), int)
        np.add.at(count, (x, y), 1)
        check(count.max(initial=0) <= 1, "pixel present more than once")
        yes, no = sel[i]
        miss = np.argwhere(yes & (count == 0))
        check(len(miss) == 0, "pixel %s of exposure %d touches the region but is missing", miss[:1].tolist(), i)
        extra = np.argwhere(no & (count == 1))
        check(len(extra) == 0, "pixel %s of exposure %d is outside the region", extra[:1].tolist(), i)
        ev, eie, ok, scale, near = expected_pixels(case, data[i], unc[i], offs[i])
        check(np.all(w[~ok[x, y]] == 0), "an invalid pixel has weight")
        g = ok[x, y]
        bad = np.abs(v - ev[x, y]) > 1e-6 * scale[x, y] + 1e-30
        check(not np.any(bad & g), "pixel value differs: %s", [(int(a), int(b), float(c), float(ev[a, b])) for a, b, c in
                                                              zip(x[bad & g][:3], y[bad & g][:3], v[bad & g][:3])])
        g = g & ~near[x, y]
        rel = 1e-5 if not case["max_snr"] else 1e-5 + 1e-6 * scale[x, y] / np.maximum(np.abs(ev[x, y]), 1e-30)
        bad = np.abs(w - eie[x, y]) > rel * np.abs(eie[x, y]) + 1e-37
        check(not np.any(bad & g), "inverse uncertainty differs: %s", [(int(a), int(b), float(c), float(eie[a, b])) for a, b, c in
                                                                      zip(x[bad & g][:3], y[bad & g][:3], w[bad & g][:3])])
        tot += len(x)
        if yes.any() and no.any():
            info.label("partial-exposure")
    info.label("exposures-%s" % (len(got) if len(got) < 8 else "many"), "override-%s" % case["override"])
    return tot


# ---------------------------------------------------------------- arrays given directly

def direct_st():
    return st.fixed_dictionaries(dict(
        im=pix.images_st(maxsize=12, large=True), seed=st.integers(0, 9999), swarm=L.mostly(st.just(0), st.integers(90, 300), 24),
        bandorder=st.permutations(range(4)), nbands=st.sampled_from([4, 4, 3, 2, 1]), order=st.randoms().map(lambda r: r.randint(0, 9999)),
        struct=st.booleans()))


def direct_body(case, info):
    from forcepho.patches import CPUPatchMixin
    from forcepho.patches.pixel_patch import DirectPatch

    class Direct(DirectPatch, CPUPatchMixin):
        pass
    im = case["im"]
    rs = np.random.RandomState(case["seed"])
    allb = (im["bands"] + [b for b in L.BANDS if b not in im["bands"]])[:4]
    allbands = [allb[i] for i in case["bandorder"]][:case["nbands"]]
    if case["swarm"]:
        # more exposures than any other kind of patch here
        few = im["exps"]
        im = dict(im, exps=[dict(few[rs.randint(len(few))], nx=3, ny=3, band=int(rs.randint(len(im["bands"])))) for _ in range(case["swarm"])])
    pd, hd, names = {}, {}, []
    for i in np.random.RandomState(case["order"]).permutation(len(im["exps"])):
        e = im["exps"][i]
        n = rs.randint(1, e["nx"] * e["ny"])
        dat = np.zeros(n, dtype=[("flux", float), ("ierr", float), ("xpix", int), ("ypix", int)])
        flat = rs.choice(e["nx"] * e["ny"], n, replace=False)
        dat["flux"], dat["ierr"] = rs.normal(size=n), rs.uniform(0, 3, n)
        dat["xpix"], dat["ypix"] = flat // e["ny"], flat % e["ny"]
        name = "exp/%d" % i
        pd[name] = dat if case["struct"] else {k: dat[k] for k in dat.dtype.names}
        hd[name] = L.make_header(im, e)
        names.append(name)
    patch = Direct(pixel_dict=pd, header_dict=hd)
    want = [n for b in allbands for n in names if hd[n]["FILTER"] == b]
    if not want:
        try:
            patch.build_patch(allbands=allbands)
        except ValueError:
            info.trivial_if(True)
            return
        check(False, "no exposure in the bands, yet a patch was built")
    patch.build_patch(allbands=allbands)
    got = list(patch.epaths)
    check(sorted(got) == sorted(want), "exposures %s, expected %s", got, want)
    pix.check_books(patch, [hd[n]["FILTER"] for n in got], [len(pd[n]["flux"]) for n in got], allbands, check)
    for k, n in enumerate(got):
        for a, b in (("data", "flux"), ("ierr", "ierr"), ("xpix", "xpix"), ("ypix", "ypix")):
            check(np.array_equal(patch.split_pix(a)[k], np.asarray(pd[n][b]).astype(np.float32)), "%s of %s differs", a, n)
    info.trivial_if(len(want) < 2)


def subs():
    return [
        Sub("fits", case_st, body, quick=1000, shards=6, budget=60,
            rule="FITS exposures with generated WCS, masks and overrides; one or two regions built in turn by one patch object",
            nontrivial_rule="at least one pixel selected"),
        Sub("direct", direct_st, direct_body, quick=200, shards=1, budget=30,
            rule="exposures given as arrays, any dictionary order and band order",
            nontrivial_rule="at least two exposures used"),
    ]
