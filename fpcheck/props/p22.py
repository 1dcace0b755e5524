"""P22: local astrometry used for modelling against the full WCS."""
import os

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["undistorted images use one scale matrix per image: the field rotation (RA offset from the reference times sin dec) and "
               "the second-order projection terms are part of the approximation and enter the tolerance",
               "distorted images are differentiated with a one-pixel step: the second-order distortion term enters the tolerance"]


def case_st():
    return st.fixed_dictionaries(dict(
        ra0=st.one_of(L.rnd(0.05, 359.95), st.sampled_from([0.0, 1e-6, 359.999995])), dec0=L.rnd(-80, 80),
        proj=st.sampled_from(["TAN", "TAN", "SIN", "STG", "ZEA"]), form=st.sampled_from(["CD", "PC"]),
        scale=L.rnd(0.02, 0.3), rot=L.rnd(-180, 180, 2), parity=st.sampled_from([-1, 1]), aspect=st.sampled_from([1.0, 1.0, 0.9, 1.1]),
        skew=st.sampled_from([0.0, 0.0, 0.05]), sip=st.sampled_from([0.0, 0.0, 2e-6, -1e-5, 4e-5]),
        cx=L.rnd(-200, 400), cy=L.rnd(-200, 400), seed=st.integers(0, 9999),
        srcs=L.mostly(st.lists(st.tuples(L.rnd(-250, 250, 2), L.rnd(-250, 250, 2)), min_size=1, max_size=4), st.lists(st.tuples(L.rnd(-250, 250, 2), L.rnd(-250, 250, 2)), min_size=12, max_size=40)),
        wrap=st.sampled_from([0, 0, -1]), mode=st.sampled_from(["astropy", "fwcs", "gwcs", "bare", "file"]), approx=st.booleans()))


def header(c):
    h = fits.Header()
    th = np.deg2rad(c["rot"])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    M = R @ np.array([[c["parity"], c["skew"]], [0, c["aspect"]]])
    sip = c["sip"] != 0
    h["CTYPE1"] = "RA---" + c["proj"] + ("-SIP" if sip else "")
    h["CTYPE2"] = "DEC--" + c["proj"] + ("-SIP" if sip else "")
    h["CRVAL1"], h["CRVAL2"] = c["ra0"], c["dec0"]
    h["CRPIX1"], h["CRPIX2"] = c["cx"], c["cy"]
    h["CUNIT1"] = h["CUNIT2"] = "deg"
    s = c["scale"] / 3600
    if c["form"] == "CD":
        for i in range(2):
            for j in range(2):
                h["CD%d_%d" % (i + 1, j + 1)] = M[i, j] * s
    else:
        h["CDELT1"], h["CDELT2"] = s, 1.3 * s
        for i in range(2):
            for j in range(2):
                h["PC%d_%d" % (i + 1, j + 1)] = M[i, j] / (1.0 if i == 0 else 1.3)
    if sip:
        k = c["sip"]
        h["A_ORDER"], h["B_ORDER"] = 2, 2
        h["A_2_0"], h["A_1_1"], h["A_0_2"] = k, -0.5 * k, 0.3 * k
        h["B_2_0"], h["B_1_1"], h["B_0_2"] = -0.4 * k, 0.6 * k, k
    return h


class Foreign:
    """A WCS that is not astropy's: only the shared API, and no has_distortion."""

    def __init__(self, w):
        self._w = w

    def pixel_to_world_values(self, x, y):
        return self._w.all_pix2world(x, y, 0)

    def world_to_pixel_values(self, ra, dec):
        return self._w.all_world2pix(ra, dec, 0, tolerance=1e-9, maxiter=60)


def body(case, info):
    from forcepho.utils.wcs import FWCS, scale_at_sky, sky_to_pix
    hdr = header(case)
    w = WCS(hdr)
    mode = case["mode"]
    made = None
    if mode == "astropy":
        wcs = w
    elif mode == "fwcs":
        wcs = FWCS(w)
    elif mode == "gwcs":
        wcs = FWCS(Foreign(w))
    elif mode == "bare":
        wcs = Foreign(w)
    else:
        made = "img_p22.fits"
        L.write_fits(made, np.zeros((3, 4), np.float32), np.ones((3, 4), np.float32), hdr)
        wcs = FWCS()
        wcs.from_image(made, extension=1)
        os.remove(made)
    numeric = case["sip"] != 0 or mode in ("gwcs", "bare") or case["approx"]
    if isinstance(wcs, FWCS):
        check(wcs.is_normal == (mode in ("fwcs", "file")), "is_normal %s for %s", wcs.is_normal, mode)
        check(bool(wcs.has_distortion) == (case["sip"] != 0 or mode == "gwcs"), "has_distortion %s", wcs.has_distortion)
    srcs = []
    for (dx, dy) in case["srcs"]:
        x, y = case["cx"] - 1 + dx, case["cy"] - 1 + dy
        ra, dec = [float(v) for v in w.all_pix2world(x, y, 0)]
        if abs(dec) > 86:
            continue
        if case["wrap"] and ra > 180:
            ra -= 360.0       # fields next to RA=0 are described with negative RA
        srcs.append((ra, dec, x, y))
    if not srcs:
        info.trivial_if(True)
        return
    exp = dict(crval=[], crpix=[], CW=[])
    ref = np.array([np.median([s[0] for s in srcs]), np.median([s[1] for s in srcs])])
    wrapped = False
    for (ra, dec, x, y) in srcs:
        kw = dict(make_approx=True) if case["approx"] else {}
        if isinstance(wcs, FWCS):
            CW, D = wcs.scale_at_sky((ra, dec), **kw)
        else:
            CW, D = scale_at_sky((ra, dec), wcs, **kw)
        pos, CW0, D0 = L.local_astrometry(w, ra, dec)
        dra = np.deg2rad((ra - case["ra0"] + 180) % 360 - 180)
        sep = np.deg2rad(np.hypot(case["scale"] * 1.5 * (x - case["cx"]), case["scale"] * 1.5 * (y - case["cy"])) / 3600)
        if numeric:
            tol = 2e-5 + 8 * abs(case["sip"]) * (1 + 250 * abs(case["sip"]))
        else:
            tol = 2e-6 + 2 * abs(dra) * abs(np.sin(np.deg2rad(dec))) + 2 * sep**2 + sep * abs(dra)
        tol *= 2
        nrm = np.abs(D0).max()
        check(np.abs(D - D0).max() <= tol * nrm, "scale matrix %s, full WCS %s (tol %g)", D, D0, tol)
        cd = np.cos(np.deg2rad(dec))
        check(np.abs((CW - CW0) / np.array([cd, 1.0]) / 3600).max() <= tol * nrm, "d(pix)/d(sky) %s, full WCS %s (tol %g)", CW, CW0, tol)
        check(np.allclose(CW / 3600, D @ np.diag([cd, 1.0]), rtol=1e-12, atol=1e-15 * nrm), "the two matrices are inconsistent")
        if mode == "astropy":
            from forcepho.slow.stamp import scale_at_sky as slow_scale
            CWs, Ds = slow_scale((ra, dec), w, **kw)
            check(np.abs(Ds - D0).max() <= tol * nrm, "scale matrix of the slow implementation %s, full WCS %s (tol %g)", Ds, D0, tol)
            check(np.abs((CWs - CW0) / np.array([cd, 1.0]) / 3600).max() <= tol * nrm, "slow d(pix)/d(sky) %s, full WCS %s (tol %g)", CWs, CW0, tol)
        # a small move on the sky lands where the WCS says
        exp["crval"].append(np.array([ra, dec]) - ref)
        exp["crpix"].append(pos)
        exp["CW"].append(CW)
        wrapped |= ra < 0 or ra < 1e-3
        if numeric and not case["approx"] and mode in ("astropy", "fwcs", "file"):
            CW2, D2 = scale_at_sky((ra, dec), wcs, dpix=0.5)
            check(np.abs(D2 - D0).max() <= tol * nrm, "with half-pixel steps %s, full WCS %s", D2, D0)
    # linearised positions of moved sources
    exp = {k: np.array(v) for k, v in exp.items()}
    rs = np.random.RandomState(case["seed"])
    step = 1.0 / 3600
    mv = [(ra + rs.uniform(-1, 1) * step / np.cos(np.deg2rad(dec)), dec + rs.uniform(-1, 1) * step) for ra, dec, _, _ in srcs]
    pix = sky_to_pix(np.array([m[0] for m in mv]), np.array([m[1] for m in mv]), exp=exp, ref_coords=ref)
    check(pix.shape == (len(srcs), 2), "shape of pixel positions")
    for k, (m, (ra, dec, x, y)) in enumerate(zip(mv, srcs)):
        px = np.array([float(v) for v in w.all_world2pix(m[0], m[1], 0, tolerance=1e-9, maxiter=60)])
        moved = np.hypot(*(px - [x, y]))
        dra = np.deg2rad((ra - case["ra0"] + 180) % 360 - 180)
        r = np.deg2rad(400 * case["scale"] / 3600)
        tol = (1e-4 + 16 * abs(case["sip"]) * (1 + moved) + (0 if numeric else 4 * abs(dra) * abs(np.sin(np.deg2rad(dec))) + 6 * r**2 + 4 * r * abs(dra))
               + 2 * np.deg2rad(2 * step) * (1 + abs(np.tan(np.deg2rad(dec))))) * moved + 1e-6
        check(np.hypot(*(pix[k] - px)) <= tol, "moved source %d at %s, full WCS %s (tolerance %g)", k, pix[k], px, tol)
    for n in {1, 3, len(srcs) + 1} - {2, len(srcs)}:
        # positions that are not one-to-one with the sources use the first source's matrices
        p2 = sky_to_pix(np.array([srcs[0][0]] * n), np.array([srcs[0][1]] * n), exp=exp, ref_coords=ref)
        check(p2.shape == (n, 2) and np.allclose(p2, exp["crpix"][0][None, :], atol=1e-6), "positions of a common location %s", p2)
    info.label(case["proj"], mode, "sip" if case["sip"] else "linear", "ra~0" if wrapped else "ra")


def body_patch(case, info):
    """What a built patch holds for every source of every exposure."""
    sc = dict(case["scene"])
    neg = case["wrap"]
    if neg:
        sc["ra0"] = round(sc["ra0"] * 1e-7, 9)
    # spread the sources, so that each one's own position matters
    sc["sources"] = [dict(q, dx=q["dx"] * case["spread"], dy=q["dy"] * case["spread"]) for q in sc["sources"]]
    cat = L.catalog(sc)
    if neg:
        cat["ra"] = np.where(cat["ra"] > 180, cat["ra"] - 360.0, cat["ra"])
    with L.SceneFiles(sc) as files:
        p = L.make_patch(sc, files)
        model, q = p.prepare_model(active=cat)
        order = L.exposure_order(sc, sc["bands"]) if case["swap"] is None else None
        ref = np.asarray(p.patch_reference_coordinates, dtype=float)
        ne, ns = len(p.wcses), len(cat)
        for nm, shp in (("D", (ne, ns, 2, 2)), ("CW", (ne, ns, 2, 2)), ("crpix", (ne, ns, 2)), ("crval", (ne, ns, 2))):
            check(np.shape(getattr(p, nm)) == shp, "%s has shape %s", nm, np.shape(getattr(p, nm)))
        R = L.RefScene(sc)
        for j, e in enumerate(order):
            ex = sc["exps"][e]
            for i in range(ns):
                ra, dec = float(cat["ra"][i]), float(cat["dec"][i])
                pos, CW0, D0 = R.astro[e][i]
                nrm = np.abs(D0).max()
                sep = np.deg2rad((15 + 10 / 0.03 * 0.25 * case["spread"]) * ex["scale"] / 3600)
                tol = 4e-6 + 3 * sep * abs(np.tan(np.deg2rad(sc["dec0"]))) + 10 * abs(ex["sip"])
                check(np.abs(p.D[j, i] - D0).max() <= tol * nrm, "exposure %d source %d: scale matrix %s, full WCS %s", j, i, p.D[j, i], D0)
                cd = np.cos(np.deg2rad(dec))
                check(np.abs((p.CW[j, i] - CW0) / np.array([cd, 1.0]) / 3600).max() <= tol * nrm, "exposure %d source %d: CW %s, full WCS %s", j, i, p.CW[j, i], CW0)
                check(np.abs(p.crpix[j, i] - pos).max() <= 1e-4, "exposure %d source %d: reference pixel %s, WCS %s", j, i, p.crpix[j, i], pos)
                check(np.abs(p.crval[j, i] - (np.array([ra, dec]) - ref)).max() <= 1e-10 + 1e-7 * np.abs(np.array([ra, dec]) - ref).max(),
                      "exposure %d source %d: reference sky offset %s, expected %s", j, i, p.crval[j, i], np.array([ra, dec]) - ref)
        check(np.all(np.asarray(p.G) == 1), "flux scale %s", p.G)
        # positions are offsets from the reference, until they are put back
        for back in (False, True):
            want = [np.asarray(cat[c], float) - (0 if back else r) for c, r in zip(("ra", "dec"), ref)]
            if back:
                p.unzerocoords(model.scene)
            got = [np.array([float(getattr(s, c)) for s in model.scene.sources]) for c in ("ra", "dec")]
            check(np.all(np.abs((got[0] - want[0] + 180) % 360 - 180) < 1e-11 * 360) and np.all(np.abs(got[1] - want[1]) < 1e-11 * 90),
                  "source positions %s, expected %s", got, want)
        # any other reference can be asked for
        zero = ref + np.array([0.125, -0.25]) * case["spread"] / 3600
        p.zerocoords(model.scene, sky_zero=tuple(zero))
        check(np.allclose(p.patch_reference_coordinates, zero, rtol=0, atol=1e-12), "reference coordinates %s, asked for %s", p.patch_reference_coordinates, zero)
        got = np.array([[float(s.ra), float(s.dec)] for s in model.scene.sources])
        check(np.allclose(got[:, 1], cat["dec"] - zero[1], rtol=0, atol=1e-9) and np.all(np.abs((got[:, 0] - cat["ra"] + zero[0] + 180) % 360 - 180) < 1e-9),
              "positions %s relative to another reference", got)
    info.label("nexp%d" % min(ne, 8), "nsrc%d" % min(ns, 8), "ra~0" if neg else "ra", "sip" if any(e["sip"] for e in sc["exps"]) else "linear")
    info.trivial_if(ne * ns == 1)


def subs():
    return [
        Sub("matrices", case_st, body, quick=1200, thorough=40000, shards=4,
            rule="four projections, CD and PC+CDELT forms, rotation, parity, skew, SIP distortion, declination +-80, RA next to 0/360; astropy, wrapped, foreign and file WCS objects"),
        Sub("patch", lambda: st.fixed_dictionaries(dict(scene=L.mostly(L.scene_st(maxsize=10), L.extreme_st(kinds=["manysrc", "manyband", "manyexp"])), wrap=st.booleans(), swap=st.none(), spread=st.sampled_from([1.0, 5.0]))), body_patch, quick=200, thorough=5000, shards=4,
            rule="built patches; matrices of every (exposure, source) pair",
            nontrivial_rule="more than one (exposure, source) pair"),
    ]
