"""P01: rendered residual images against the independent double-precision model."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["kernel arithmetic is single precision: agreement within 5e-4 of the summed component "
               "envelope at the pixel plus 3e-6 of its peak and of the data",
               "images are small and close to the WCS reference point, |dec| <= 65 deg, away from RA 0/360"]


def tol(env, data):
    return 5e-4 * env + 3e-6 * env.max() + 3e-6 * np.abs(data)


def residual_images(case, files, cat, allbands, pars=None, fitsfiles=None):
    """Residuals per exposure (patch order) with coordinates."""
    p = L.make_patch(case, files, allbands=allbands, fitsfiles=fitsfiles)
    model, q = p.prepare_model(active=cat)
    if pars is not None:
        q = pars(q, p)
    res = model.residuals(np.array(q))
    pix = L.real_pixels(p)
    return p, [np.array(r) for r in res], pix


def compare(case, ref, files, order, res, pix, table=None, what=""):
    check(len(res) == len(order), "number of exposures %d, expected %d", len(res), len(order))
    worst = 0
    for j, e in enumerate(order):
        ex = case["exps"][e]
        x, y, m = pix[j]
        check(m.sum() == ex["nx"] * ex["ny"], "%s: exposure %d has %d pixels", what, e, m.sum())
        model = ref.image(e, table=table)
        env = ref.image(e, table=table, env=True)
        data = files.data[e]
        xx, yy = x[m], y[m]
        want = data[xx, yy] - model[xx, yy]
        got = res[j][m]
        t = tol(env, data)[xx, yy]
        err = np.abs(got - want)
        check(np.all(np.isfinite(got)), "%s: non-finite residual", what)
        bad = err > t
        if bad.any():
            k = np.argmax(err / t)
            check(False, "%s: exposure %d pixel (%d, %d): residual %r, expected %r (tolerance %.3g)",
                  what, e, xx[k], yy[k], got[k], want[k], t[k])
        worst = max(worst, float((err / t).max()))
    return worst


def with_masked(sc, masked):
    """Uncertainties with some infinite ones: those pixels have no weight but still a model and a residual."""
    unc = [L.unc_image(e, sc["noise"]) for e in sc["exps"]]
    for k, (fx, fy, w, h) in enumerate(masked):
        u = unc[k % len(unc)]
        i, j = int(fx * u.shape[0]), int(fy * u.shape[1])
        u[i:i + w, j:j + h] = np.inf
    return unc


def masked_st():
    f = L.rnd(0, 0.99)
    return st.lists(st.tuples(f, f, st.integers(1, 6), st.integers(1, 6)).map(list), max_size=3)


def body_render(case, info):
    sc = case["scene"]
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < len(sc["bands"])]
    with L.SceneFiles(sc, unc=with_masked(sc, case["masked"])) as files:
        ref = L.RefScene(sc)
        cat = L.catalog(sc)
        cat0 = cat.copy()
        order = L.exposure_order(sc, allbands)
        p, res, pix = residual_images(sc, files, cat, allbands)
        w = compare(sc, ref, files, order, res, pix, what="as built")
        check(cat.tobytes() == cat0.tobytes(), "input catalog modified")
        # another proposal on the same metadata (sources move and change shape)
        table = ref.params()
        nb = len(sc["bands"])
        for i, mv in enumerate(case["moves"][:len(table)]):
            dec = np.deg2rad(table[i, nb + 1])
            table[i, nb] += mv["dx"] / 3600.0 / np.cos(dec)
            table[i, nb + 1] += mv["dy"] / 3600.0
            table[i, nb + 2] = mv["q"]
            table[i, nb + 3] = mv["pa"]
            table[i, nb + 4] = mv["sersic"]
            table[i, nb + 5] = mv["rhalf"]
            table[i, :nb] *= mv["f"]

        def pars(q, p):
            ref0 = np.asarray(p.patch_reference_coordinates)
            rows = []
            for r in table:
                fl = [r[sc["bands"].index(b)] for b in p.bandlist]
                rows.append(fl + [r[nb] - ref0[0], r[nb + 1] - ref0[1]] + list(r[nb + 2:]))
            return np.concatenate(rows)
        p, res, pix = residual_images(sc, files, cat, allbands, pars=pars)
        w2 = compare(sc, ref, files, order, res, pix, table=table, what="after move")
    info.label(sc.get("extreme", "plain"), "nsrc%d" % len(sc["sources"]), "masked" if case["masked"] else "unmasked", "nband%d" % nb, "nexp%d" % len(sc["exps"]),
               "sip" if any(e["sip"] for e in sc["exps"]) else "nosip",
               "customspline" if sc["spline"] else "tabulated",
               "margin<10%" if max(w, w2) < 0.1 else ("margin<50%" if max(w, w2) < 0.5 else "margin>50%"))


def body_fluxcal(case, info):
    """Per-exposure calibration factors scale that exposure's model and nothing else."""
    sc = case["scene"]
    with L.SceneFiles(sc) as files:
        ref = L.RefScene(sc)
        p = L.make_patch(sc, files)
        model, q = p.prepare_model(active=L.catalog(sc))
        order = L.exposure_order(sc, sc["bands"])
        cal = np.array(case["cal"][:len(order)], dtype=np.float32)
        check(np.all(np.asarray(p.G) == 1), "nominal calibration is not unity")
        p.G[:] = cal
        res = model.residuals(q)
        for j, (e, (x, y, m)) in enumerate(zip(order, L.real_pixels(p))):
            M = ref.image(e) * float(cal[j])
            env = ref.image(e, env=True) * float(cal[j])
            want = files.data[e][x[m], y[m]] - M[x[m], y[m]]
            t = tol(env, files.data[e])[x[m], y[m]]
            check(np.all(np.abs(res[j][m] - want) <= t), "calibration factor %r of exposure %d", cal[j], e)
    info.trivial_if(len(sc["exps"]) == 1)


def body_meta(case, info):
    """Metamorphic: source order, exposure (file) order and band subsets do not matter; sources add."""
    sc = case["scene"]
    bands = sc["bands"]
    with L.SceneFiles(sc) as files:
        cat = L.catalog(sc)
        p, res, pix = residual_images(sc, files, cat, bands)
        order = L.exposure_order(sc, bands)
        base = {e: (r, x) for e, r, x in zip(order, res, pix)}
        env = {}
        ref = L.RefScene(sc)
        for e in order:
            env[e] = ref.image(e, env=True)

        def same(e, r, x, what):
            r0, (x0, y0, m0) = base[e]
            xx, yy, m = x
            a = np.full(env[e].shape, np.nan)
            b = np.full(env[e].shape, np.nan)
            a[x0[m0], y0[m0]] = r0[m0]
            b[xx[m], yy[m]] = r[m]
            check(np.array_equal(np.isnan(a), np.isnan(b)), "%s: different pixels", what)
            t = 2e-4 * env[e] + 3e-6 * env[e].max() + 1e-6 * np.abs(files.data[e])
            check(np.all(np.abs(a - b) <= t), "%s: exposure %d differs by %.3g", what, e, np.abs(a - b).max())

        # source permutation
        perm = np.argsort(np.random.RandomState(case["perm"]).rand(len(cat)))
        p1, r1, x1 = residual_images(sc, files, cat[perm], bands)
        for e, r, x in zip(order, r1, x1):
            same(e, r, x, "source order")
        # file permutation
        fperm = np.argsort(np.random.RandomState(case["perm"] + 1).rand(len(sc["exps"])))
        p2, r2, x2 = residual_images(sc, files, cat, bands, fitsfiles=[files.files[i] for i in fperm])
        order2 = []
        for b in bands:
            order2 += [int(i) for i in fperm if bands[sc["exps"][i]["band"]] == b]
        for e, r, x in zip(order2, r2, x2):
            same(e, r, x, "file order")
        # band subset
        for b in bands:
            p3, r3, x3 = residual_images(sc, files, cat, [b])
            o3 = L.exposure_order(sc, [b])
            check(len(o3) == len(r3), "band subset exposures")
            for e, r, x in zip(o3, r3, x3):
                same(e, r, x, "single band")
        # additivity over sources
        tot = {e: 0.0 for e in order}
        for i in range(len(cat)):
            pi, ri, xi = residual_images(sc, files, cat[i:i + 1], bands)
            for e, r, x in zip(order, ri, xi):
                xx, yy, m = x
                im = np.zeros(env[e].shape)
                im[xx[m], yy[m]] = files.data[e][xx[m], yy[m]].astype(np.float64) - r[m]
                tot[e] = tot[e] + im
        for e in order:
            r0, (x0, y0, m0) = base[e]
            im = np.zeros(env[e].shape)
            im[x0[m0], y0[m0]] = files.data[e][x0[m0], y0[m0]].astype(np.float64) - r0[m0]
            t = 2e-4 * env[e] + 5e-6 * env[e].max() + 3e-6 * np.abs(files.data[e])
            check(np.all(np.abs(im - tot[e]) <= t), "sources do not add up")
    info.label("nsrc%d" % len(cat), "nband%d" % len(bands))
    info.trivial_if(len(cat) == 1 and len(sc["exps"]) == 1)


def moves_st():
    return st.fixed_dictionaries(dict(dx=L.rnd(-0.1, 0.1), dy=L.rnd(-0.1, 0.1), q=L.rnd(0.25, 1.0), pa=L.rnd(-1.7, 1.7),
                                      sersic=L.rnd(0.85, 6.0), rhalf=L.rnd(0.03, 0.9), f=L.rnd(0.3, 3.0)))


def subs():
    render = lambda: st.fixed_dictionaries(dict(
        scene=L.scene_st(), bandorder=st.permutations([0, 1, 2]), masked=masked_st(),
        moves=st.lists(moves_st(), min_size=4, max_size=4)))
    many = lambda: st.fixed_dictionaries(dict(
        scene=L.scene_st(max_bands=5, max_exp=6, max_src=12, maxsize=14, min_bands=2),
        bandorder=st.permutations([0, 1, 2, 3, 4]), masked=masked_st(),
        moves=st.lists(moves_st(), min_size=12, max_size=12)))
    meta = lambda: st.fixed_dictionaries(dict(scene=L.scene_st(max_exp=4, max_src=4, maxsize=16), perm=st.integers(0, 999)))
    return [
        Sub("render", render, body_render, quick=320, thorough=8000, shards=4,
            rule="random scenes of 1-4 sources, 1-3 bands, 1-4 exposures with rotated/flipped/distorted WCS, random PSF mixtures "
                 "and spline tables, rendered at the catalog position and after a move"),
        Sub("render_many", many, body_render, quick=60, thorough=2000, shards=2,
            rule="up to 12 sources in 2-5 bands and 6 exposures"),
        Sub("extreme", lambda: st.fixed_dictionaries(dict(scene=L.extreme_st(), bandorder=st.permutations(range(30)).map(list), masked=masked_st(),
                                                          moves=st.lists(moves_st(), min_size=4, max_size=4))), body_render, quick=112, thorough=2500, shards=4,
            rule="scenes at the limits in one respect: more than 2**15 pixels, 13-30 sources, 6-30 bands, 8-40 exposures, zero/negative/faint/bright fluxes, sources off the image, images of a few pixels"),
        Sub("fluxcal", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(max_exp=5, max_src=2, maxsize=14),
                                                          cal=st.lists(L.rnd(0.2, 5), min_size=5, max_size=5))),
            body_fluxcal, quick=60, thorough=1500, shards=1,
            rule="random calibration factors per exposure", nontrivial_rule="several exposures"),
        Sub("metamorphic", meta, body_meta, quick=80, thorough=2000, shards=2,
            rule="source permutations, file permutations, band subsets, additivity",
            nontrivial_rule="more than one source or exposure"),
    ]
