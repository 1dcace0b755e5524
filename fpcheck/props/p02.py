"""P02: log-likelihood value against the pixel-wise chi-square."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["single-precision kernel: the allowance is the propagated per-pixel model tolerance of P01"]


def permuted(q_table, sc, p):
    nb = len(sc["bands"])
    ref0 = np.asarray(p.patch_reference_coordinates)
    rows = []
    for r in q_table:
        rows.append([r[sc["bands"].index(b)] for b in p.bandlist] +
                    [r[nb] - ref0[0], r[nb + 1] - ref0[1]] + list(r[nb + 2:]))
    return np.concatenate(rows)


def body(case, info):
    sc, w = case["scene"], case["w"]
    data, unc, ok = like.make_data(sc, w)
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < len(sc["bands"])]
    ref = L.RefScene(sc)
    rl = like.RefLike(ref, data, unc, ok)
    order = L.exposure_order(sc, allbands)
    want, allow, scale = rl.chi2(order)
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        p = L.make_patch(sc, files, allbands=allbands)
        model, q = p.prepare_model(active=L.catalog(sc))
        lnp = float(model.lnprob(q.copy()))
        check(np.isfinite(lnp), "non-finite log-likelihood %r", lnp)
        check(abs(-2 * lnp - want) <= allow + 1e-6 * abs(want), "log-likelihood %r, expected %r (allowance %.3g)",
              lnp, -0.5 * want, 0.5 * allow)
        g = np.asarray(model.lnprob_grad(q.copy()))
        check(np.all(np.isfinite(g)), "non-finite gradient")
        # evaluated through the proposer: per-band values
        prop = model.scene.get_proposal()
        ret = model.proposer.evaluate_proposal(prop, patch=p)
        chi2 = np.asarray(ret[0], dtype=float)
        for b, c in zip(p.bandlist, chi2):
            wb, ab, _ = rl.chi2(L.exposure_order(sc, [b]))
            check(abs(c - wb) <= ab + 1e-6 * abs(wb), "band %s chi2 %r, expected %r", b, c, wb)
        # a different point on the same patch
        table = ref.params()
        nb = len(sc["bands"])
        table[:, :nb] *= case["fscale"]
        table[:, nb + 3] += 0.2
        q2 = permuted(table, sc, p)
        l2 = float(model.lnprob(q2))
        w2, a2, _ = rl.chi2(order, table=table)
        check(abs(-2 * l2 - w2) <= a2 + 1e-6 * abs(w2), "second point: %r, expected %r", l2, -0.5 * w2)
    info.label(sc.get("extreme", "plain"), "mode_" + w["mode"], "bad%d" % min(w["nbad"], 3), "nband%d" % len(allbands), "nexp%d" % len(order),
               "sharp" if allow < 0.01 * scale else "blunt")
    info.trivial_if(scale == 0)


def body_mask(case, info):
    """Metamorphic: the contents of masked pixels and the amount of padding change nothing at all."""
    sc, w = case["scene"], case["w"]
    data, unc, ok = like.make_data(sc, w)
    rs = np.random.RandomState(case["mseed"])
    # mask some extra pixels in two different ways
    d1, u1, d2, u2 = [], [], [], []
    nm = 0
    for d, u in zip(data, unc):
        m = rs.rand(*d.shape) < case["frac"]
        nm += int(m.sum())
        a, b, c, e = d.copy(), u.copy(), d.copy(), u.copy()
        b[m] = np.inf
        a[m] = 0
        c[m] = rs.choice([1e6, -1e6, 3.0], size=m.sum()).astype(np.float32)
        e[m] = np.inf
        k = rs.rand(*d.shape) < 0.3
        c[m & k] = np.nan
        d1.append(a); u1.append(b); d2.append(c); u2.append(e)
    vals = []
    for d, u in ((d1, u1), (d2, u2)):
        with L.SceneFiles(sc, data=d, unc=u) as files:
            p = L.make_patch(sc, files)
            model, q = p.prepare_model(active=L.catalog(sc))
            vals.append((float(model.lnprob(q.copy())), np.array(model.lnprob_grad(q.copy()))))
    check(vals[0][0] == vals[1][0], "value depends on masked pixels: %r vs %r", vals[0][0], vals[1][0])
    check(np.array_equal(vals[0][1], vals[1][1]), "gradient depends on masked pixels")
    # additivity over exposures: the sum of single-exposure likelihoods
    tot, mags = 0.0, 0.0
    with L.SceneFiles(sc, data=d1, unc=u1) as files:
        for f, e in zip(files.files, sc["exps"]):
            b = sc["bands"][e["band"]]
            p = L.make_patch(sc, files, fitsfiles=[f], allbands=[b])
            model, q = p.prepare_model(active=L.catalog(sc))
            v = float(model.lnprob(q.copy()))
            tot += v
            mags += abs(v)
    check(abs(tot - vals[0][0]) <= 1e-9 * mags + 1e-9, "exposures do not add up: %r vs %r", tot, vals[0][0])
    info.label("masked" if nm else "nothing masked")
    info.trivial_if(nm == 0)


def subs():
    return [
        Sub("value", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(), w=like.weights_st(),
                                                        bandorder=st.permutations([0, 1, 2]), fscale=L.rnd(0.2, 4))),
            body, quick=400, thorough=10000, shards=4,
            rule="random scenes with flat, varying or spiky weights and invalid pixels of eight kinds; two evaluation points",
            nontrivial_rule="model contributes to the chi-square"),
        Sub("extreme", lambda: st.fixed_dictionaries(dict(scene=L.extreme_st(), w=like.weights_st(),
                                                          bandorder=st.permutations(range(30)).map(list), fscale=L.rnd(0.2, 4))),
            body, quick=84, thorough=2000, shards=3,
            rule="scenes at the limits in one respect (see P01)", nontrivial_rule="model contributes to the chi-square"),
        Sub("masks", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(maxsize=14, max_exp=3, max_src=3), w=like.weights_st(),
                                                        mseed=st.integers(0, 9999), frac=st.sampled_from([0.02, 0.2, 0.6]))),
            body_mask, quick=100, thorough=3000, shards=3,
            rule="same scene with different numbers under masked pixels; per-exposure additivity",
            nontrivial_rule="some pixels masked"),
    ]
