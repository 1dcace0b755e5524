"""P03: likelihood gradient against derivatives of the independent model."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, scene as L
from .p02 import permuted

NEEDS_KERNEL = True
ASSUMPTIONS = ["single-precision kernel: allowance 2e-3 of the summed absolute pixel contributions"]


def body(case, info):
    sc, w = case["scene"], case["w"]
    data, unc, ok = like.make_data(sc, w)
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < len(sc["bands"])]
    ref = L.RefScene(sc)
    rl = like.RefLike(ref, data, unc, ok)
    order = L.exposure_order(sc, allbands)
    nb = len(sc["bands"])
    table = ref.params()
    for i, mv in enumerate(case["moves"][:len(table)]):
        dec = np.deg2rad(table[i, nb + 1])
        table[i, nb] += mv["dx"] / 3600.0 / np.cos(dec)
        table[i, nb + 1] += mv["dy"] / 3600.0
        table[i, nb + 2] = mv["q"]
        table[i, nb + 3] = mv["pa"]
        table[i, nb + 4] = mv["sersic"]
        table[i, nb + 5] = mv["rhalf"]
    g, a = rl.grad(order, nb, table=table)
    # reorder the flux columns to the patch's band order
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        p = L.make_patch(sc, files, allbands=allbands)
        model, q0 = p.prepare_model(active=L.catalog(sc))
        q = permuted(table, sc, p)
        got = np.array(model.lnprob_grad(q)).reshape(len(table), -1)
        idx = [sc["bands"].index(b) for b in p.bandlist] + list(range(nb, nb + 6))
    want, tol = -0.5 * g[:, idx], 0.5 * a[:, idx]
    check(got.shape == want.shape, "gradient has shape %s", got.shape)
    err = np.abs(got - want)
    bad = err > tol + 1e-12
    names = list(p.bandlist) + L.SHAPES
    if bad.any():
        i, j = np.unravel_index(np.argmax(err / (tol + 1e-300)), err.shape)
        check(False, "d lnL / d %s of source %d is %r, expected %r (allowance %.3g)", names[j], i, got[i, j],
              want[i, j], tol[i, j])
    r = (err / (tol + 1e-300)).max()
    info.label(sc.get("extreme", "plain"), "margin<10%" if r < 0.1 else "margin<50%" if r < 0.5 else "margin>50%", "nsrc%d" % len(table),
               "nband%d" % nb, "sharp" if np.all(tol < 0.2 * np.abs(want) + 1e-30) else "mixed")


def subs():
    from .p01 import moves_st
    return [
        Sub("gradient", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(), w=like.weights_st(), bandorder=st.permutations([0, 1, 2]),
            moves=st.lists(moves_st(), max_size=4))),
            body, quick=360, thorough=9000, shards=6,
            rule="random scenes; gradients of every parameter at a moved point"),
        Sub("extreme", lambda: st.fixed_dictionaries(dict(scene=L.extreme_st(), w=like.weights_st(), bandorder=st.permutations(range(30)).map(list),
                                                          moves=st.lists(moves_st(), max_size=4))), body, quick=72, thorough=1500, shards=4,
            rule="scenes at the limits in one respect (see P01)"),
        Sub("gradient_many", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(max_bands=5, min_bands=2, max_exp=6, max_src=10, maxsize=14), w=like.weights_st(),
            bandorder=st.permutations([0, 1, 2, 3, 4]), moves=st.lists(moves_st(), max_size=10))),
            body, quick=48, thorough=1500, shards=2,
            rule="up to 10 sources, 5 bands, 6 exposures"),
    ]
