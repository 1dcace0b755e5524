"""P07: subtraction of fixed and big sources; rendering."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, scene as L
from .p02 import permuted

NEEDS_KERNEL = True
ASSUMPTIONS = ["single-precision kernel: each subtraction may round by the P01 tolerance of the subtracted envelope",
               "a patch is rebuilt before fixed sources are subtracted again (the subtraction is in place by design)"]


def sub_case(sc, idx):
    c = dict(sc)
    c["sources"] = [sc["sources"][i] for i in idx]
    return c


def roles(case):
    n = len(case["scene"]["sources"])
    r = [case["roles"][i % len(case["roles"])] for i in range(n)]
    if "active" not in r:
        r[-1] = "active"
    return {k: [i for i in range(n) if r[i] == k] for k in ("active", "fixed", "big")}


def expand(case):
    """Optionally replicate the sources into a crowd, so that several batches are needed."""
    sc = dict(case["scene"])
    extra = case.get("crowd", 0)
    if extra:
        rs = np.random.RandomState(case["seed"])
        base = sc["sources"]
        srcs = [dict(s) for s in base]
        for k in range(extra):
            b = dict(base[k % len(base)])
            b["dx"] = round(float(rs.uniform(-0.3, 0.3)), 4)
            b["dy"] = round(float(rs.uniform(-0.3, 0.3)), 4)
            b["pa"] = round(float(rs.uniform(-1.5, 1.5)), 3)
            b["flux"] = [round(float(f * rs.uniform(0.2, 2)), 3) for f in b["flux"]]
            srcs.append(b)
        sc["sources"] = srcs
    return sc


def body(case, info):
    sc = expand(case)
    case = dict(case, scene=sc)
    data, unc, ok = like.make_data(sc, case["w"])
    rl = roles(case)
    ac, fc, bc = (sub_case(sc, rl[k]) for k in ("active", "fixed", "big"))
    nb = len(sc["bands"])
    ra = L.RefScene(ac)
    ext = [0.0 for _ in sc["exps"]]
    fim = [np.zeros((e["nx"], e["ny"])) for e in sc["exps"]]
    bspline = None
    if case["bigspline"] and sc["spline"] is not None and bc["sources"]:
        bspline = dict(sc["spline"], seed=sc["spline"]["seed"] + 1)
        # same radii (the PSF bins refer to them), other amplitudes
    for c, isbig in ((fc, False), (bc, True)):
        if not c["sources"]:
            continue
        c2 = dict(c, spline=bspline) if isbig and bspline else c
        r = L.RefScene(c2)
        for e in range(len(sc["exps"])):
            fim[e] = fim[e] + r.image(e)
            ext[e] = ext[e] + r.image(e, env=True)
    ext = [x if np.ndim(x) else np.zeros_like(f) for x, f in zip(ext, fim)]
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < nb]
    order = L.exposure_order(sc, allbands)
    like0 = like.RefLike(ra, [d - f for d, f in zip(data, fim)], unc, ok, extra=ext)
    want, allow, scale = like0.chi2(order)
    G, GA = like0.grad(order, nb)
    cats = {k: (L.catalog(c) if c["sources"] else None) for k, c in (("active", ac), ("fixed", fc), ("big", bc))}
    outs = []
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        bkw = {}
        if bspline:
            import os
            path = os.path.join(files.dir, "bspline.h5")
            L.write_spline(dict(spline=bspline), path)
            bkw = dict(splinedata=path)
        for nmax, rev in ((case["nmax"], False), (case["nmax2"], True)):
            p = L.make_patch(sc, files, allbands=allbands)
            kw = {k: (None if v is None else (v[::-1].copy() if rev and k != "active" else v.copy())) for k, v in cats.items()}
            keep = {k: (None if v is None else v.copy()) for k, v in kw.items()}
            model, q = p.prepare_model(active=kw["active"], fixed=kw["fixed"], big=kw["big"], maxactive=nmax,
                                       big_scene_kwargs=bkw)
            for k in kw:
                check(kw[k] is None or np.array_equal(kw[k], keep[k]), "%s catalog modified", k)
            check(p.n_sources == len(ac["sources"]), "active source count %d", p.n_sources)
            left = np.asarray(p.retrieve_array("data"))
            nbatch = -(-len(fc['sources']) // nmax) + -(-len(bc['sources']) // nmax)
            parts = np.split(left, np.cumsum(p.exposure_N)[:-1])
            res = model.residuals(q.copy())
            ierr = p.split_pix("ierr")
            for j, (e, (x, y, m)) in enumerate(zip(order, L.real_pixels(p))):
                dd = np.where(ok[e], data[e], 0.0)
                w = (dd - fim[e])[x[m], y[m]]
                t = (5e-4 * ext[e] + 3e-6 * ext[e].max() + 3e-6 * (1 + nbatch) * np.abs(dd))[x[m], y[m]] + 1e-30
                use = ok[e][x[m], y[m]]
                d = np.abs(parts[j][m] - w)
                check(np.all((d <= t)[use]), "exposure %d: data left after subtraction off by %.3g (allowed %.3g)",
                      e, d[use].max(), t[use][np.argmax(d[use] - t[use])])
                check(np.all(ierr[j][m][~use] == 0) and np.all(ierr[j][~m] == 0), "masked pixel got weight")
                ea = ra.image(e, env=True)
                w2 = w - ra.image(e)[x[m], y[m]]
                t2 = t + (5e-4 * ea + 3e-6 * ea.max())[x[m], y[m]]
                check(np.all((np.abs(res[j][m] - w2) <= t2)[use]), "exposure %d: residual of the active sources", e)
            l1 = float(model.lnprob(q.copy()))
            check(abs(-2 * l1 - want) <= allow + 1e-6 * abs(want), "log-likelihood %r, expected %r (allowance %.3g)",
                  l1, -0.5 * want, 0.5 * allow)
            g = np.asarray(model.lnprob_grad(q.copy())).reshape(len(ac["sources"]), -1)
            col = [sc["bands"].index(b) for b in p.bandlist] + list(range(nb, nb + 6))
            d = np.abs(-2 * g - G[:, col])
            check(np.all(d <= GA[:, col] + 1e-5 * np.abs(G[:, col]) + 1e-12), "gradient off: %s vs %s", -2 * g, G[:, col])
            # repeated evaluation does not subtract anything again
            same = 0.0 if L.BACKEND == "cpu" else 1e-9 * (scale + abs(want))   # threads may add up in another order
            check(abs(float(model.lnprob(q + 0.0)) - l1) <= same, "value changes on repetition")
            z = q.copy()
            z[0] *= 1.5
            model.lnprob(z)
            check(abs(float(model.lnprob(q.copy())) - l1) <= same, "value depends on history")
            # what was retrieved is a copy, in both directions
            kept = left.copy()
            r0 = p.retrieve_array("residual")
            r1 = r0.copy()
            model.lnprob(z)
            check(np.array_equal(r0, r1, equal_nan=True) and np.array_equal(left, kept, equal_nan=True), "an array retrieved earlier changed with a later evaluation")
            mine = p.retrieve_array("data")
            mine[:] = -7.25
            r0[:] = -7.25
            check(abs(float(model.lnprob(q + 0.0)) - l1) <= same, "overwriting a retrieved array changed the likelihood")
            outs.append(kept)
    scale = max(float(np.max(np.abs(np.where(o, d, 0)))) for o, d in zip(ok, data)) + max(float(x.max()) for x in ext)
    fin = np.isfinite(outs[0])
    check(np.array_equal(fin, np.isfinite(outs[1])), "finite pixels differ between batchings")
    nf = len(fc["sources"]) + len(bc["sources"])
    check(np.all(np.abs(outs[0][fin] - outs[1][fin]) <= 3e-6 * (1 + nf) * scale), "batching or order matters: %g",
          np.abs(outs[0][fin] - outs[1][fin]).max())
    info.label("fixed%d" % min(len(fc["sources"]), 4), "big%d" % min(len(bc["sources"]), 4), "bigspline" if bspline else "samespline",
               "batches%d" % min(3, -(-len(fc["sources"]) // case["nmax"])), "crowd" if case.get("crowd") else "few")
    info.trivial_if(nf == 0)


def body_noactive(case, info):
    """Without active sources the local data end up with every fixed source removed once."""
    sc = expand(case)
    with L.SceneFiles(sc) as files:
        p = L.make_patch(sc, files)
        ref = L.RefScene(sc)
        proposer, last = p.subtract_fixed(L.catalog(sc), maxactive=case["nmax"], swap_local=True)
        parts = np.split(np.asarray(p.retrieve_array("data")), np.cumsum(p.exposure_N)[:-1])
        for j, (e, (x, y, m)) in enumerate(zip(L.exposure_order(sc, sc["bands"]), L.real_pixels(p))):
            env = ref.image(e, env=True)
            want = (files.data[e] - ref.image(e))[x[m], y[m]]
            t = (5e-4 * env + 3e-6 * env.max() + 3e-6 * (1 + len(sc['sources'])) * np.abs(files.data[e]))[x[m], y[m]]
            check(np.all(np.abs(parts[j][m] - want) <= t), "exposure %d: data minus all fixed sources", e)
        # what stays loaded is the last block: evaluating it subtracts its image from what is left
        nlast = len(last.sources)
        rl = L.RefScene(sub_case(sc, range(len(sc["sources"]) - nlast, len(sc["sources"]))))
        p.return_residual = True
        res = proposer.evaluate_proposal(last.get_proposal(), patch=p)[-1]
        for j, (e, (x, y, m)) in enumerate(zip(L.exposure_order(sc, sc["bands"]), L.real_pixels(p))):
            env = rl.image(e, env=True)
            t = (5e-4 * env + 3e-6 * env.max())[x[m], y[m]] + 5e-6 * np.abs(parts[j][m]).max()
            check(np.all(np.abs(parts[j][m] - res[j][m] - rl.image(e)[x[m], y[m]]) <= t), "exposure %d: loaded block", e)
    info.label("batches%d" % min(4, -(-len(sc["sources"]) // case["nmax"])))


def body_render(case, info):
    sc = case["scene"]
    n = len(sc["sources"])
    with L.SceneFiles(sc) as files:
        p = L.make_patch(sc, files)
        cat = L.catalog(sc)
        k = case["split"] % n
        sub = [i for i in range(n) if i != k] or [0]
        if case["when"] == "after_model":
            p.prepare_model(active=cat[k:k + 1].copy(), fixed=cat[sub].copy())
        before = np.array(p.retrieve_array("data"))
        flag = p.return_residual
        what = [k] if case["one"] else list(range(n))
        for rep in range(2):
            ims = p.render(cat[what].copy())
            ref = L.RefScene(sub_case(sc, what))
            order = L.exposure_order(sc, sc["bands"])
            check(len(ims) == len(order), "one image per exposure")
            for j, (e, (x, y, m)) in enumerate(zip(order, L.real_pixels(p))):
                env = ref.image(e, env=True)
                t = (5e-4 * env + 3e-6 * env.max())[x[m], y[m]] + 5e-6 * np.abs(before).max()
                check(np.all(np.abs(np.asarray(ims[j])[m] - ref.image(e)[x[m], y[m]]) <= t), "rendered image of exposure %d", e)
        check(np.array_equal(before, p.retrieve_array("data")), "rendering changed the data")
        check(p.return_residual == flag, "rendering changed the residual setting")
    info.label(case["when"], "one" if case["one"] else "all")


def roles_st():
    return st.lists(st.sampled_from(["active", "fixed", "fixed", "big"]), min_size=1, max_size=8)


def subs():
    base = lambda **kw: dict(w=like.weights_st(), roles=roles_st(), nmax=st.integers(1, 5), nmax2=st.integers(1, 15),
                             bigspline=st.booleans(), bandorder=st.permutations([0, 1, 2]), seed=st.integers(0, 9999), **kw)
    return [
        Sub("subtract", lambda: st.fixed_dictionaries(base(scene=L.scene_st(maxsize=16, max_src=7, nmin_src=2, max_exp=3))),
            body, quick=360, thorough=8000, shards=6,
            rule="sources split into active, fixed and big; two batch limits and orders per case",
            nontrivial_rule="at least one subtracted source"),
        Sub("crowd", lambda: st.fixed_dictionaries(base(scene=L.scene_st(maxsize=12, max_src=3, nmin_src=2, max_exp=2, max_bands=2),
                                                        crowd=st.integers(12, 45))).map(lambda c: dict(c, roles=["active"] + ["fixed"] * 7 + ["big"], nmax=c["nmax"] * 4)),
            body, quick=60, thorough=1200, shards=4,
            rule="up to 48 sources in batches of 4-20", nontrivial_rule="at least one subtracted source"),
        Sub("noactive", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(maxsize=12, max_src=5, max_exp=3), nmax=st.integers(1, 4),
                                                           crowd=st.sampled_from([0, 0, 0, 6]), seed=st.integers(0, 9999))),
            body_noactive, quick=120, thorough=2000, shards=2, rule="subtraction of everything, no active scene"),
        Sub("render", lambda: st.fixed_dictionaries(dict(scene=st.one_of(*[L.scene_st(maxsize=14, max_src=4, max_exp=3)] * 7, L.extreme_st(kinds=["bigimage", "manyexp", "manyband"])), split=st.integers(0, 3),
                                                         one=st.booleans(), when=st.sampled_from(["fresh", "after_model"]))),
            body_render, quick=120, thorough=2000, shards=2, rule="model images of whole and partial catalogs, before and after a model is prepared"),
    ]
