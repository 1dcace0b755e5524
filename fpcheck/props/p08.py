"""P08: linear flux optimisation."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, scene as L
from .p07 import sub_case

NEEDS_KERNEL = True
ASSUMPTIONS = ["starting fluxes are non-zero (the unit-flux images are obtained by dividing by them)",
               "single-precision images: flux tolerance follows from the normal matrix of the generated problem"]


def body(case, info):
    sc = case["scene"]
    n = len(sc["sources"])
    nb = len(sc["bands"])
    fixed = [i for i in range(n) if case["roles"][i % len(case["roles"])]]
    act = [i for i in range(n) if i not in fixed]
    if not act:
        act, fixed = [n - 1], list(range(n - 1))
    data, unc, ok = like.make_data(sc, case["w"])
    truth = L.RefScene(sc)
    rs = np.random.RandomState(case["seed"])
    # data contain the sources with other fluxes than the catalog's, so that there is something to solve for
    for e, ex in enumerate(sc["exps"]):
        tab = truth.params()
        tab[:, :nb] *= rs.uniform(0.3, 2.0, (n, nb))
        with np.errstate(all="ignore"):
            data[e] = (data[e] * 0.3 + truth.image(e, table=tab)).astype(np.float32)
    ra = L.RefScene(sub_case(sc, act))
    rf = L.RefScene(sub_case(sc, fixed)) if fixed else None
    allbands = [sc["bands"][i] for i in case["bandorder"] + list(range(3, nb)) if i < nb]
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        from forcepho.fitting import optimize_fluxes
        p = L.make_patch(sc, files, allbands=allbands)
        cat = L.catalog(sc)
        active = cat[act].copy()
        for b in sc["bands"]:
            active[b] *= rs.uniform(0.5, 2.0, len(act))   # any non-zero start
        keep = active.copy()
        model, q = p.prepare_model(active=active, fixed=cat[fixed].copy() if fixed else None)
        fluxes, precisions, Xes, ys, ws = optimize_fluxes(p, active, return_all=True)
        check(np.array_equal(active, keep), "active catalog modified")
        check(len(fluxes) == len(precisions) == len(Xes) == len(allbands), "one result per band")
        pix = L.real_pixels(p)
        order = L.exposure_order(sc, allbands)
        sharp = 0
        for bi, b in enumerate(allbands):
            cols, wts, y, tX, tY, mask = [], [], [], [], [], []
            for j, e in enumerate(order):
                if sc["bands"][sc["exps"][e]["band"]] != b:
                    continue
                x, yy, m = pix[j]
                use = np.zeros(len(x), bool)
                use[m] = ok[e][x[m], yy[m]]
                X = np.zeros((len(act), len(x)))
                T = np.zeros((len(act), len(x)))
                for i in range(len(act)):
                    row = ra.params()[i]
                    a = ra.amps(row[nb + 4], row[nb + 5])
                    par = ra.rel(i, row, nb)
                    X[i, m] = ra.source_image(e, i, par, amps=a)[x[m], yy[m]]
                    ev = ra.source_image(e, i, par, amps=a, env=True)
                    fl = active[i][b]
                    T[i, m] = (5e-4 * ev + 3e-6 * ev.max())[x[m], yy[m]] + 4e-6 * np.abs(np.where(ok[e], data[e], 0)[x[m], yy[m]]) / fl
                dd = np.where(ok[e], data[e], 0.0).astype(float)
                t = 5e-6 * np.abs(dd)
                if rf is not None:
                    dd = dd - rf.image(e)
                    fe = rf.image(e, env=True)
                    t = t + 5e-4 * fe + 3e-6 * fe.max()
                    # rounding of data minus fixed also enters the columns
                    T[:, m] += 4e-6 * fe[x[m], yy[m]][None, :] / active[b][:, None]
                Y = np.zeros(len(x)); tt = np.zeros(len(x)); W = np.zeros(len(x))
                Y[m], tt[m] = dd[x[m], yy[m]], t[x[m], yy[m]]
                with np.errstate(all="ignore"):
                    W[m] = np.where(ok[e], 1.0 / unc[e].astype(float), 0.0)[x[m], yy[m]]
                cols.append(X); wts.append(W); y.append(Y); tX.append(T); tY.append(tt); mask.append(use)
            X = np.concatenate(cols, axis=1); W = np.concatenate(wts); Y = np.concatenate(y)
            T = np.concatenate(tX, axis=1); tt = np.concatenate(tY); use = np.concatenate(mask)
            check(np.shape(Xes[bi]) == X.shape, "design matrix of %s has shape %s", b, np.shape(Xes[bi]))
            bad = (np.abs(np.asarray(Xes[bi]) - X) > T)[:, use]
            if bad.any():
                ratio = (np.abs(np.asarray(Xes[bi]) - X) / (T + 1e-300))[:, use]
                check(False, "design matrix of %s: column of source %d is not its unit-flux image (error/allowed %.3g)", b,
                      int(np.argmax(bad.any(1))), ratio.max())
            check(np.all((np.abs(np.asarray(ys[bi]) - Y) <= tt + 1e-30)[use]), "target data of %s", b)
            check(np.allclose(np.asarray(ws[bi])[use], W[use], rtol=1e-6), "weights of %s", b)
            check(np.all(np.asarray(ws[bi])[~use] == 0), "masked pixel has weight in %s", b)
            A = (X * W) @ (X * W).T
            dA = (np.abs(X) * W) @ (T * W).T
            dA = dA + dA.T + (T * W) @ (T * W).T + 1e-6 * np.abs(A)
            check(np.all(np.abs(np.asarray(precisions[bi]) - A) <= dA), "normal matrix of %s: %s, expected %s", b, precisions[bi], A)
            sol, *_ = np.linalg.lstsq((X * W).T, W * Y, rcond=None)
            cond = np.linalg.cond(A)
            # first-order perturbation of the normal equations
            r = W * Y - (X * W).T @ sol
            dv = (T * W) @ np.abs(r) + (np.abs(X) * W) @ (W * tt) + dA @ np.abs(sol)
            try:
                err = np.abs(np.linalg.inv(A)) @ dv
                amplification = np.abs(np.linalg.inv(A)) @ dA
            except np.linalg.LinAlgError:
                continue
            if cond > 1e7 or amplification.max() > 0.2:
                info.label("ill-conditioned")
                continue
            f = np.atleast_1d(fluxes[bi])
            check(f.shape == (len(act),), "fluxes of %s have shape %s", b, f.shape)
            d = np.abs(f - sol)
            tol = 2 * err + 1e-6 * np.abs(sol) + 1e-12
            check(np.all(d <= tol), "%s: fluxes %s, least squares gives %s (tolerance %s)", b, f, sol, tol)
            # no small change of the fluxes improves the weighted chi-square, up to the allowance
            sharp += bool(np.all(tol < 0.05 * np.abs(sol) + 1e-9))
        info.label("sharp%d" % min(sharp, 2), "nact%d" % min(len(act), 5), "nfix%d" % min(len(fixed), 3))
        info.trivial_if(sharp == 0)


def body_oneband(case, info):
    """The solver itself, on arbitrary design matrices."""
    from forcepho.fitting import optimize_one_band
    rs = np.random.RandomState(case["seed"])
    ns, npx = case["ns"], case["ns"] + case["extra"]
    X = rs.normal(size=(ns, npx)) * np.exp(rs.normal(size=(ns, 1)))
    w = np.exp(rs.normal(size=npx)) * (rs.rand(npx) > case["maskfrac"])
    if (w > 0).sum() < ns + 1:
        w[:ns + 1] = 1.0
    fx = rs.normal(size=npx) if case["fixed"] else 0
    y = rs.normal(size=npx) * 3
    c0 = (X.copy(), w.copy(), y.copy())
    flux, prec = optimize_one_band(X, w, y, fixedX=fx) if case["fixed"] else optimize_one_band(X, w, y)
    check(np.array_equal(X, c0[0]) and np.array_equal(w, c0[1]) and np.array_equal(y, c0[2]), "inputs modified")
    flux = np.squeeze(np.atleast_1d(np.asarray(flux)))
    A = (X * w) @ (X * w).T
    check(np.allclose(prec, A, rtol=1e-9, atol=1e-12 * np.abs(A).max()), "precision matrix")
    sol = np.linalg.lstsq((X * w).T, w * (y - fx), rcond=None)[0]
    c = np.linalg.cond(A)
    info.trivial_if(c > 1e9)
    if c < 1e9:
        check(np.allclose(np.atleast_1d(flux), sol, rtol=1e-13 * c * 10 + 1e-9, atol=1e-14 * c * (np.abs(sol).max() + 1) * 10), "solution")


def subs():
    return [
        Sub("scene", lambda: st.fixed_dictionaries(dict(
            scene=L.mostly(L.scene_st(maxsize=20, max_src=4, max_exp=4), L.extreme_st(kinds=["manysrc", "manyband", "manyexp", "bigimage"])), w=like.weights_st(), seed=st.integers(0, 9999),
            bandorder=st.permutations([0, 1, 2]), roles=st.lists(st.booleans(), min_size=1, max_size=4))),
            body, quick=320, thorough=8000, shards=6,
            rule="scenes with masks, several bands and exposures, active and fixed sources, wrong starting fluxes",
            nontrivial_rule="at least one band solved with a tolerance below 5 per cent"),
        Sub("solver", lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), ns=L.mostly(st.integers(1, 6), st.integers(7, 40)), extra=L.mostly(st.integers(1, 40), st.integers(100, 3000)),
                                                         maskfrac=st.sampled_from([0, 0.3]), fixed=st.booleans())),
            body_oneband, quick=500, thorough=20000, shards=1, rule="random weighted least-squares problems"),
    ]
