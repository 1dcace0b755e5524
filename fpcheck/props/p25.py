"""P25: optimisation and sampling drivers on generated posteriors."""
import argparse
import logging

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["starting points strictly inside the bounds",
               "re-evaluation goes through the inverse transform of the stored chain; its rounding, times the gradient, is allowed for"]


def toy_st():
    dim = st.fixed_dictionaries(dict(lo=L.rnd(-50, 50), w=st.sampled_from([0.01, 1.0, 30.0]), u=L.rnd(0.02, 0.98), m=L.rnd(-0.3, 1.3), s=L.rnd(0.1, 2.0)))
    return st.fixed_dictionaries(dict(dims=L.mostly(st.lists(dim, min_size=1, max_size=5), st.lists(dim, min_size=8, max_size=30)), rho=L.rnd(-0.6, 0.6), off=L.rnd(-1e3, 1e3), bounded=st.sampled_from([True, True, True, False])))


def make_toy(t, flat=False):
    """A correlated Gaussian in the box, as a subclass of the package's own Posterior base class."""
    import forcepho.model as M
    lo = np.array([d["lo"] for d in t["dims"]])
    hi = lo + np.array([d["w"] for d in t["dims"]])
    mu = lo + np.array([d["m"] for d in t["dims"]]) * (hi - lo)
    sg = np.array([d["s"] for d in t["dims"]]) * (hi - lo)
    n = len(lo)
    R = np.eye(n)
    for i in range(n - 1):
        R[i, i + 1] = R[i + 1, i] = t["rho"] * 0.5
    P = np.linalg.inv(R * np.outer(sg, sg))
    if flat:
        P = P * 0.0

    class Toy(M.Posterior):
        def __init__(self, **kw):
            super().__init__(**kw)
            self._z = -99
            self.sampling = True
            self.calls = []

        def lnlike(self, q):
            d = q - mu
            return -0.5 * d @ P @ d + t["off"], -P @ d

        def evaluate(self, z):
            q = self.make_transform(z)
            ll, g = self.lnlike(q)
            self._lnp, self._lnp_grad = ll, g * self._jacobian
            if self.sampling:
                self._lnp = self._lnp + self._lndetjac
                self._lnp_grad = self._lnp_grad + self._lndetjac_grad
            self._z = np.array(z)
            self.calls.append(np.array(z))
            self.ncall += 1

    model = Toy(lower=lo, upper=hi)
    if not t["bounded"]:
        model.transform = None
    q0 = lo + np.array([d["u"] for d in t["dims"]]) * (hi - lo)
    return model, q0, lo, hi


def inside(chain, lo, hi, what):
    chain = np.asarray(chain)
    check(np.all(np.isfinite(chain)), "%s: non-finite values", what)
    tol = 1e-12 * (np.abs(lo) + np.abs(hi))
    check(np.all(chain >= lo - tol) and np.all(chain <= hi + tol), "%s leaves the bounds: %s not in %s..%s", what, chain, lo, hi)


def body_opt(case, info):
    import forcepho.fitting as F
    model, q0, lo, hi = make_toy(case["toy"])
    model.sampling = case["sampling"]
    keep = q0.copy()
    kw = dict(gtol=case["gtol"])
    seen = []
    if case["callback"]:
        kw["callback"] = lambda *a, **k: seen.append(1)
    if case.get("box"):
        # the quasi-Newton optimiser with limits; it takes them from the caller when there is no transform
        model.calls.clear()
        res, sci = F.run_opt_bounded(model, q0, jac=case["jac"], bounds=list(zip(lo, hi)), disp=False, iprint=-1, **kw)
        inside(np.asarray(res.chain)[0], lo, hi, "the bounded optimum")
    else:
        res, sci = F.run_opt(model, q0, jac=case["jac"], **kw)
    check(np.array_equal(q0, keep), "the starting point was modified")
    n = len(q0)
    check(np.asarray(res.chain).shape == (1, n), "shape of the chain %s", np.shape(res.chain))
    check(res.ndim == n and np.array_equal(res.starting_position, keep), "start not recorded")
    qf = np.asarray(res.chain)[0]
    if model.transform is not None:
        inside(qf, lo, hi, "the optimum")
        z0 = model.transform.inverse_transform(q0)
        zf = np.asarray(sci.x)
        check(np.allclose(model.transform.transform(zf), qf, rtol=1e-12, atol=0), "the chain is not the optimiser's solution")
    else:
        z0, zf = q0, np.asarray(sci.x)
        check(np.array_equal(zf, qf), "the chain is not the optimiser's solution")
    model._z = -99
    f0 = -model.lnprob(np.array(z0))
    ff = -model.lnprob(np.array(zf))
    mag = abs(f0) + abs(ff) + 1
    check(ff <= f0 + 1e-9 * mag, "optimum is worse than the start: %r > %r", ff, f0)
    check(abs(res.fun - ff) <= 1e-9 * mag, "reported objective %r, re-evaluated %r", res.fun, ff)
    check(abs(res.lnp + ff) <= 1e-9 * mag, "reported log-probability %r, re-evaluated %r", res.lnp, -ff)
    check(len(res.jac) == n, "gradient length")
    if case["jac"]:
        g = -np.asarray(model.lnprob_and_grad(np.array(zf))[1])
        check(np.allclose(res.jac, g, rtol=1e-6, atol=1e-6 * (1 + np.abs(g).max())), "reported gradient %s, re-evaluated %s", res.jac, g)
    check(any(np.array_equal(c, z0) for c in model.calls[:3]), "the optimisation did not begin at the given start")
    if sci.success and not case.get("box") and not case["sampling"] and case["jac"] and case["gtol"] <= 1e-4:
        # converged: no downhill direction left in the sampling space
        g = np.asarray(model.lnprob_and_grad(np.array(zf))[1])
        check(np.abs(g).max() <= 10 * case["gtol"] + 1e-9 * mag, "converged with gradient %s", g)
    info.label("jac" if case["jac"] else "nojac", "bounded" if model.transform is not None else "free", "n%d" % n)
    info.trivial_if(abs(ff - f0) <= 1e-12 * mag)


def body_lmc(case, info):
    import forcepho.fitting as F
    t = case["toy"]
    n = len(t["dims"])
    rs = np.random.RandomState(case["seed"])
    A = rs.normal(0, 1, (n, n))
    cov = A @ A.T / n + 0.1 * np.eye(n)
    kw = dict(warmup=[case["tune"]], max_treedepth=case["depth"], discard_tuned_samples=case["discard"], full=case["full"],
              weight=case["weight"], random_seed=case["seed"])
    if case["cov"]:
        kw["z_cov"] = cov

    def run(seed=None):
        model, q0, lo, hi = make_toy(t)
        k = dict(kw)
        if seed is not None:
            k["random_seed"] = seed
        if "z_cov" in k:
            k["z_cov"] = cov.copy()
        keep = q0.copy()
        out = F.run_lmc(model, q0, case["draws"], **k)
        check(np.array_equal(q0, keep), "the starting point was modified")
        if "z_cov" in k:
            check(np.array_equal(k["z_cov"], cov), "the covariance was modified")
        return (model, q0, lo, hi) + out
    model, q0, lo, hi, res, step, stats = run()
    nexp = case["draws"] + (0 if case["discard"] else case["tune"])
    chain = np.asarray(res.chain)
    check(chain.shape == (nexp, n), "chain shape %s, expected %s", chain.shape, (nexp, n))
    check(len(stats) == nexp, "%d statistics for %d samples", len(stats), nexp)
    if model.transform is not None:
        inside(chain, lo, hi, "the chain")
    check(res.ndim == n and np.array_equal(res.starting_position, q0), "start not recorded")
    check(res.n_call == model.ncall == len(model.calls), "reported %s calls, made %s", res.n_call, len(model.calls))
    z0 = model.transform.inverse_transform(q0) if model.transform is not None else q0
    check(np.allclose(model.calls[0], z0, rtol=1e-12), "sampling started at %s, not at %s", model.calls[0], z0)
    ntune = sum(bool(np.all(s["tune"])) for s in stats)
    check(ntune == (0 if case["discard"] else case["tune"]), "%d samples marked as tuning", ntune)
    w = hi - lo
    ref, *_ = make_toy(t)
    for q, s in zip(chain, stats):
        if model.transform is not None:
            x = (q - lo) / w
            edge = np.minimum(x, 1 - x).min()
            if edge < 1e-6:
                continue
            z = ref.transform.inverse_transform(q)
            zerr = 1e-14 * (np.abs(lo) + np.abs(hi)) / (w * edge)
        else:
            z, zerr = q, 1e-15 * np.abs(q)
        lp, g = ref.lnprob_and_grad(z)
        check(np.allclose(model.transform.transform(z), q, rtol=1e-12, atol=1e-14 * np.abs(hi).max()) if model.transform is not None else True, "round trip")
        tol = 1e-8 * (abs(lp) + 1) + 10 * np.sum(np.abs(g) * zerr)
        check(abs(float(np.squeeze(s["model_logp"])) - lp) <= tol, "recorded log-probability %r, re-evaluated %r", float(np.squeeze(s["model_logp"])), lp)
    # same seed, same chain
    res2 = run()[4]
    check(np.array_equal(np.asarray(res2.chain), chain), "the same random seed gives a different chain")
    res3 = run(seed=case["seed"] + 1)[4]
    moved = len(np.unique(chain[:, 0])) > 2
    check(not moved or not np.array_equal(np.asarray(res3.chain), chain), "a different random seed gives the same chain")
    # without tuning, the supplied matrix is the one used
    if case["tune"] == 0:
        want = cov if case["cov"] else np.eye(n)
        if case["full"]:
            got = np.asarray(step.potential._cov)
            check(np.allclose(got, want, rtol=1e-5, atol=1e-6), "covariance in use %s, supplied %s", got, want)
        else:
            got = np.asarray(step.potential._var)
            check(np.allclose(got, np.diag(want), rtol=1e-5, atol=1e-6), "variances in use %s, supplied %s", got, np.diag(want))
    info.label("full" if case["full"] else "diag", "discard" if case["discard"] else "keep", "bounded" if model.transform is not None else "free",
               "tune0" if case["tune"] == 0 else "tuned")
    info.trivial_if(not moved)


def body_pot(case, info):
    """Mass matrices: supplied, from a trace, or default; made positive definite without touching the input."""
    import forcepho.fitting as F
    rs = np.random.RandomState(case["seed"])
    n = case["n"]
    mean = rs.normal(0, 3, n)
    kw = dict(adapt=False, full=case["full"], weight=10, init_mean=mean.copy())
    if case["how"] == "cov":
        A = rs.normal(0, 1, (n, n))
        cov = A @ A.T / n + 0.2 * np.eye(n)
    elif case["how"] == "singular":
        v = rs.normal(0, 1, n)
        cov = np.outer(v, v)
    elif case["how"] == "trace":
        tr = rs.normal(0, 1, (n, 40 * n)) * rs.uniform(0.5, 3, n)[:, None] + rs.normal(0, 5, n)[:, None]
        d = tr - tr.mean(axis=1, keepdims=True)
        cov = d @ d.T / (tr.shape[1] - 1)
    else:
        cov = np.eye(n)
    if case["how"] in ("cov", "singular"):
        arg = cov.copy()
        kw["init_cov"] = arg
    elif case["how"] == "trace":
        kw["trace"] = tr
        mean = tr.mean(axis=1)
    pot = F.get_pot(n, **kw)
    if case["how"] in ("cov", "singular"):
        check(np.array_equal(arg, cov), "the supplied covariance was modified")
    got = np.asarray(pot._cov) if case["full"] else np.diag(np.asarray(pot._var))
    want = cov if case["full"] else np.diag(np.diag(cov))
    if case["how"] == "singular":
        # regularised on the diagonal only
        off = got - want
        d = np.diag(off)
        check(np.allclose(off, np.diag(d), atol=1e-5) and np.ptp(d) < 1e-5 and -1e-6 < d.min() and d.max() < 0.01, "regularised by %s", off)
        if case["full"]:
            check(np.linalg.eigvalsh(got).min() > -1e-5, "not positive")
    else:
        check(np.allclose(got, want, rtol=1e-4, atol=1e-5), "matrix %s, expected %s", got, want)
    info.label(case["how"], "full" if case["full"] else "diag")


def body_dist(case, info):
    """A flat posterior in a box is sampled uniformly; a narrow one at its mean (generous limits)."""
    import forcepho.fitting as F
    t = dict(dims=[dict(lo=case["lo"], w=case["w"], u=0.5, m=case["m"], s=case["s"])], rho=0.0, off=0.0, bounded=True)
    model, q0, lo, hi = make_toy(t, flat=case["flat"])
    res, step, stats = F.run_lmc(model, q0, 700, warmup=[200], full=case["full"], z_cov=np.eye(1), random_seed=case["seed"])
    x = (np.asarray(res.chain)[:, 0] - lo[0]) / (hi - lo)[0]
    grid = np.linspace(0, 1, 2001)
    p = np.ones_like(grid) if case["flat"] else np.exp(-0.5 * ((grid - case["m"]) / case["s"])**2)
    p /= p.sum()
    m = (p * grid).sum()
    sd = np.sqrt((p * (grid - m)**2).sum())
    check(abs(x.mean() - m) < 0.6 * sd, "mean %s, expected %s +- %s", x.mean(), m, sd)
    check(0.55 * sd < x.std() < 1.6 * sd, "spread %s, expected %s", x.std(), sd)


def make_bounds(cat, bands, w):
    dt = [(c, np.float64, (2,)) for c in list(bands) + L.SHAPES]
    b = np.zeros(len(cat), dtype=np.dtype(dt))
    half = dict(ra=3e-5, dec=3e-5, q=0.15, pa=0.5, sersic=0.5, rhalf=0.02)
    for i in range(len(cat)):
        for c in b.dtype.names:
            v = float(cat[i][c])
            h = half.get(c, 0.6 * abs(v) + 1.0) * w
            b[i][c] = (v - h, v + h * 0.8)
    return b


def body_tasks(case, info):
    import forcepho.tasks as T
    sc = case["scene"]
    data = [np.asarray(im) for im in case_data(sc)]
    cat = L.catalog(sc)
    nb, n = len(sc["bands"]), len(cat)
    cfg = argparse.Namespace(bands=list(sc["bands"]), add_barriers=case["barriers"], gtol=case["gtol"], linear_optimize=case["linear"],
                             flux_prior_expansion=case["expand"], sampling_draws=case["draws"], warmup=[case["tune"]], max_treedepth=3, progressbar=False)
    log = logging.getLogger("p25")
    log.setLevel(logging.CRITICAL)
    import numpy.lib.recfunctions as rfn
    cat = rfn.append_fields(cat, "source_index", np.arange(n)[::-1] * 5 + 11, usemask=False)
    if case["niter"]:
        cat = rfn.append_fields(cat, "n_iter", np.arange(n) * 7 + (3.0 if case["niter"] == 1 else 40.0), usemask=False)
    cat0 = cat.copy()

    with L.SceneFiles(sc, data=data) as files:
        def opt(seed):
            p = L.make_patch(sc, files)
            sp = argparse.Namespace()
            np.random.seed(seed)
            b = make_bounds(cat, sc["bands"], case["w"])
            res = T.optimize(p, (None, cat.copy(), None, b), cfg, log, scratchpad=sp)
            return p, sp, res, make_bounds(cat, sc["bands"], case["w"])
        p, sp, ((out, step, stats), (region, active, fixed, bounds), model), b0 = opt(case["seed"])
        bl = [str(x) for x in p.bandlist]
        # positions in the vector are offsets from a point fixed when the patch is prepared
        ref = np.array([float(np.median(cat0["ra"])), float(np.median(cat0["dec"]))])
        check(np.allclose(np.asarray(sp.q_initial).reshape(n, -1)[:, nb:nb + 2] + ref, np.array([cat0["ra"], cat0["dec"]]).T, rtol=0, atol=1e-9), "position offsets")
        cols = bl + L.SHAPES
        lo = np.array([[b0[i][c][0] for c in cols] for i in range(n)])
        hi = np.array([[b0[i][c][1] for c in cols] for i in range(n)])
        off = np.zeros(len(cols))
        off[nb:nb + 2] = ref
        chain = np.asarray(out.chain)
        check(chain.shape == (1, n * len(cols)), "optimiser chain %s", chain.shape)
        q = chain[-1].reshape(n, -1) + off
        inside(q, lo, hi, "the optimum")
        inside(np.asarray(sp.q_start).reshape(n, -1) + off, lo, hi, "the random start")
        check(model.sampling is True or model.sampling == True, "sampling mode not restored")  # noqa: E712
        check(model._lnpriorfn is None, "edge penalty left in the model")
        check(fixed is None and region is None, "region or fixed sources changed")
        check(len(active) == n and np.array_equal(active["source_index"], cat0["source_index"]), "sources renumbered")
        for i in range(n):
            for k, c in enumerate(cols):
                if case["linear"] and c in bl:
                    continue
                v = float(active[i][c])
                check(abs(v - q[i, k]) <= 3e-7 * abs(q[i, k]) + (1e-6 if c not in ("ra", "dec") else 1e-9), "source %d %s is %r after the fit, the chain has %r", i, c, v, q[i, k])
        # never worse than where it started
        mref = L.make_patch(sc, files).prepare_model(active=cat0.copy(), bounds=b0.copy())[0]
        mref.sampling = False
        lp = [float(mref.lnprob(mref.transform.inverse_transform(np.asarray(v)))) for v in (sp.q_start, chain[-1])]
        if not case["barriers"] and np.all(np.isfinite(lp)):
            check(lp[1] >= lp[0] - 1e-4 * (abs(lp[0]) + 1), "optimum log-probability %r below that of the start %r", lp[1], lp[0])
            check(abs(out.lnp - lp[1]) <= 1e-3 * (abs(lp[1]) + 1), "reported log-probability %r, re-evaluated %r", out.lnp, lp[1])
        if case["linear"]:
            for j, b in enumerate(bl):
                P = np.asarray(sp.precision_matrices[j])
                check(P.shape == (n, n) and np.allclose(P, P.T, rtol=1e-5, atol=1e-6 * np.abs(P).max()), "precision matrix of %s", b)
                for i in range(n):
                    f = float(active[i][b])
                    check(bounds[b][i, 0] < f < bounds[b][i, 1], "flux %r of source %d in %s outside its new bounds %s", f, i, b, bounds[b][i])
            for c in L.SHAPES:
                check(np.array_equal(bounds[c], b0[c]), "bounds of %s changed", c)
            ql = np.asarray(sp.q_postlinear).reshape(n, -1) + off
            for k, c in enumerate(cols):
                check(np.allclose(ql[:, k], active[c], rtol=1e-6, atol=1e-9), "vector after the linear step: %s is %s, catalog %s", c, ql[:, k], active[c])
        else:
            check(np.array_equal(bounds, b0), "bounds changed")
        # the result as it is saved
        final, _ = out.fill(argparse.Namespace(ra=1.0, dec=2.0, radius=3.0), active, fixed, model, bounds=bounds, patchID=4)
        for k, c in enumerate(cols):
            check(np.allclose(np.asarray(out.chaincat[c]).reshape(n), q[:, k], rtol=1e-12, atol=1e-12), "saved %s of the optimum %s, fitted %s", c, out.chaincat[c], q[:, k])
            check(np.allclose(final[c], q[:, k], rtol=3e-7, atol=1e-9), "final %s %s, fitted %s", c, final[c], q[:, k])
        # repeatable
        _, sp2, ((out2, _, _), (_, active2, _, _), _), _ = opt(case["seed"])
        check(np.array_equal(out2.chain, out.chain), "the same seed gives a different optimum")
        check(all(np.array_equal(active[c], active2[c]) for c in cols), "the same seed gives different sources")

        # sampling, from the catalog
        def samp():
            p = L.make_patch(sc, files)
            b = make_bounds(cat, sc["bands"], case["w"])
            sp = argparse.Namespace()
            kw = dict(cov=None)
            if case["cov"]:
                kw["cov"] = np.diag(np.linspace(0.3, 1.2, n * len(cols)))
            return p, sp, T.sample(p, (None, cat.copy(), None, b), cfg, log, scratchpad=sp, **kw), b
        p, sp, ((out, step, stats), (region, act, fixed, bounds), model), b = samp()
        chain = np.asarray(out.chain)
        nt = case["draws"] + case["tune"]
        check(chain.shape == (nt, n * len(cols)), "chain %s, expected %d samples", chain.shape, nt)
        check(len(stats) == nt and sum(bool(np.all(s["tune"])) for s in stats) == case["tune"], "statistics")
        inside(chain.reshape(nt, n, -1) + off, lo, hi, "the chain")
        start = np.array([[float(cat0[i][c]) for c in cols] for i in range(n)]) - off
        check(np.allclose(out.starting_position, start.ravel(), rtol=1e-6, atol=1e-9), "sampling does not start at the catalog")
        check(out.n_call == model.ncall, "number of evaluations")
        check(all(np.array_equal(act[c], cat0[c]) for c in cat0.dtype.names) and np.array_equal(bounds, b0), "catalog or bounds changed by sampling")
        model2 = L.make_patch(sc, files).prepare_model(active=cat.copy(), bounds=b0)[0]
        vals = []
        for qq, s in zip(chain, stats):
            z = model2.transform.inverse_transform(qq)
            if np.abs(z).max() > 12:
                continue
            lp, g = model2.lnprob_and_grad(z)
            vals.append((float(np.squeeze(s["model_logp"])), float(lp), float(np.abs(g).sum())))
        for a, l, g in vals:
            check(abs(a - l) <= 2e-3 * (abs(l) + 1) + 1e-7 * g, "recorded log-probability %r, re-evaluated %r", a, l)
        out2 = samp()[2][0][0]
        check(np.array_equal(np.asarray(out2.chain), chain), "sampling is not repeatable")
        # the more draws its sources have had, the more weight the supplied covariance has
        from forcepho.fitting import run_lmc
        m3, q3 = L.make_patch(sc, files).prepare_model(active=cat.copy(), bounds=b0)
        w3 = max(10, cat0["n_iter"].min()) if case["niter"] else 10
        direct = run_lmc(m3, q3.copy(), n_draws=case["draws"], warmup=[case["tune"]], full=True, weight=w3, discard_tuned_samples=False, max_treedepth=3,
                         z_cov=np.diag(np.linspace(0.3, 1.2, n * len(cols))) if case["cov"] else np.eye(n * len(cols)))[0]
        check(np.array_equal(np.asarray(direct.chain), chain), "the sampling task differs from sampling with its own settings (weight %s)", w3)
        final, covs = out.fill(argparse.Namespace(ra=1.0, dec=2.0, radius=3.0), act, fixed, model, bounds=bounds, patchID=4, step=step, stats=stats)
        last = chain[-1].reshape(n, -1) + off
        for k, c in enumerate(cols):
            check(np.allclose(final[c], last[:, k], rtol=3e-7, atol=1e-9), "final %s %s, last sample %s", c, final[c], last[:, k])
        full = np.asarray(step.potential._cov)
        check(np.shape(covs) == (n, len(cols), len(cols)), "covariances %s", np.shape(covs))
        for i in range(n):
            sl = slice(i * len(cols), (i + 1) * len(cols))
            check(np.array_equal(covs[i], full[sl, sl]), "covariances of source %d are not its block of the full matrix", i)
        check(out.n_tune == case["tune"] and out.n_sample == case["draws"], "n_tune %s, n_sample %s", out.n_tune, out.n_sample)
        if case["tune"] == 0 and case["cov"]:
            check(np.allclose(np.asarray(step.potential._cov), np.diag(np.linspace(0.3, 1.2, n * len(cols))), rtol=1e-5), "the supplied covariance is not used")
    info.label("barriers" if case["barriers"] else "plain", "linear" if case["linear"] else "nonlinear", "nsrc%d" % n, "nband%d" % nb)
    info.trivial_if(len(np.unique(chain[:, 0])) < 2)


def case_data(sc):
    """Truth plus noise, so that there is something to fit."""
    R = L.RefScene(sc)
    out = []
    for e, ex in enumerate(sc["exps"]):
        im = np.asarray(R.image(e)).reshape(ex["nx"], ex["ny"])
        out.append((im + L.noise_image(ex, sc["noise"])).astype(np.float32))
    return out


def tasks_case():
    return st.fixed_dictionaries(dict(scene=L.scene_st(max_bands=2, max_exp=2, max_src=2, sip=False, maxsize=12, custom_spline=False, psf_perbin=False, fluxlo=5.0),
                                      barriers=st.booleans(), linear=st.booleans(), gtol=st.sampled_from([1.0, 0.1, 1e-3]), expand=st.sampled_from([1.0, 5.0]),
                                      draws=st.integers(2, 8), tune=st.sampled_from([0, 8, 20]), w=st.sampled_from([0.3, 1.0]), seed=st.integers(0, 9999), cov=st.booleans(), niter=st.sampled_from([0, 1, 2])))


def subs():
    return [
        Sub("optimise", lambda: st.fixed_dictionaries(dict(toy=toy_st(), jac=st.sampled_from([True, True, False]), gtol=st.sampled_from([1e-2, 1e-5, 1e-7]), sampling=st.booleans(), callback=st.booleans(), box=st.sampled_from([False, False, True]))),
            body_opt, quick=500, thorough=15000, shards=2,
            rule="1-5 dimensional correlated Gaussians in boxes (mean inside or outside), gradient or not, any tolerance",
            nontrivial_rule="the objective changed"),
        Sub("sample", lambda: st.fixed_dictionaries(dict(toy=toy_st(), draws=L.mostly(st.integers(1, 25), st.integers(30, 150)), tune=st.sampled_from([0, 1, 5, 12]), depth=st.integers(1, 6), discard=st.booleans(),
                                                         full=st.booleans(), cov=st.booleans(), weight=st.sampled_from([1, 10, 50]), seed=st.integers(0, 10**6))),
            body_lmc, quick=250, thorough=8000, shards=2,
            rule="short chains with any tuning, tree depth, mass matrix; every recorded log-probability re-evaluated; chain repeated",
            nontrivial_rule="the chain moved at least twice"),
        Sub("potential", lambda: st.fixed_dictionaries(dict(n=L.mostly(st.integers(2, 7), st.integers(10, 60)), how=st.sampled_from(["cov", "singular", "trace", "none"]), full=st.booleans(), seed=st.integers(0, 9999))),
            body_pot, quick=150, thorough=3000, shards=1, rule="mass matrices from covariances, singular covariances, traces, nothing",
            examples=[dict(n=2, how="singular", full=True, seed=0)]),
        Sub("uniform", lambda: st.fixed_dictionaries(dict(lo=L.rnd(-20, 20), w=L.rnd(0.1, 20), m=L.rnd(0.2, 0.8), s=L.rnd(0.05, 0.3), flat=st.booleans(), full=st.booleans(), seed=st.integers(0, 10**6))),
            body_dist, quick=10, thorough=200, shards=1, rule="one-dimensional chains against the exact distribution"),
        Sub("tasks", tasks_case, body_tasks, quick=72, thorough=1200, shards=4, budget=60,
            rule="optimise and sample tasks on built patches with generated truth, barriers, linear step, covariances",
            nontrivial_rule="the chain moved"),
    ]
