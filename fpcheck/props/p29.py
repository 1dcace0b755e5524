"""P29: prior functions, their gradients and truncated draws."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["points are strictly inside the bounds (the penalty is infinite at the bounds)",
               "the edge penalty is exp(-(x(1-x))^alpha) up to normalisation, x the position within the bounds"]


def vec_st(n):
    return st.lists(st.fixed_dictionaries(dict(lo=L.rnd(-300, 300), w=st.sampled_from([1e-5, 1e-3, 0.1, 1.0, 7.5, 400.0]),
                                               u=st.one_of(L.rnd(0.001, 0.999), st.sampled_from([1e-4, 0.5, 1 - 1e-4])))), min_size=1, max_size=n)


def case_st():
    return st.fixed_dictionaries(dict(dims=vec_st(8), alpha=st.one_of(st.none(), L.rnd(-0.99, 2.5, 3), st.just(0.0)), cls=st.sampled_from(["exp", "exp", "exp", "flat"])))


def refl(lo, w, q, alpha):
    """Reference in extended precision."""
    x = (np.longdouble(q) - np.longdouble(lo)) / np.longdouble(w)
    return -(x * (1 - x))**np.longdouble(alpha)


def body(case, info):
    import forcepho.priors as P
    lo = np.array([d["lo"] for d in case["dims"]])
    hi = lo + np.array([d["w"] for d in case["dims"]])
    w = hi - lo
    q = lo + np.array([d["u"] for d in case["dims"]]) * w
    if np.any(q <= lo) or np.any(q >= hi):
        info.trivial_if(True)
        return
    alpha = -0.9 if case["alpha"] is None else case["alpha"]
    args = (lo.copy(), hi.copy())
    if case["cls"] == "flat":
        prior = P.LogPrior(*args)
    elif case["alpha"] is None:
        prior = P.ExpBeta(*args)
    else:
        prior = P.ExpBeta(*args, alpha=alpha)
    keep = q.copy()
    lnp, g = prior(q)
    check(np.array_equal(q, keep) and np.array_equal(args[0], lo) and np.array_equal(args[1], hi), "inputs modified")
    check(np.ndim(lnp) == 0, "the log-prior is not a scalar: %s", lnp)
    check(np.shape(g) == q.shape, "gradient shape %s", np.shape(g))
    l2, g2 = prior(q)
    check(lnp == l2 and np.array_equal(g, g2), "second call differs")
    if case["cls"] == "flat":
        check(lnp == 0 and np.all(np.asarray(g) == 0), "flat prior is not flat: %s %s", lnp, g)
        return
    x = (q - lo) / w
    # condition of x and 1-x: rounding of q and the bounds
    dx = 4e-16 * (np.abs(q) + np.abs(lo) + np.abs(hi)) / w
    rel = dx / np.minimum(x, 1 - x)
    if np.any(rel > 1e-3):
        info.trivial_if(True)
        return
    ref = refl(lo, w, q, alpha)
    tol = np.sum(np.abs(ref) * (abs(alpha) * rel * 4 + 1e-13)) + 1e-300
    check(abs(float(lnp) - float(ref.sum())) <= tol, "log-prior %r, expected %r (alpha %s)", float(lnp), float(ref.sum()), alpha)
    # gradient: numerical derivative of the code's own log-prior, one parameter at a time, and the closed form
    for i in range(len(q)):
        one = P.ExpBeta(lo[i], hi[i], alpha=alpha)
        s = prior(np.where(np.arange(len(q)) == i, q, q))[1][i]
        a = one(q[i])
        check(abs(a[1] - s) <= 1e-12 * abs(s), "scalar and vector gradients differ: %r %r", a[1], s)
        h = 1e-3 * min(x[i], 1 - x[i]) * w[i]
        if h < 1e-9 * max(abs(q[i]), 1e-300) * 1e3 / 1e3 or dx[i] > 1e-7 * min(x[i], 1 - x[i]):
            continue
        d = [float(one(q[i] + k * h)[0]) for k in (-2, -1, 1, 2)]
        num = (d[0] - 8 * d[1] + 8 * d[2] - d[3]) / (12 * h)
        scale = abs(alpha) * abs(float(ref[i])) / (min(x[i], 1 - x[i]) * w[i])
        check(abs(num - s) <= 1e-5 * scale + 1e-5 * abs(num), "gradient %r, derivative of the log-prior %r (x=%r alpha=%s)", s, num, x[i], alpha)
    # symmetric about the centre
    qm = lo + hi - q
    xm = (qm - lo) / w
    if np.all(np.abs((1 - xm) - x) <= 1e-6 * np.minimum(x, 1 - x)):
        lm, gm = prior(qm)
        check(abs(lm - lnp) <= 1e-4 * np.abs(ref).sum(), "not symmetric: %r %r", lm, lnp)
        sc = np.abs(alpha * ref / (np.minimum(x, 1 - x) * w)).astype(float)
        check(np.all(np.abs(gm + g) <= 1e-4 * sc + 1e-300), "gradient not antisymmetric: %s %s", gm, g)
    info.label("alpha_neg" if alpha < 0 else "alpha_pos", "n%d" % len(q))


def body_bad(case, info):
    import forcepho.priors as P
    try:
        P.ExpBeta(0.0, 1.0, alpha=case["alpha"])
    except Exception:
        return
    check(False, "an improper exponent %s was accepted", case["alpha"])


def body_cauchy(case, info):
    import forcepho.priors as P
    from scipy import stats
    loc, scale = case["loc"], case["scale"]
    a = loc + case["a"] * scale
    b = a + case["w"] * scale
    if not b > a:
        info.trivial_if(True)
        return
    np.random.seed(case["seed"])
    n = 400
    pr = P.TruncatedCauchy()
    x = np.asarray(pr.sample(loc=loc, scale=scale, a=a, b=b, size=n))
    check(x.shape == (n,), "shape %s", x.shape)
    tol = 1e-9 * (abs(a) + abs(b) + scale * (1 + ((a - loc) / scale)**2 + ((b - loc) / scale)**2))
    check(np.all(x >= a - tol) and np.all(x <= b + tol), "draws outside [%s, %s]: %s %s", a, b, x.min(), x.max())
    c = stats.cauchy(loc, scale)
    ca, cb = c.cdf(a), c.cdf(b)
    if case["w"] > 1e-3:
        u = (c.cdf(x) - ca) / (cb - ca)
        p = stats.kstest(u, "uniform").pvalue
        check(p > 1e-9, "draws do not follow the truncated Cauchy distribution (KS p=%g)", p)
    one = pr.sample(loc=loc, scale=scale, a=a, b=b)
    check(np.ndim(one) == 0 and a - tol <= one <= b + tol, "single draw %r", one)
    if case["dflt"]:
        x = np.asarray(pr.sample(size=50))
        check(np.all(np.abs(x) <= 1 + 1e-12), "default draws outside [-1, 1]")


def subs():
    return [
        Sub("values", case_st, body, quick=3000, thorough=100000, shards=3,
            rule="per-parameter bounds over nine decades, exponents -0.99..2.5, points up to 1e-4 from either bound",
            nontrivial_rule="points representable strictly inside the bounds"),
        Sub("exponent", lambda: st.fixed_dictionaries(dict(alpha=L.rnd(-5, -1))), body_bad, quick=60, thorough=500, shards=1,
            rule="exponents that give an improper density"),
        Sub("cauchy", lambda: st.fixed_dictionaries(dict(loc=L.rnd(-50, 50), scale=L.rnd(0.01, 20), a=L.rnd(-30, 30), w=st.one_of(L.rnd(0.01, 60), st.just(1e-6)),
                                                         seed=st.integers(0, 99999), dflt=st.booleans())), body_cauchy, quick=600, thorough=20000, shards=1,
            rule="locations, scales and limits of truncated draws"),
    ]
