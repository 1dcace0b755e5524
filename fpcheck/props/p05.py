"""P05: bounded transform."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check

ASSUMPTIONS = ["bounds are finite with lower < upper by a margin representable in float64"]


def model_mod():
    import forcepho.model as m
    return m


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def bounds_st(nmax=8):
    one = st.tuples(fl(-1e3, 1e3), st.one_of(fl(1e-3, 1e3), fl(1e-6, 1e-3)), fl(-12, 12), fl(-8, 8))
    return st.lists(one, min_size=1, max_size=nmax)


def lndet_true(lo, hi, z):
    # ln(range) + ln s + ln(1-s), with stable log-sigmoids
    return np.sum(np.log(hi - lo) - np.logaddexp(0, -z) - np.logaddexp(0, z))


def body_basic(case, info):
    m = model_mod()
    rows = case["rows"]
    lo = np.array([r[0] for r in rows])
    hi = lo + np.array([r[1] for r in rows])
    z = np.array([r[2] for r in rows])
    z2 = np.array([r[3] for r in rows])
    rng = hi - lo
    eps = 4e-16 * np.maximum(np.abs(lo), np.abs(hi))
    t = m.BoundedTransform(lo.copy(), hi.copy())
    q = np.asarray(t.transform(z.copy()))
    check(q.shape == z.shape, "shape")
    # value: independent sigmoid
    s = np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
    check(np.all(np.abs(q - (lo + rng * s)) <= 1e-12 * rng + 4 * eps), "transform value %s", q)
    check(np.all(q >= lo - eps) and np.all(q <= hi + eps), "outside bounds")
    # monotone, per coordinate and independent of other coordinates
    qa = np.asarray(t.transform(np.minimum(z, z2)))
    qb = np.asarray(t.transform(np.maximum(z, z2)))
    sep = np.abs(z - z2) > 1e-3
    resolved = rng * np.exp(-np.maximum(np.abs(z), np.abs(z2))) * 1e-3 > 8 * eps
    check(np.all(qa[sep & resolved] < qb[sep & resolved]), "not increasing")
    check(np.all(qa <= qb), "not monotone")
    # inverse: q -> z -> q
    frac = s
    inner = (frac > 1e-9) & (1 - frac > 1e-9) & (rng > 1e3 * eps)
    if inner.all():
        zi = np.asarray(t.inverse_transform(q.copy()))
        tol = 1e-9 + (4 * eps / rng + 1e-15) / (s * (1 - s)) * 4
        check(np.all(np.abs(zi - z) <= tol * (1 + np.abs(z))), "inverse %s vs %s", zi, z)
        check(np.all(np.abs(t.transform(zi) - q) <= 1e-9 * rng + 8 * eps), "q->z->q")
        info.label("inverse")
    # jacobian
    jac = np.asarray(t.jacobian(z.copy()))
    check(np.allclose(jac, rng * s * (1 - s) if np.abs(z).max() < 10 else
                      rng * np.exp(-np.logaddexp(0, -z) - np.logaddexp(0, z)), rtol=1e-8, atol=0),
          "jacobian %s", jac)
    check(abs(t.lndetjac(z.copy()) - lndet_true(lo, hi, z)) < 1e-8 * (1 + len(z)), "lndetjac")
    g = np.asarray(t.lndetjac_grad(z.copy()))
    check(np.allclose(g, 1 - 2 * s, rtol=0, atol=1e-10), "lndetjac gradient")
    info.label("ndim%d" % min(len(z), 4))
    if len(z) == 1:
        # scalar bounds are accepted
        ts = m.BoundedTransform(lo[0], hi[0])
        check(np.allclose(ts.transform(z), q, rtol=0, atol=1e-12 * rng[0]), "scalar bounds")
    # arguments are untouched
    check(np.all(t.lower == lo) and np.all(t.upper == hi), "bounds changed")
    # identity transform
    ti = m.Transform(len(z))
    check(np.all(ti.transform(z) == z) and np.all(ti.inverse_transform(z) == z), "identity")
    check(np.all(np.asarray(ti.jacobian(z)) == 1) and ti.lndetjac(z) == 0
          and np.all(np.asarray(ti.lndetjac_grad(z)) == 0), "identity derivatives")


def body_highdim(case, info):
    m = model_mod()
    rs = np.random.RandomState(case["seed"])
    n = case["ndim"]
    lo = rs.uniform(-1, 1, n) * case["scale"]
    hi = lo + rs.uniform(0.1, 2, n) * case["width"]
    z = rs.uniform(-1, 1, n) * case["zmax"]
    t = m.BoundedTransform(lo, hi)
    want = lndet_true(lo, hi, z)
    got = t.lndetjac(z)
    check(np.isfinite(got) and abs(got - want) <= 1e-9 * (abs(want) + n), "lndetjac %r, expected %r (ndim %d)", got, want, n)
    q = np.asarray(t.transform(z))
    ulp = 4e-16 * np.maximum(np.abs(lo), np.abs(hi))
    check(np.all(np.isfinite(q)) and np.all(q >= lo - ulp) and np.all(q <= hi + ulp), "a point far in the tail leaves the bounds")
    jac = np.asarray(t.jacobian(z))
    check(np.allclose(np.log(jac), np.log(hi - lo) - np.logaddexp(0, -z) - np.logaddexp(0, z), rtol=0, atol=1e-8 * (1 + case["zmax"])), "jacobian in the tail")
    # the gradient of the log-determinant, numerically
    i = case["axis"] % n
    h = 1e-4
    zp, zm = z.copy(), z.copy()
    zp[i] += h
    zm[i] -= h
    num = (lndet_true(lo, hi, zp) - lndet_true(lo, hi, zm)) / (2 * h)
    check(abs(np.asarray(t.lndetjac_grad(z))[i] - num) < 1e-6, "gradient of log determinant")
    info.label("ndim>50" if n > 50 else "ndim<=50")


def body_array(case, info):
    """A matrix of points transforms row by row (as used on whole chains)."""
    m = model_mod()
    rows = case["rows"]
    lo = np.array([r[0] for r in rows])
    hi = lo + np.array([r[1] for r in rows])
    t = m.BoundedTransform(lo, hi)
    Z = np.array([[r[2], r[3], (r[2] + r[3]) / 2] for r in rows]).T
    Q = np.asarray(t.transform(Z))
    for i in range(3):
        check(np.array_equal(Q[i], t.transform(Z[i])), "row %d", i)


def subs():
    rows = bounds_st().map(lambda r: dict(rows=[list(x) for x in r]))
    return [
        Sub("laws", lambda: rows, body_basic, quick=2000, thorough=60000, shards=3,
            rule="random bounds and points in 1-8 dimensions, |z| up to 12",
            nontrivial_rule="every distinct case"),
        Sub("highdim", lambda: st.fixed_dictionaries(dict(
            seed=st.integers(0, 2**31 - 1), ndim=st.integers(1, 400), axis=st.integers(0, 1000),
            scale=st.sampled_from([1.0, 100.0]), width=st.sampled_from([1e-4, 1e-2, 1.0, 50.0]),
            zmax=st.sampled_from([1.0, 5.0, 20.0, 45.0, 150.0]))), body_highdim, quick=600, thorough=20000, shards=2,
            rule="up to 400 dimensions with narrow or wide bounds, |z| up to 150"),
        Sub("matrix", lambda: rows, body_array, quick=300, thorough=3000, shards=1,
            rule="stack of points"),
    ]
