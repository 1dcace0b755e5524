"""P23: mixture amplitudes, their derivatives, radial profiles and profile helper functions."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st
from scipy import integrate
from scipy.special import gamma, gammainc, gammaincinv

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["tables are complete grids in (index, half-light radius), stored index-major, as the tools that make them write them",
               "shapes inside the tabulated range, or in one of the two documented fall-backs (index below the table, negative radius)"]

# number of (index, radius) rows of a generated table
GRID = dict(nn=st.integers(4, 9), nr=st.integers(4, 9))


def table_st():
    return st.fixed_dictionaries(dict(nn=GRID["nn"], nr=GRID["nr"], nrad=st.integers(1, 10), seed=st.integers(0, 99999),
                                      cubic=st.booleans(), f32=st.booleans()))


def make_table(t):
    """(n grid, r grid, amplitude[nn, nr, nrad], radii, polynomial coefficients or None)."""
    rs = np.random.RandomState(t["seed"])
    ng = np.sort(0.5 + np.cumsum(rs.uniform(0.3, 1.2, t["nn"])))
    rg = np.sort(np.concatenate([[0.0], np.cumsum(rs.uniform(0.05, 0.2, t["nr"] - 1))]))
    radii = np.sort(np.concatenate([[0.0], rs.uniform(0.01, 1.5, t["nrad"] - 1)]))
    if t["f32"]:
        ng = ng.astype(np.float32).astype(float)
        rg = rg.astype(np.float32).astype(float)
    N, R = np.meshgrid(ng, rg, indexing="ij")
    if t["cubic"]:
        C = rs.uniform(-1, 1, (t["nrad"], 4, 4)) / (4.0 ** np.arange(4))[None, :, None]
        A = np.array([np.polynomial.polynomial.polyval2d(N, R, C[k]) for k in range(t["nrad"])])
    else:
        C = None
        A = rs.uniform(0, 1, (t["nrad"], t["nn"], t["nr"]))
    return ng, rg, np.moveaxis(A, 0, -1), radii, C


def write_table(path, t):
    ng, rg, A, radii, C = make_table(t)
    N, R = np.meshgrid(ng, rg, indexing="ij")
    with h5py.File(path, "w") as f:
        f.create_dataset("nsersic", data=N.ravel())
        f.create_dataset("rh", data=R.ravel())
        f.create_dataset("amplitudes", data=A.reshape(-1, A.shape[-1]))
        f.create_dataset("radii", data=radii)
    return ng, rg, A, radii, C


def galaxy(cls, *args, **kw):
    import warnings
    import forcepho.sources as S
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        return getattr(S, cls)(*args, **kw)


def numderiv(fn, x, h, lo, hi):
    """Five-point derivative where there is room, else None."""
    if x - 2 * h < lo or x + 2 * h > hi:
        return None
    return (fn(x - 2 * h) - 8 * fn(x - h) + 8 * fn(x + h) - fn(x + 2 * h)) / (12 * h)


def body_amp(case, info):
    path = "table_p23.h5"
    t = case["table"]
    ng, rg, A, radii, C = write_table(path, t)
    g = galaxy(case["cls"], filters=["a", "b"], splinedata=path)
    other = None
    if case["other"] is not None:
        write_table("other_p23.h5", case["other"])
        other = galaxy("Galaxy", filters=["a"], splinedata="other_p23.h5")
        other.sersic, other.rhalf = 2.0, 0.1
    os.remove(path)
    check(np.array_equal(g.radii, radii), "radii %s, table %s", g.radii, radii)
    check(g.n_gauss == len(radii), "number of components")
    check(np.allclose(g.sersic_range, (ng[0], ng[-1]), rtol=1e-12) and np.allclose(g.rh_range, (rg[0], rg[-1]), rtol=1e-12), "ranges %s %s", g.sersic_range, g.rh_range)
    cov = np.asarray(g.covariances)
    check(cov.shape == (len(radii), 2, 2) and np.allclose(cov, radii[:, None, None]**2 * np.eye(2)), "component covariances")
    scale = np.abs(A).max() + 1e-30
    hist = []
    for p in case["pts"]:
        kind = p["kind"]
        if kind == "node":
            i, j = p["i"] % len(ng), p["j"] % len(rg)
            n, r = float(ng[i]), float(rg[j])
        else:
            n, r = ng[0] + p["u"] * (ng[-1] - ng[0]), rg[0] + p["v"] * (rg[-1] - rg[0])
            if kind == "below":
                n = ng[0] - 0.01 - p["u"]
            elif kind == "negative":
                r = -0.001 - p["v"]
        g.sersic, g.rhalf = n, r
        amp, dn, dr = np.array(g.amplitudes), np.array(g.damplitude_dsersic), np.array(g.damplitude_drh)
        if other is not None:
            other.amplitudes
        hist.append((n, r, amp.copy()))
        for a in (amp, dn, dr):
            check(a.size == len(radii), "%d values for %d components", a.size, len(radii))
        amp, dn, dr = np.atleast_1d(amp), np.atleast_1d(dn), np.atleast_1d(dr)
        if kind == "below":
            k = int(np.argmin(np.abs(radii - r)))
            d = np.sort(np.abs(radii - r))
            check(np.isclose(amp.sum(), 1) and np.count_nonzero(amp) == 1 and (amp[k] == 1 or d[1] - d[0] < 1e-9), "below the table: %s", amp)
            check(not dn.any() and not dr.any(), "derivatives of a constant")
            continue
        if kind == "negative":
            check(amp[0] == 1 and not amp[1:].any() and not dn.any() and not dr.any(), "negative radius: %s", amp)
            continue
        if kind == "node":
            check(np.allclose(amp, A[i, j], rtol=0, atol=1e-8 * scale), "at a node of the table: %s, tabulated %s", amp, A[i, j])
        if C is not None:
            want = np.array([np.polynomial.polynomial.polyval2d(n, r, c) for c in C])
            wn = np.array([np.polynomial.polynomial.polyval2d(n, r, np.polynomial.polynomial.polyder(c, axis=0)) for c in C])
            wr = np.array([np.polynomial.polynomial.polyval2d(n, r, np.polynomial.polynomial.polyder(c, axis=1)) for c in C])
            check(np.allclose(amp, want, rtol=0, atol=1e-7 * scale), "amplitudes %s of a cubic table, exact %s", amp, want)
            check(np.allclose(dn, wn, rtol=0, atol=1e-5 * scale / (ng[1] - ng[0])), "d/d index %s, exact %s", dn, wn)
            check(np.allclose(dr, wr, rtol=0, atol=1e-5 * scale / np.diff(rg).min()), "d/d radius %s, exact %s", dr, wr)
        else:
            def at(nn, rr):
                g.sersic, g.rhalf = nn, rr
                v = np.atleast_1d(np.array(g.amplitudes))
                g.sersic, g.rhalf = n, r
                return v
            hn, hr = 1e-5 * (ng[-1] - ng[0]), 1e-5 * (rg[-1] - rg[0])
            num = numderiv(lambda v: at(v, r), n, hn, ng[0], ng[-1])
            if num is not None:
                check(np.allclose(dn, num, rtol=1e-4, atol=1e-4 * scale / np.diff(ng).min()), "d/d index %s, numerical %s", dn, num)
            num = numderiv(lambda v: at(n, v), r, hr, rg[0], rg[-1])
            if num is not None:
                check(np.allclose(dr, num, rtol=1e-4, atol=1e-4 * scale / np.diff(rg).min()), "d/d radius %s, numerical %s", dr, num)
        # the profile is the sum of the components
        rr = np.array(case["rads"])
        eps = case["eps"]
        s2 = radii**2 + eps**2
        want = (amp[None, :] * np.exp(-0.5 * rr[:, None]**2 / s2) / (2 * np.pi * s2)).sum(1)
        tol = 1e-9 * (np.abs(amp)[None, :] * np.exp(-0.5 * rr[:, None]**2 / s2) / (2 * np.pi * s2)).sum(1) + 1e-300
        got = np.asarray(g.profile(rr, epsilon=eps))
        check(got.shape == rr.shape and np.all(np.abs(got - want) <= tol), "profile %s, sum of components %s", got, want)
        g.flux[:] = [3.5, -2.0]
        for b, f in (("a", 3.5), ("b", -2.0)):
            got = np.asarray(g.profile(rr, band=b, epsilon=eps))
            check(np.all(np.abs(got - f * want) <= 4 * tol), "profile in band %s", b)
    for n, r, amp in hist:
        g.sersic, g.rhalf = n, r
        check(np.array_equal(np.array(g.amplitudes), amp), "amplitudes depend on what was evaluated before")
    info.label(case["cls"], "cubic" if C is not None else "rough", *["pt_" + p["kind"] for p in case["pts"]])
    info.trivial_if(not any(p["kind"] in ("in", "node") for p in case["pts"]))


def amp_case():
    pt = st.fixed_dictionaries(dict(kind=st.sampled_from(["in", "in", "in", "node", "below", "negative"]), u=L.rnd(0, 1), v=L.rnd(0, 1),
                                    i=st.integers(0, 8), j=st.integers(0, 8)))
    return st.fixed_dictionaries(dict(table=table_st(), other=st.one_of(st.none(), table_st()), cls=st.sampled_from(["Galaxy", "Galaxy", "ConformalShearGalaxy"]),
                                      pts=st.lists(pt, min_size=1, max_size=4), rads=st.lists(L.rnd(0, 2), min_size=1, max_size=5),
                                      eps=st.sampled_from([2.5e-3, 1e-2, 0.1])))


def body_smooth(case, info):
    """Smoothed splines: still differentiable functions of the shape, within the requested misfit."""
    path = "table_p23.h5"
    ng, rg, A, radii, C = write_table(path, case["table"])
    s = case["s"]
    g = galaxy("Galaxy", filters=["a"], splinedata=path, spline_smoothing=s, spline_type=case["type"])
    os.remove(path)
    mis = np.zeros(len(radii))
    for i, n in enumerate(ng):
        for j, r in enumerate(rg):
            g.sersic, g.rhalf = float(n), float(r)
            mis += (np.atleast_1d(g.amplitudes) - A[i, j])**2
    check(np.all(mis <= s * 1.01 + 1e-9), "misfit %s with smoothing %s", mis, s)
    n, r = ng[0] + case["u"] * (ng[-1] - ng[0]), rg[0] + case["v"] * (rg[-1] - rg[0])
    scale = np.abs(A).max()

    def at(nn, rr):
        g.sersic, g.rhalf = nn, rr
        return np.atleast_1d(np.array(g.amplitudes))
    hn, hr = 1e-5 * (ng[-1] - ng[0]), 1e-5 * (rg[-1] - rg[0])
    numn = numderiv(lambda v: at(v, r), n, hn, ng[0], ng[-1])
    numr = numderiv(lambda v: at(n, v), r, hr, rg[0], rg[-1])
    g.sersic, g.rhalf = n, r
    if numn is not None:
        check(np.allclose(np.atleast_1d(g.damplitude_dsersic), numn, rtol=1e-4, atol=1e-4 * scale / np.diff(ng).min()), "d/d index")
    if numr is not None:
        check(np.allclose(np.atleast_1d(g.damplitude_drh), numr, rtol=1e-4, atol=1e-4 * scale / np.diff(rg).min()), "d/d radius")


def body_light(case, info):
    """With the shipped tables, the mixture encloses the light of the Sersic profile it stands for."""
    g = galaxy("Galaxy", filters=["a"], splinedata=L.BIG_SPLINE)
    n, rh = case["n"], case["rh"]
    g.sersic, g.rhalf = n, rh
    a = np.asarray(g.amplitudes)
    for f in (0.5, 1.0, 2.0):
        R = f * rh
        with np.errstate(divide="ignore"):
            got = float((a * np.where(g.radii > 0, 1 - np.exp(-0.5 * R**2 / np.maximum(g.radii, 1e-12)**2), 1.0)).sum())
        want = gammainc(2 * n, gammaincinv(2 * n, 0.5) * f**(1 / n))
        tol = 0.02 if f != 1.0 else 0.01
        check(abs(got - want) < tol, "light within %s half-light radii: %s, Sersic profile %s (n=%s, rh=%s)", f, got, want, n, rh)


def body_simple(case, info):
    import forcepho.sources as S
    radii = np.array(case["radii"])
    g = S.SimpleGalaxy(filters=["a"], radii=radii)
    check(np.allclose(g.amplitudes, 1.0 / len(radii)) and np.asarray(g.amplitudes).shape == radii.shape, "amplitudes of a simple galaxy")
    check(np.allclose(g.covariances, radii[:, None, None]**2 * np.eye(2)), "covariances of a simple galaxy")
    check(not np.any(g.damplitude_dsersic) and not np.any(g.damplitude_drh), "derivatives of constant amplitudes")
    s = S.Star(filters=["a"])
    check(np.allclose(s.amplitudes, [1.0]) and np.asarray(s.covariances).shape == (1, 2, 2) and not np.any(s.covariances), "star is not a point")
    check(S.SimpleGalaxy(filters=["a"]).n_gauss == 1 and S.Star(filters=["a"]).n_gauss == 1, "radii of one source leaked into the class")


def body_helpers(case, info):
    from forcepho.utils.profile import I_eff, frac_sersic, isophotal_radius, kron_radius
    n, rh = case["n"], case["rh"]
    b = gammaincinv(2 * n, 0.5)

    def mu(r):
        return np.exp(-b * ((r / rh)**(1 / n) - 1))

    def light(R, p=1):
        # substitution r = rh * t^n makes the integrand smooth
        T = (R / rh)**(1 / n)
        return integrate.quad(lambda t: mu(rh * t**n) * (rh * t**n)**p * rh * n * t**(n - 1), 0, T, epsabs=0, epsrel=1e-10, limit=400)[0]
    big = rh * (80.0 / b + 1)**n
    tot = light(big)
    R = case["R"] * rh
    f = light(R) / tot
    check(abs(float(frac_sersic(R, rhalf=rh, sersic=n)) - f) < 1e-6, "enclosed fraction %s, quadrature %s", frac_sersic(R, rhalf=rh, sersic=n), f)
    check(abs(float(frac_sersic(rh, rhalf=rh, sersic=n)) - 0.5) < 1e-12, "half of the light is within the half-light radius")
    arr = frac_sersic(np.array([R, rh, 2 * R]), rhalf=np.array([rh, rh, 2 * rh]), sersic=np.array([n, n, n]))
    check(np.allclose(arr, [f, 0.5, f], atol=1e-6), "vectorised enclosed fraction %s", arr)
    k = float(kron_radius(rh, n))
    want = light(big, 2) / tot
    check(abs(k - want) < 1e-5 * want, "Kron radius %s, quadrature %s", k, want)
    k = float(kron_radius(rh, n, rmax=R))
    want = light(R, 2) / light(R)
    check(abs(k - want) < 1e-5 * want, "Kron radius within %s: %s, quadrature %s", R, k, want)
    check(k < R, "Kron radius outside the aperture")
    F = case["flux"]
    Ie = float(I_eff(F, rh, sersic=n))
    check(abs(Ie * tot * 2 * np.pi - F) < 1e-5 * F, "effective surface brightness %s gives total flux %s, not %s", Ie, Ie * tot * 2 * np.pi, F)
    Ia = float(I_eff(F, rh, flux_radius=R, sersic=n))
    check(abs(Ia * light(R) * 2 * np.pi - F) < 1e-5 * F, "flux within the given radius is %s, not %s", Ia * light(R) * 2 * np.pi, F)
    for fr, I0 in ((None, Ie), (R, Ia)):
        iso = I0 * float(mu(case["Riso"] * rh))
        r = float(isophotal_radius(iso, F, rh, flux_radius=fr, sersic=n))
        check(abs(r - case["Riso"] * rh) < 1e-6 * r * (1 + n / max(1e-9, b * case["Riso"]**(1 / n))) + 1e-9, "isophotal radius %s, expected %s", r, case["Riso"] * rh)
        with np.errstate(all="ignore"):
            r = isophotal_radius(I0 * np.exp(b) * 1.3, F, rh, flux_radius=fr, sersic=n)
        check(not np.isfinite(r), "isophotal radius %s for an isophote brighter than the centre", r)


def subs():
    return [
        Sub("amplitudes", amp_case, body_amp, quick=900, thorough=30000, shards=4,
            rule="random irregular tables of 1-10 components (bicubic: exact values known; rough: nodes and numerical derivatives), both galaxy classes, in-range points, nodes and fall-backs, interleaved with another table",
            nontrivial_rule="at least one point inside the table"),
        Sub("smoothing", lambda: st.fixed_dictionaries(dict(table=table_st(), s=st.sampled_from([0.05, 0.5, 2.0]), type=st.just("rect"), u=L.rnd(0.05, 0.95), v=L.rnd(0.05, 0.95))),
            body_smooth, quick=200, thorough=4000, shards=1, rule="smoothed splines"),
        Sub("light", lambda: st.fixed_dictionaries(dict(n=L.rnd(0.85, 6.0), rh=L.rnd(0.03, 0.9))), body_light, quick=300, thorough=5000, shards=1,
            rule="shapes of the shipped table; enclosed light against the analytic profile"),
        Sub("helpers", lambda: st.fixed_dictionaries(dict(n=L.rnd(0.5, 6.0), rh=L.rnd(0.02, 3.0), R=L.rnd(0.2, 8.0), Riso=L.rnd(0.05, 8.0), flux=L.rnd(0.1, 500))),
            body_helpers, quick=400, thorough=8000, shards=1, rule="profile integrals against quadrature"),
        Sub("simple", lambda: st.fixed_dictionaries(dict(radii=st.lists(L.rnd(0, 3), min_size=1, max_size=6))), body_simple, quick=100, thorough=1000, shards=1,
            rule="sources without splines"),
    ]
