"""P15: parameter bounds."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L

ASSUMPTIONS = ["flux uncertainties given to make_bounds are positive, and requested ranges are ordered",
               "catalog shape values lie inside the requested ranges (rectify_catalog sees to that, P16)"]

FLUX = st.one_of(st.sampled_from([0.0, 1e-6, -1e-6, 6.25, 6.2500001, 0.04, 1.0, -3.0, 1e5, -1e5]), L.rnd(-20, 200, 4), L.rnd(-1e4, 1e6, 2))


def cat_st(nmax=6):
    src = st.fixed_dictionaries(dict(ra=L.rnd(0.0, 359.999, 5), dec=L.mostly(L.rnd(-80, 80, 5), st.sampled_from([85.0, -88.5, 89.5]), 6), q=L.rnd(0.42, 0.98, 4), pa=L.rnd(-1.5, 1.5, 4),
                                     sersic=L.rnd(1.05, 4.9, 4), rhalf=L.rnd(0.04, 0.28, 4), flux=st.lists(FLUX, min_size=4, max_size=4),
                                     unc=st.lists(L.rnd(0.001, 50, 4), min_size=4, max_size=4)))
    return st.tuples(st.lists(src, min_size=1, max_size=nmax), st.sampled_from([1] * 12 + [4, 30])).map(lambda t: t[0] * t[1])


def build(src, bands, flux_key="flux", extra=()):
    dt = np.dtype([("source_index", np.int32)] + [(c, float) for c in list(L.SHAPES) + list(bands)])
    cat = np.zeros(len(src), dtype=dt)
    for i, s in enumerate(src):
        for c in L.SHAPES:
            cat[i][c] = s[c]
        for k, b in enumerate(bands):
            cat[i][b] = s[flux_key][k]
    cat["source_index"] = np.arange(len(src))
    return cat


def near(a, b, tol=1e-9, atol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=atol)


def ref_flux(f, n):
    """Half-width n*sqrt|f|, and never narrower than +-(n/2)^2 around zero for faint fluxes."""
    f = np.asarray(f, float)
    w = n * np.sqrt(np.abs(f))
    m = (n / 2.0) ** 2
    lo = np.where(f <= m, np.minimum(f - w, -m), f - w)
    return lo, np.maximum(f + w, m)


# ---- make_bounds
def make_st():
    rng = st.one_of(st.none(), st.fixed_dictionaries(dict(
        sqrtq_range=st.tuples(L.rnd(0.1, 0.41, 3), L.rnd(0.985, 1.0, 3)), pa_range=st.tuples(L.rnd(-3, -1.6, 3), L.rnd(1.6, 3, 3)),
        rhalf_range=st.tuples(L.rnd(0.01, 0.035, 4), L.rnd(0.3, 2, 3)), sersic_range=st.tuples(L.rnd(0.5, 1.0, 3), L.rnd(5, 8, 3)))))
    pos = st.one_of(st.just(["default"]), st.tuples(st.just("npix"), L.rnd(0.1, 20, 3), L.rnd(0.01, 0.3, 3)),
                    st.tuples(st.just("dpos"), L.rnd(0.001, 2, 4), L.rnd(0.001, 2, 4)), st.just(["each"]))
    return st.fixed_dictionaries(dict(src=cat_st(), nb=st.integers(1, 4), rng=rng, pos=pos, nsig=st.one_of(st.none(), L.rnd(0.1, 20, 3)),
                                      unc=st.sampled_from(["none", "none", "all"]), order=st.permutations(list(range(4))),
                                      shapes=st.permutations(list(range(6)))))


def make_body(case, info):
    from forcepho.superscene import bounds_vectors, check_bounds, make_bounds
    bands = [L.BANDS[i] for i in case["order"][:case["nb"]]]
    shapes = [L.SHAPES[i] for i in case["shapes"]]
    src = case["src"]
    cat = build(src, bands)
    n = len(src)
    kw = dict((k, tuple(v)) for k, v in (case["rng"] or {}).items())
    rs = np.random.RandomState(n)
    if case["pos"][0] == "npix":
        kw.update(n_pix=case["pos"][1], pixscale=case["pos"][2])
        dp = np.full((2, n), case["pos"][1] * case["pos"][2])
    elif case["pos"][0] == "dpos":
        kw.update(dpos=np.array(case["pos"][1:]))
        dp = np.tile(np.array(case["pos"][1:])[:, None], (1, n))
    elif case["pos"][0] == "each" and n != 2:
        dp = rs.uniform(0.01, 1, (2, n))
        kw.update(dpos=dp.copy())
    else:
        dp = np.full((2, n), 0.06)
    nsig = 5.0
    if case["nsig"] is not None:
        nsig = kw["n_sig_flux"] = case["nsig"]
    if case["unc"] == "all":
        kw["unccat"] = build(src, bands, flux_key="unc")
    keep = cat.copy()
    b = make_bounds(cat, list(bands), shapenames=list(shapes), **kw)
    check(np.array_equal(cat, keep), "make_bounds changed the catalog")
    check(len(b) == n, "%d rows of bounds for %d sources", len(b), n)
    defaults = dict(q=(0.4, 1.0), pa=(-0.6 * np.pi, 0.6 * np.pi), rhalf=(0.03, 0.3), sersic=(1.0, 5.0))
    keys = dict(q="sqrtq_range", pa="pa_range", rhalf="rhalf_range", sersic="sersic_range")
    for c in defaults:
        want = kw.get(keys[c], defaults[c])
        check(near(b[c], np.tile(want, (n, 1))), "%s bounds %s, range %s", c, b[c].tolist(), want)
    # position: half-widths in arcsec on the sky
    for k, c in enumerate(("ra", "dec")):
        cosd = np.cos(np.deg2rad(cat["dec"])) if c == "ra" else 1.0
        half = dp[k] / 3600.0 / cosd
        w = (b[c] - cat[c][:, None]) / half[:, None]
        check(near(w, np.tile([-1.0, 1.0], (n, 1)), atol=1e-7), "%s bounds are at %s times the requested offset", c, w.tolist())
    for k, f in enumerate(bands):
        lo, hi = b[f].T
        if case["unc"] == "all":
            s = nsig * np.maximum([x["unc"][k] for x in src], 0.05 * np.abs(cat[f]))
            wlo, whi = cat[f] - s, cat[f] + s
        else:
            wlo, whi = ref_flux(cat[f], nsig)
        check(near(lo, wlo) and near(hi, whi), "%s flux bounds %s, expected %s, for fluxes %s", f, b[f].tolist(), np.stack([wlo, whi], 1).tolist(), cat[f].tolist())
        check(np.all(lo < cat[f]) and np.all(cat[f] < hi), "flux %s outside its own bounds %s", cat[f].tolist(), b[f].tolist())
    check_bounds(cat, b)
    # vectors
    ref = [round(float(cat["ra"][0]), 3), round(float(cat["dec"][0]), 3)]
    keepb = b.copy()
    lo, hi = bounds_vectors(b, bands, shapenames=shapes, reference_coordinates=ref)
    check(np.array_equal(b, keepb), "bounds_vectors changed the bounds catalog")
    check(len(lo) == len(hi) == n * (len(bands) + 6), "vector lengths %d, %d", len(lo), len(hi))
    j = 0
    for i in range(n):
        for c in bands + shapes:
            off = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            check(near(lo[j], b[c][i, 0] - off, atol=1e-12) and near(hi[j], b[c][i, 1] - off, atol=1e-12), "slot %d is not %s of source %d", j, c, i)
            check(lo[j] < hi[j], "slot %d has no width", j)
            j += 1
    lo0, hi0 = bounds_vectors(b, bands, shapenames=shapes)
    check(near(lo0[len(bands) + shapes.index("ra")], b["ra"][0, 0]), "without a reference position the bounds are not absolute")
    info.label(case["pos"][0], case["unc"], "sources-%d" % min(n, 4))
    info.trivial_if(n < 2 and len(bands) < 2)


# ---- check_bounds
def chk_st():
    return st.fixed_dictionaries(dict(src=cat_st(5), nb=st.integers(1, 3), who=st.integers(0, 4), par=st.integers(0, 8),
                                      where=st.sampled_from(["in", "in", "below", "above", "atlo", "athi"]), frac=L.rnd(0.001, 3, 3)))


def chk_body(case, info):
    from forcepho.superscene import check_bounds, make_bounds
    bands = L.BANDS[:case["nb"]]
    cat = build(case["src"], bands)
    b = make_bounds(cat, list(bands))
    cols = bands + L.SHAPES
    c = cols[case["par"] % len(cols)]
    i = case["who"] % len(cat)
    lo, hi = b[c][i]
    w = hi - lo
    v = dict(below=lo - w * case["frac"], above=hi + w * case["frac"], atlo=lo, athi=hi).get(case["where"], lo + w * min(case["frac"], 0.99))
    cat[c][i] = v
    ok = lo < v < hi
    try:
        check_bounds(cat, b)
        got = True
    except AssertionError as e:
        got = False
        check(c in str(e), "the complaint %s does not name column %s", e, c)
    check(got == ok, "check_bounds %s a catalog with %s=%r in (%r, %r)", "accepted" if got else "refused", c, v, lo, hi)
    info.label(case["where"])


# ---- flux_bounds
def flux_st():
    return st.fixed_dictionaries(dict(flux=st.lists(FLUX, min_size=1, max_size=6), unc=L.rnd(0.1, 20, 3), snr=st.sampled_from([None, 3.0, 10.0, 100.0]),
                                      sig=st.lists(L.rnd(0.001, 100, 4), min_size=6, max_size=6), corr=L.rnd(-0.9, 0.9, 2), prec=st.booleans()))


def flux_body(case, info):
    from forcepho.superscene import flux_bounds
    f = np.array(case["flux"], float)
    n = len(f)
    kw = {} if case["snr"] is None else dict(snr_max=case["snr"])
    keep = f.copy()
    if case["prec"]:
        s = np.array(case["sig"][:n])
        r = case["corr"] ** np.abs(np.arange(n)[:, None] - np.arange(n)[None, :])
        cov = r * s[:, None] * s[None, :]
        P = np.linalg.inv(cov)
        # matrices whose small eigenvalues pinv would drop are not full-rank for the code
        if np.linalg.cond(P) > 1e10:
            info.trivial_if(True)
            return
        lo, hi = flux_bounds(f, case["unc"], precisions=P, **kw)
        sig = np.maximum(s, f / (case["snr"] or 10))
        wlo, whi = f - case["unc"] * sig, np.maximum(f + case["unc"] * sig, case["unc"] * sig)
        check(np.allclose(lo, wlo, rtol=1e-4, atol=1e-4 * sig.min()) and np.allclose(hi, whi, rtol=1e-4, atol=1e-4 * sig.min()),
              "bounds %s %s, expected %s %s", lo, hi, wlo, whi)
    else:
        lo, hi = flux_bounds(f, case["unc"], **kw)
        wlo, whi = ref_flux(f, case["unc"])
        check(near(lo, wlo) and near(hi, whi), "bounds %s %s, expected %s %s", lo, hi, wlo, whi)
    check(np.array_equal(f, keep), "flux_bounds changed the fluxes")
    check(np.all(lo < f) and np.all(f < hi), "fluxes %s outside %s %s", f, lo, hi)
    check(np.all(hi > 0), "a flux cannot be positive: upper %s", hi)
    info.label("precisions" if case["prec"] else "heuristic")


# ---- adjust_bounds
def adj_st():
    return st.fixed_dictionaries(dict(src=cat_st(5), nb=st.integers(1, 3), db=st.booleans(), cfg=st.booleans(),
                                      minflux=st.one_of(st.none(), L.rnd(-100, 5, 3)), fac=st.sampled_from([0.0, 0.5, 2.0, 10.0, 100.0]),
                                      sub=st.booleans(), move=L.rnd(-3, 3, 3), eps=st.sampled_from([None, 1e-4, 0.01])))


def adj_body(case, info):
    import argparse
    from forcepho.superscene import LinkedSuperScene, adjust_bounds, make_bounds, sourcecat_dtype
    bands = L.BANDS[:case["nb"]]
    todo = bands[:1] if case["sub"] else bands
    cat0 = build(case["src"], bands)
    cat = np.zeros(len(cat0), dtype=sourcecat_dtype(bands=bands))
    for c in cat0.dtype.names:
        cat[c] = cat0[c]
    cat["roi"] = 0.1
    kw = {}
    if case["cfg"] or case["minflux"] is None:
        kw["config"] = argparse.Namespace(minflux=case["minflux"], maxfluxfactor=case["fac"])
    else:
        kw.update(minflux=case["minflux"], maxfluxfactor=case["fac"])
    if case["eps"]:
        kw["eps"] = case["eps"]
    eps = case["eps"] or 0.001
    if case["db"]:
        db = LinkedSuperScene(sourcecat=cat.copy(), bands=list(bands), statefile="s.fits")
        b0 = db.bounds_catalog.copy()
        out = adjust_bounds(db, list(todo), **kw)
        check(out is db, "adjust_bounds returns another scene")
        b1, ref = db.bounds_catalog, cat
        for c in bands + L.SHAPES:
            check(field.same_col(c, db.sourcecat[c], cat[c]), "adjust_bounds changed %s", c)
    else:
        b0 = make_bounds(cat, list(bands))
        act = cat.copy()
        for b in bands:
            w = b0[b][:, 1] - b0[b][:, 0]
            act[b] = act[b] + case["move"] * w
        ref = act.copy()
        b1 = b0.copy()
        adjust_bounds(b1, list(todo), active=act, **kw)
    for b in bands:
        lo, hi = b0[b][:, 0].copy(), b0[b][:, 1].copy()
        if b in todo:
            if case["minflux"] is not None:
                lo = np.minimum(lo, case["minflux"])
            if case["fac"] > 0:
                hi = np.maximum(hi, ref[b] * case["fac"])
        check(near(b1[b][:, 0], lo) and near(b1[b][:, 1], hi), "%s bounds %s, expected %s", b, b1[b].tolist(), np.stack([lo, hi], 1).tolist())
        check(np.all(b1[b][:, 0] < b1[b][:, 1]), "%s bounds without width", b)
        if not case["db"]:
            want = np.minimum(np.maximum(ref[b], lo + eps), hi - eps) if b in todo else ref[b]
            wide = hi - lo > 2 * eps
            check(near(act[b][wide], want[wide]), "%s fluxes %s, expected %s", b, act[b], want)
            if b in todo:
                check(np.all((act[b] > lo) & (act[b] < hi) | ~wide), "%s fluxes outside the adjusted bounds", b)
    for c in L.SHAPES:
        check(np.array_equal(b1[c], b0[c]), "adjust_bounds changed the %s bounds", c)
        if not case["db"]:
            check(np.array_equal(act[c], ref[c]), "adjust_bounds changed %s", c)
    info.label("scene" if case["db"] else "arrays", "minflux" if case["minflux"] is not None else "no-minflux", "factor-%g" % case["fac"])


# ---- the scene builds its bounds from its settings
def scn_st():
    return st.fixed_dictionaries(dict(src=cat_st(6), nb=st.integers(1, 3), dpos=st.tuples(L.rnd(0.01, 0.5, 3), L.rnd(0.01, 0.5, 3)),
                                      rng=st.tuples(L.rnd(0.2, 0.4, 3), L.rnd(0.02, 0.035, 4), L.rnd(0.5, 1, 3)), pick=st.lists(st.integers(0, 5), min_size=1, max_size=6, unique=True),
                                      roi=st.booleans()))


def scn_body(case, info):
    import argparse
    from forcepho.config import make_bounds_kwargs
    from forcepho.superscene import LinkedSuperScene, SuperScene, bounds_vectors, sourcecat_dtype
    bands = L.BANDS[:case["nb"]]
    cat0 = build(case["src"], bands)
    cat = np.zeros(len(cat0), dtype=sourcecat_dtype(bands=bands))
    for c in cat0.dtype.names:
        cat[c] = cat0[c]
    cfg = argparse.Namespace(sqrtq_range=[case["rng"][0], 1.0], rhalf_range=[case["rng"][1], 0.5], sersic_range=[case["rng"][2], 6.0],
                             pa_range=[-2.0, 2.0], dpos=list(case["dpos"]), something_else=3)
    cls = LinkedSuperScene if case["roi"] else SuperScene
    db = cls(sourcecat=cat, bands=list(bands), statefile="s.fits", bounds_kwargs=make_bounds_kwargs(cfg))
    db.check_bounds()
    b = db.bounds_catalog
    check(near(b["q"], np.tile(cfg.sqrtq_range, (len(cat), 1))) and near(b["rhalf"], np.tile(cfg.rhalf_range, (len(cat), 1)))
          and near(b["sersic"], np.tile(cfg.sersic_range, (len(cat), 1))) and near(b["pa"], np.tile(cfg.pa_range, (len(cat), 1))),
          "shape bounds of the scene are not the configured ranges")
    half = np.stack([(b["ra"][:, 1] - b["ra"][:, 0]) / 2 * np.cos(np.deg2rad(cat0["dec"])), (b["dec"][:, 1] - b["dec"][:, 0]) / 2]) * 3600
    check(np.allclose(half, np.array(case["dpos"])[:, None], rtol=1e-5), "position half-widths %s, configured %s", half.tolist(), case["dpos"])
    idx = [i % len(cat) for i in case["pick"]]
    idx = sorted(set(idx), key=idx.index)
    bb, cov = db.bounds_and_covs(idx)
    act = db.sourcecat[idx]
    ref = np.array([np.median(cat0["ra"]), np.median(cat0["dec"])])
    lo, hi = bounds_vectors(bb, bands, reference_coordinates=ref)
    # the same order and frame as the parameter vector of a scene made from these sources
    v = []
    for r in act:
        v += [r[x] for x in bands] + [r["ra"] - ref[0], r["dec"] - ref[1]] + [r[x] for x in L.SHAPES[2:]]
    v = np.array(v)
    check(len(v) == len(lo) and np.all(lo < v) and np.all(v < hi), "the sources' own values are outside their bounds vectors")
    info.label(cls.__name__)


def subs():
    return [
        Sub("make", make_st, make_body, quick=2500, shards=3, rule="catalogs with zero, negative, faint and bright fluxes; any bands, shape order, ranges, offsets and uncertainties; bounds and vectors against a reference computation",
            nontrivial_rule="at least two sources or two bands"),
        Sub("check", chk_st, chk_body, quick=1500, shards=1, rule="one value moved inside, onto or outside its bound"),
        Sub("flux", flux_st, flux_body, quick=1500, shards=1, rule="flux bounds from the heuristic or from a precision matrix"),
        Sub("adjust", adj_st, adj_body, quick=1500, shards=2, rule="bounds adjusted for a scene or for arrays"),
        Sub("scene", scn_st, scn_body, quick=600, shards=1, rule="bounds a scene makes from configured ranges and hands out for any sources"),
    ]
