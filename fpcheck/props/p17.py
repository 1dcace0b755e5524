"""P17: fit results on disk."""
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["optional fields that are None are left out of the file (h5 has no None)"]


def case_st():
    return st.fixed_dictionaries(dict(
        nsrc=L.mostly(st.integers(1, 6), st.integers(12, 40)), nb=L.mostly(st.integers(1, 4), st.integers(6, 30)), order=st.permutations(list(range(4))), niter=L.mostly(st.integers(1, 9), st.integers(60, 300)), shapes=st.sampled_from(["galaxy", "galaxy", "star", "odd"]),
        seed=st.integers(0, 10 ** 6), fixed=L.mostly(st.integers(0, 3), st.integers(12, 200)), big=st.integers(0, 1), bounds=st.booleans(), cov=st.sampled_from(["full", "diag", "none"]),
        stats=st.booleans(), tune=L.mostly(st.integers(0, 9), st.integers(10, 200)), ref=st.tuples(L.rnd(0, 360, 5), L.rnd(-89, 89, 5)), extra=st.booleans(), nexp=L.mostly(st.integers(1, 4), st.integers(12, 900)),
        patchID=st.one_of(st.none(), st.integers(0, 9999)), bare=st.booleans(), it=L.mostly(st.integers(-9, 9), st.integers(-300, 300)), absent=st.booleans(), how=st.sampled_from(["dump", "dump", "write_to_disk"])))


def cat(rs, n, bands, shapes, base=0):
    dt = [("id", np.int32), ("source_index", np.int32), ("n_iter", np.int32), ("roi", np.float32)] + [(c, float) for c in L.SHAPES + bands]
    a = np.zeros(n, dtype=dt)
    a["id"] = rs.permutation(1000)[:n]
    a["source_index"] = rs.permutation(50 if n <= 50 else 500)[:n] + base
    a["roi"] = rs.uniform(size=n)
    for c in L.SHAPES + bands:
        a[c] = rs.normal(size=n)
    return a


def body(case, info):
    from forcepho.fitting import Result
    from forcepho.postprocess import Samples
    from forcepho.region import CircularRegion
    from forcepho.utils import make_chaincat, write_to_disk
    rs = np.random.RandomState(case["seed"])
    bands = [L.BANDS[i] for i in case["order"][:case["nb"]]]
    bands += [b for b in L.MOREBANDS + L.BANDS if b not in bands][:case["nb"] - len(bands)]
    shapes = dict(galaxy=L.SHAPES, star=["ra", "dec"], odd=["sersic", "dec", "rhalf", "ra"])[case["shapes"]]
    cols = bands + shapes
    ns, P = case["nsrc"], len(cols)
    absent = ["F999X"] if case["absent"] else []
    active = cat(rs, ns, bands + absent, shapes)
    fixed = cat(rs, case["fixed"], bands, shapes) if case["fixed"] else None
    big = cat(rs, 2, bands, shapes) if case["big"] else None
    chain = rs.normal(size=(case["niter"], ns * P))
    ref = np.array(case["ref"])
    patch = NS(bandlist=list(bands), patch_reference_coordinates=ref.copy(), npix=rs.randint(1, 99999), epaths=["%s/exp%d.fits" % (bands[i % len(bands)], i) for i in range(case["nexp"])])
    model = NS(patch=patch, scene=NS(sources=[NS(SHAPE_COLS=list(shapes))] * ns), ncall=rs.randint(1, 9999))
    step = stats = None
    if case["cov"] != "none":
        C = rs.normal(size=(ns * P, ns * P))
        C = C @ C.T
        if case["cov"] == "full":
            step = NS(potential=NS(_cov=C.copy()))
        else:
            step = NS(potential=NS(_var=np.diag(C).copy()))
            C = np.diag(np.diag(C))
        step.stats_dtypes = [dict(tune=bool, model_logp=np.float64, depth=np.int64, step_size=np.float64)]
        if case["stats"]:
            stats = [dict(tune=k < case["tune"], model_logp=rs.normal(), depth=rs.randint(9), step_size=rs.uniform(), junk=3) for k in range(case["niter"])]
    bounds = None
    if case["bounds"]:
        bounds = np.zeros(ns, dtype=[("source_index", np.int32)] + [(c, float, (2,)) for c in cols])
        for c in cols:
            bounds[c] = rs.normal(size=(ns, 2))
    res = Result()
    res.ndim = ns * P
    res.starting_position = rs.normal(size=ns * P)
    res.chain = chain.copy()
    res.wall_time = float(rs.uniform())
    if case["extra"]:
        res.message = "converged: yes"
        res.precisions = rs.normal(size=(len(bands), ns, ns))
        res.something = 7
    region = CircularRegion(case["ref"][0], case["ref"][1], 0.001)
    keep = active.copy()
    qcat, covs = res.fill(region, active, fixed, model, big=big, bounds=None if bounds is None else bounds.copy(), patchID=case["patchID"], step=step, stats=stats)
    check(np.array_equal(active, keep), "fill changed the active catalog")

    def slot(k, s, c):
        off = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
        return chain[k, s * P + cols.index(c)] + off

    def same_cat(got, k, what):
        check(len(got) == ns, "%s has %d rows", what, len(got))
        for s in range(ns):
            for c in cols:
                check(abs(got[c][s] - slot(k, s, c)) < 1e-9, "%s: %s of source %d is %r, the chain has %r", what, c, s, got[c][s], slot(k, s, c))
        for c in active.dtype.names:
            if c not in cols:
                check(np.array_equal(got[c], active[c]), "%s: column %s is not that of the active catalog", what, c)
    same_cat(qcat, case["niter"] - 1, "last sample returned")
    if case["cov"] == "none":
        check(covs is None, "covariances without a step")
    else:
        check(np.array_equal(np.asarray(covs), np.stack([C[s * P:(s + 1) * P, s * P:(s + 1) * P] for s in range(ns)])), "covariance blocks are not those of the sources")
    d = tempfile.mkdtemp(dir=".")
    try:
        if case["how"] == "write_to_disk":
            cfg = NS(write_residuals=False, gtol=1e-5, name="run")
            write_to_disk(res, os.path.join(d, "sub", "patch3"), model, cfg)
            fn = os.path.join(d, "sub", "patch3_samples.h5")
        else:
            fn = "res_%d.h5" % os.getpid() if case["bare"] else os.path.join(d, "a", "b", "res.h5")
            msgs = res.dump_to_h5(fn)
            names = [k for k, v in vars(res).items() if v is not None]
            check(not [m for m in msgs if "None" not in m], "fields could not be saved: %s (of %s)", msgs, names)
        back = (Samples if case["seed"] % 2 else Result)(fn)
    finally:
        if case["bare"] and case["how"] == "dump" and os.path.exists("res_%d.h5" % os.getpid()):
            os.remove("res_%d.h5" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
    for k, v in (("chain", chain), ("starting_position", res.starting_position), ("reference_coordinates", ref), ("active", active), ("fixed", fixed), ("big", big),
                 ("bounds", bounds), ("cov", None if case["cov"] == "none" else C), ("stats", res.stats if stats is not None else None),
                 ("precisions", res.precisions if case["extra"] else None), ("final", qcat)):
        g = getattr(back, k, None)
        if v is None:
            check(g is None, "%s appeared from nowhere", k)
        else:
            check(g is not None and g.dtype == v.dtype and g.shape == v.shape and np.array_equal(g, v), "%s differs after reading back", k)
    for k in ("ndim", "wall_time", "npix", "nexp", "n_call") + (("message", "something") if case["extra"] else ()):
        check(getattr(back, k) == getattr(res, k), "%s is %r, written %r", k, getattr(back, k), getattr(res, k))
    check(back.npix == patch.npix and back.nexp == case["nexp"] and back.n_call == model.ncall, "npix, nexp or n_call wrong")
    check([e.decode() if isinstance(e, bytes) else e for e in back.exposures] == patch.epaths, "exposures %s", back.exposures)
    if case["patchID"] is not None:
        check(back.patchID == case["patchID"], "patchID is %r", back.patchID)
    if case["how"] == "write_to_disk":
        import json
        check(json.loads(back.config) == vars(cfg), "configuration read back as %s", back.config)
    check(back.bands == bands and back.shape_cols == list(shapes), "columns read back as %s %s", back.bands, back.shape_cols)
    check(abs(back.region.ra - region.ra) < 1e-12 and abs(back.region.dec - region.dec) < 1e-12 and abs(back.region.radius - region.radius) < 1e-15, "region differs")
    if stats is not None:
        for k, s_ in enumerate(stats):
            for c in ("tune", "model_logp", "depth", "step_size"):
                check(back.stats[c][k] == s_[c], "statistic %s of sample %d is %r, was %r", c, k, back.stats[c][k], s_[c])
        nt = sum(bool(s_["tune"]) for s_ in stats)
        check(back.n_tune == nt and back.n_sample == case["niter"] - nt, "n_tune %s, n_sample %s; %d of %d are tuning", back.n_tune, back.n_sample, nt, case["niter"])
        best = int(np.argmax([s_["model_logp"] for s_ in stats]))
        m = back.get_map()
        check(m.shape == (1, ns * P) and np.array_equal(m[0], chain[best]), "best sample is not number %d", best)
        same_cat(back.get_map(structured=True), best, "best sample")
    # the structured chain
    cc = back.chaincat
    check(np.array_equal(cc["source_index"], active["source_index"]), "source_index of the structured chain")
    for s in range(ns):
        for c in cols:
            off = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            check(np.allclose(cc[c][s], chain[:, s * P + cols.index(c)] + off, rtol=0, atol=1e-9), "structured chain: %s of source %d is not its slot of the vector", c, s)
    it = case["it"] % case["niter"]
    same_cat(back.get_sample_cat(it), it, "sample %d" % it)
    same_cat(back.get_sample_cat(it - case["niter"]), it, "sample %d from the end" % it)
    same_cat(back.final, case["niter"] - 1, "final state read back")
    # the structured chain is rebuilt when it was not stored
    del back.chaincat
    back._reconstruct()
    check(np.array_equal(back.chaincat, cc), "rebuilt structured chain differs")
    check(np.array_equal(back.chain, chain) and np.array_equal(back.active, active), "extracting samples changed the result")
    try:
        make_chaincat(chain[:, :-1] if P > 1 else np.zeros((2, ns * P + 1)), bands, active, ref, shapes=shapes)
        bad = False
    except (AssertionError, ValueError):
        bad = True
    check(bad or ns * P == 1, "a chain of the wrong size was accepted")
    info.label(case["shapes"], "cov-" + case["cov"], "sources-%d" % min(ns, 4), "large" if max(ns, len(bands), case["nexp"] // 3, case["niter"] // 10, case["fixed"]) > 6 else "small")
    info.trivial_if(ns < 2 or case["niter"] < 2)


def subs():
    return [Sub("roundtrip", case_st, body, quick=1300, shards=6, rule="generated chains, catalogs, covariances, statistics and optional fields written and read back; every slot compared",
                nontrivial_rule="at least two sources and two samples")]
