"""P19: catalogs assembled from the patches of a run."""
import json
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field as F
from ..lib import scene as L

ASSUMPTIONS = ["all patches of one run have the same bands and number of samples (one configuration per run)",
               "the run directory holds one catalog; the output catalog is written elsewhere"]


def patch_st(n):
    return st.fixed_dictionaries(dict(src=st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 5), unique=True), prec=st.booleans(), tune=st.integers(0, 4), seed=st.integers(0, 10 ** 6)))


@st.composite
def case_st(draw):
    f = draw(F.field_st(nmin=2, nmax=9, ext=10.0, bands=3, large=(25,)))
    n = len(f["src"])
    pat = draw(st.lists(patch_st(n), min_size=draw(st.sampled_from([1, 2, 3])), max_size=5))
    if n > 12:
        # a long run
        rs = np.random.RandomState(f["seed"])
        pat = pat + [dict(src=[int(i) for i in rs.choice(n, 1 + rs.randint(5), replace=False)], prec=bool(rs.randint(2)), tune=int(rs.randint(5)), seed=int(rs.randint(10 ** 6))) for _ in range(9)]
    pids = draw(st.lists(st.integers(0, 400), min_size=len(pat), max_size=len(pat), unique=True))
    if draw(st.booleans()):
        pids[draw(st.integers(0, len(pids) - 1))] = 0
        if len(set(pids)) < len(pids):
            pids = list(range(len(pids)))[::-1]
    return dict(field=f, patches=pat, pids=pids, ns=draw(st.integers(1, 6)), order=draw(st.permutations(list(range(3)))), sub=draw(st.lists(st.booleans(), min_size=5, max_size=5)) * 3,
                snr=draw(st.sampled_from([1000, 5, 30.0])), name=draw(st.sampled_from(["superscene.fits", "scene_v2.fits", None])), linked=draw(st.booleans()),
                nsm=draw(st.sampled_from([256, 2, 1, 3])), allprec=draw(st.booleans()))


def make_run(case, root):
    """Write a run directory the way the dispatcher scripts do; return the expected content."""
    from forcepho.fitting import Result
    from forcepho.region import CircularRegion
    from forcepho.superscene import LinkedSuperScene, SuperScene
    cat, bands = F.catalog(case["field"])
    name = case["name"] or "superscene.fits"
    kw = dict(sourcecat=cat.copy(), bands=bands, statefile=os.path.join(root, name), target_niter=50)
    if case["linked"]:
        db = LinkedSuperScene(maxactive_per_patch=5, buffer=0.5, **kw)
    else:
        db = SuperScene(maxactive_per_patch=5, **kw)
    pbands = [b for i in case["order"] for b in bands if b == L.BANDS[i]]
    cols = pbands + L.SHAPES
    P = len(cols)
    recs = {}
    for pid, p in zip(case["pids"], case["patches"]):
        rs = np.random.RandomState(p["seed"])
        src = p["src"]
        ns, ntot = len(src), case["ns"] + p["tune"]
        act = db.sourcecat[np.array(src)].copy()
        ref = np.array([case["field"]["ra0"], case["field"]["dec0"]]) + rs.normal(size=2) * 1e-3
        chain = rs.normal(size=(ntot, ns * P))
        for s in range(ns):
            for j, b in enumerate(pbands):
                chain[:, s * P + j] = rs.uniform(-2, 50, ntot)
        res = Result()
        res.ndim = ns * P
        res.starting_position = chain[0].copy()
        res.chain = chain.copy()
        res.wall_time = float(np.float32(rs.uniform(1, 99)))
        prec = None
        if p["prec"] or case["allprec"]:
            prec = rs.normal(size=(len(pbands), ns, ns)) + 2 * np.eye(ns)
            prec = np.einsum("bij,bkj->bik", prec, prec)
            res.precisions = prec.copy()
        stats = [dict(tune=k < p["tune"], model_logp=rs.normal()) for k in range(ntot)]
        step = NS(potential=NS(_var=rs.uniform(size=ns * P)), stats_dtypes=[dict(tune=bool, model_logp=np.float64)])
        region = CircularRegion(ref[0], ref[1], 0.0005 * (1 + rs.randint(9)))
        patch = NS(bandlist=list(pbands), patch_reference_coordinates=ref.copy(), npix=10, epaths=["x/y.fits"])
        model = NS(patch=patch, scene=NS(sources=[NS(SHAPE_COLS=list(L.SHAPES))] * ns), ncall=3)
        qcat, _ = res.fill(region, act, None, model, bounds=None, patchID=pid, step=step, stats=stats)
        res.config = json.dumps(dict(raw_catalog=os.path.join(root, "out", "raw.fits")))
        os.makedirs(os.path.join(root, "patches"), exist_ok=True)
        res.dump_to_h5(os.path.join(root, "patches", "patch%d_samples.h5" % pid))
        db.checkin_region(qcat, None, case["ns"], taskID=pid)
        off = np.zeros(P)
        off[cols.index("ra")], off[cols.index("dec")] = ref
        recs[pid] = dict(src=src, chain={s: {c: chain[:, i * P + cols.index(c)] + off[cols.index(c)] for c in cols} for i, s in enumerate(src)}, lnp=np.array([s["model_logp"] for s in stats]),
                         wall=res.wall_time, prec=prec, region=region)
    db.writeout()
    cfg = dict(bandlist=bands, raw_catalog="raw.fits")
    if case["name"]:
        cfg["scene_catalog"] = name
    with open(os.path.join(root, "config.json"), "w") as f:
        json.dump(cfg, f)
    return cat, bands, pbands, cols, recs, np.array(db.sourcecat), os.path.join(root, name)


def ref_unc(case, final, bands, pbands, recs, pids, snr):
    """Expected uncertainty of each source and band, and the alternatives acceptable where a default applies."""
    out = {b: np.zeros(len(final)) for b in bands}
    default = {b: np.ones(len(final), bool) for b in bands}
    for pid in pids:
        r = recs[pid]
        if r["prec"] is None:
            continue
        for i, b in enumerate(pbands):
            sg = np.sqrt(np.diag(np.linalg.inv(r["prec"][i])))
            for k, s in enumerate(r["src"]):
                out[b][s] = max(sg[k], r["chain"][s][b][-1] / snr)
                default[b][s] = False
    return out, default


def multipatch(PP, root, case, recs, n, cols):
    pids = case["pids"]
    sid, pp, chains = PP.find_multipatch(root)
    multi = {s: [p for p in pids if s in recs[p]["src"]] for s in range(n)}
    multi = {s: v for s, v in multi.items() if len(v) > 1}
    check(sorted(int(s) for s in sid) == sorted(multi), "sources in several patches: %s, should be %s", sid, multi)
    st_ = PP.check_multipatch(root, n_sample=case["nsm"])
    check(len(st_) == len(multi), "statistics of %d sources, %d are in several patches", len(st_), len(multi))
    for s, plist, ch in zip(sid, pp, chains):
        check([int(p) for p in plist] == multi[int(s)], "patches of source %s: %s", s, plist)
        for k, p in enumerate(multi[int(s)]):
            check(ch["source_index"][k] == int(s), "chain %d of source %s is of source %s", k, s, ch["source_index"][k])
            for c in cols:
                v = recs[p]["chain"][int(s)][c]
                check(np.allclose(ch[c][k], v, rtol=0, atol=1e-9), "chain of %s of source %s in patch %s", c, s, p)
                w = v[-case["nsm"]:]
                check(abs(st_[s][c][0][k] - w.mean()) < 1e-8 and abs(st_[s][c][1][k] - w.std()) < 1e-8, "statistics of %s of source %s in patch %s", c, s, p)
    return multi


def body(case, info):
    from astropy.io import fits
    from forcepho import postprocess as PP
    root = os.path.abspath(tempfile.mkdtemp(dir="."))
    try:
        os.makedirs(os.path.join(root, "out"))
        cat0, bands, pbands, cols, recs, final, fname = make_run(case, root)
        n, ns, pids = len(cat0), case["ns"], case["pids"]
        config, plog, slog, fin = PP.run_metadata(root)
        check(config["bandlist"] == bands and [int(p) for p in plog] == list(pids), "patch log %s, patches run were %s", plog, pids)
        check(sorted(int(s) for s in slog) == sorted({s for r in recs.values() for s in r["src"]}), "sources in the log: %s", sorted(slog))
        for s, pp in slog.items():
            check([int(p) for p in pp] == [p for p in pids if int(s) in recs[p]["src"]], "source %s is logged in patches %s", s, pp)
        for c in fin.dtype.names:
            check(np.array_equal(np.asarray(fin[c]), final[c]), "final catalog column %s", c)
        # posterior samples
        sub = [p for p, k in zip(pids, case["sub"]) if k]
        for which in (None, sub or None):
            use = pids if which is None else sub
            out = os.path.join(root, "out", "post.fits") if case["sub"][0] else None
            got = PP.postsample_catalog(root, catname=out, patches=which)
            rows = [got]
            if out:
                rows.append(np.asarray(fits.getdata(out)))
                check(fits.getheader(out)["FILTERS"] == ",".join(pbands), "bands in the header")
            for t in rows:
                check(len(t) == n, "sample catalog has %d rows for %d sources", len(t), n)
                for s in range(n):
                    own = [p for p in use if s in recs[p]["src"]]
                    if not own:
                        check(t["id"][s] == -1, "source %d was in no patch but has id %s", s, t["id"][s])
                        continue
                    r = recs[own[-1]]
                    check(t["id"][s] == cat0["id"][s] and t["source_index"][s] == s and t["patch_id"][s] == own[-1], "row %d: id %s index %s patch %s; source has id %s, last patch %s", s, t["id"][s], t["source_index"][s], t["patch_id"][s], cat0["id"][s], own[-1])
                    check(abs(t["wall"][s] - r["wall"]) < 1e-4, "wall time of row %d", s)
                    check(np.array_equal(np.atleast_1d(t["lnp"][s]), r["lnp"][-ns:]), "log-probabilities of source %d are not those of its patch", s)
                    for c in cols:
                        check(np.allclose(np.atleast_1d(t[c][s]), r["chain"][s][c][-ns:], rtol=0, atol=1e-9), "samples of %s of source %d are not its own last %d", c, s, ns)
        # flux uncertainties
        unc = PP.flux_unc_linear(root, snr_max=case["snr"])
        dflt = {b: np.abs(np.array(__import__("forcepho.superscene", fromlist=["x"]).flux_bounds(final[b], 1)) - final[b]).max(axis=0) for b in bands}
        exp, isd = ref_unc(case, final, bands, pbands, recs, pids, case["snr"])

        def check_unc(u, exp, isd, what):
            check(len(u) == n and np.array_equal(u["id"], cat0["id"]) and np.array_equal(u["source_index"], np.arange(n)), "%s: rows are not matched to the input", what)
            for b in bands:
                for s in range(n):
                    e = dflt[b][s] if isd[b][s] else exp[b][s]
                    check(abs(u[b][s] - e) <= 1e-6 * max(1e-3, abs(e)), "%s: %s of source %d is %r, expected %r (%s)", what, b, s, u[b][s], e, "default" if isd[b][s] else "from the precisions of its last patch")
        check_unc(unc, exp, isd, "uncertainties")
        # sources in several patches (chains of unequal length cannot be joined)
        multi = {}
        if len({p["tune"] for p in case["patches"]}) == 1:
            multi = multipatch(PP, root, case, recs, n, cols)
        # regions
        files = [os.path.join(root, "patches", "patch%d_samples.h5" % p) for p in pids]
        reg = os.path.join(root, "out", "p.reg")
        PP.write_patchreg(list(files), plist=reg)
        lines = [ln for ln in open(reg).read().splitlines() if "circle" in ln]
        check(len(lines) == len(pids), "%d circles for %d patches", len(lines), len(pids))
        want = sorted((r["region"].ra, r["region"].dec, r["region"].radius) for r in recs.values())
        have = sorted(tuple(float(v.strip(" d")) for v in ln.split("(")[1].split(")")[0].split(",")) for ln in lines)
        check(np.allclose(want, have, rtol=0, atol=1e-10), "patch regions are not those of the patches")
        check(sorted(ln.split('text="')[1].rstrip('"') for ln in lines) == sorted(str(i) for i in range(len(pids))), "labels")
        # the post-optimisation catalog
        if 0 in pids:
            out = os.path.join(root, "out", "postop.fits")
            before = open(fname, "rb").read()
            PP.postop_catalog(root, catname=out)
            check(open(fname, "rb").read() == before, "the run's own catalog changed")
            with fits.open(out) as h:
                check(h[0].header["FILTERS"] == ",".join(pbands) and h[0].header["POSTOP"] is True, "header of the post-optimisation catalog")
                t = h[1].data
                check(len(t) == n and np.array_equal(t["id"], cat0["id"]), "rows of the post-optimisation catalog")
                for c in final.dtype.names:
                    if c in ("n_iter", "n_patch"):
                        check(not np.any(t[c]), "%s is not reset", c)
                    else:
                        check(np.array_equal(np.asarray(t[c]), final[c]), "%s of the post-optimisation catalog", c)
                for s in range(n):
                    own = [p for p in pids if s in recs[p]["src"]]
                    for c in cols:
                        e = recs[own[-1]]["chain"][s][c][-1] if own else cat0[c][s]
                        check(abs(t[c][s] - e) < 1e-9, "%s of source %d is %r, its last patch ended at %r", c, s, t[c][s], e)
                exp, isd = ref_unc(case, final, bands, pbands, recs, pids, 1000)
                check_unc(np.asarray(h[2].data), exp, isd, "uncertainty extension")
            info.label("postop")
        info.label("multi-%d" % min(2, len(multi)), "patches-%d" % len(pids))
        info.trivial_if(len(pids) < 2 or n < 3)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def same_len(case):
    if case["sub"][4]:
        return case
    t = case["patches"][0]["tune"]
    for p in case["patches"]:
        p["tune"] = t
    return case


def subs():
    return [Sub("run", lambda: case_st().map(same_len), body, quick=240, shards=6,
                rule="generated run directories (patch results, logs, final catalog) written with the package's own writers; every assembled catalog recomputed from the generating chains",
                nontrivial_rule="at least two patches and three sources")]
