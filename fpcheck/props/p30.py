"""P30: catalog and chain utilities."""
import json
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["identifiers are unique within a catalog and group labels are numbers", "the orientation of drawn ellipses is not judged (the documentation and the model define pa differently)"]
EXT = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]


# --- block-diagonal extraction, images, percentiles of plain arrays ---

def arr_st():
    return st.fixed_dictionaries(dict(nb=L.mostly(st.integers(1, 6), st.integers(7, 40)), n=L.mostly(st.integers(1, 6), st.integers(7, 30)), rag=st.integers(0, 3), k=st.integers(-3, 3), seed=st.integers(0, 10 ** 6), layout=st.sampled_from(["C", "F", "view"]),
                                      pix=st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=30, unique=True), pad=st.integers(0, 4),
                                      nx=L.mostly(st.integers(2, 12), st.integers(30, 2000)), qs=st.lists(L.rnd(0, 1, 3), min_size=1, max_size=4), nv=st.integers(1, 3)))


def arr(case, info):
    from forcepho.utils import extract_block_diag, populate_image
    from forcepho.utils.corner import get_spans, quantile
    rs = np.random.RandomState(case["seed"])
    n, N = case["n"], case["n"] * case["nb"] + min(case["rag"], case["n"] - 1)
    a = rs.normal(size=(N, N))
    if case["layout"] == "F":
        a = np.asfortranarray(a)
    elif case["layout"] == "view":
        a = rs.normal(size=(2 * N, 2 * N))[::2, 1::2]
    keep = a.copy()
    k = max(-case["nb"] + 1, min(case["nb"] - 1, case["k"]))
    b = extract_block_diag(a, n, k=k)
    m = case["nb"] - abs(k)
    check(b.shape == (m, n, n), "blocks have shape %s", b.shape)
    for i in range(m):
        r, c = (i, i + k) if k >= 0 else (i - k, i)
        check(np.array_equal(b[i], keep[r * n:(r + 1) * n, c * n:(c + 1) * n]), "block %d (k=%d) is not rows of block %d and columns of block %d", i, k, r, c)
    check(np.array_equal(a, keep), "the input changed")
    for bad, kw in ((rs.normal(size=4), n), (keep, 0), (rs.normal(size=(2, 2, 2)), 1)):
        try:
            extract_block_diag(bad, kw)
            ok = False
        except ValueError:
            ok = True
        check(ok, "bad input accepted")
    # pixels placed in the bounding rectangle
    p = np.array(case["pix"], dtype=float)
    val = rs.normal(size=len(p))
    o = rs.permutation(len(p) + case["pad"])
    x = np.concatenate([p[:, 0], np.full(case["pad"], -1)])[o].astype(np.float32)
    y = np.concatenate([p[:, 1], np.full(case["pad"], -1)])[o].astype(np.float32)
    v = np.concatenate([val, np.full(case["pad"], 77.0)])[o]
    im, lo, hi = populate_image(x, y, v)
    mn, mx = p.min(axis=0), p.max(axis=0)
    check(np.array_equal(lo, mn - 0.5) and np.array_equal(hi, mx + 0.5), "limits %s %s of pixels spanning %s %s", lo, hi, mn, mx)
    check(im.shape == tuple((mx - mn + 1).astype(int)), "image of shape %s", im.shape)
    ref = np.full(im.shape, np.nan)
    for (i, j), z in zip(case["pix"], val):
        ref[i - int(mn[0]), j - int(mn[1])] = z
    check(np.array_equal(ref, im, equal_nan=True), "pixels are not where their coordinates say")
    # quantiles
    s = rs.normal(size=(case["nv"], case["nx"]))
    q = np.array(case["qs"])
    out = quantile(s, q)
    check(out.shape == (case["nv"], len(q)), "quantiles have shape %s", out.shape)
    ref = np.array([np.percentile(row, 100 * q) for row in s])
    check(np.allclose(out, ref, rtol=1e-12, atol=1e-12), "quantiles of the wrong samples")
    eq = quantile(s, q, weights=np.full(case["nx"], 0.37))
    check(np.allclose(eq, ref, rtol=1e-7, atol=1e-9), "equal weights change the quantiles: %s, %s", eq, ref)
    w = rs.uniform(0.1, 2, case["nx"])
    o = rs.permutation(case["nx"])
    w1, w2 = quantile(s, q, weights=w), quantile(s[:, o], q, weights=5 * w[o])
    check(np.allclose(w1, w2, rtol=1e-9, atol=1e-10), "weighted quantiles depend on sample order or weight scale")
    for row, g in zip(s, w1):
        check(np.all(g >= row.min()) and np.all(g <= row.max()) and np.all(np.diff(g[np.argsort(q)]) >= -1e-12), "weighted quantiles not monotone in range")
    sp = get_spans([0.6] + [(-1.0, 2.0)] * (case["nv"] - 1), s)
    check(np.allclose(sp[0], np.percentile(s[0], [20, 80])) and all(tuple(t) == (-1.0, 2.0) for t in sp[1:]), "spans %s", sp)
    info.label("k%+d" % np.sign(k), case["layout"])
    info.trivial_if(case["nb"] < 2)


# --- catalogs ---

def cat_st():
    return st.fixed_dictionaries(dict(n=L.mostly(st.lists(st.integers(1, 6), min_size=1, max_size=4), st.lists(st.integers(1, 60), min_size=1, max_size=12)), npoint=L.mostly(st.integers(1, 9), st.integers(20, 300)), nb=L.mostly(st.integers(1, 4), st.integers(5, 25)), seed=st.integers(0, 10 ** 6), named=st.booleans(), again=st.booleans(),
                                      pct=st.lists(L.rnd(0.5, 99.5, 1), min_size=1, max_size=5), asfile=st.booleans(), groups=st.lists(st.tuples(st.integers(1, 9999), st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)), max_size=4, unique_by=lambda g: g[0]),
                                      fmt=st.sampled_from(["float", "int"])))


def cats(case, i, npoint, ids):
    from forcepho.utils.catalog import out_dtype
    rs = np.random.RandomState(case["seed"] + i)
    bands = (L.BANDS + L.MOREBANDS)[:case["nb"]]
    c = np.zeros(len(ids), dtype=out_dtype(npoint, bands=list(bands)))
    c["id"] = ids
    for k in c.dtype.names:
        if k == "source_index":
            c[k] = rs.permutation(500)[:len(ids)]
        elif k != "id":
            c[k] = rs.normal(size=c[k].shape)
    return c


def cat(case, info):
    from astropy.io import fits
    from forcepho.utils import append_catalogs, combine_chains, pctile_cat, write_table
    rs = np.random.RandomState(case["seed"])
    bands = (L.BANDS + L.MOREBANDS)[:case["nb"]]
    allid = [str(v) for v in rs.permutation(5000)[:sum(case["n"])]]
    d = tempfile.mkdtemp(dir=".")
    try:
        files, parts, pos = [], [], 0
        for i, n in enumerate(case["n"]):
            ids = allid[pos:pos + n]
            pos += n
            t = [cats(case, 10 * i + k, npt, ids) for k, npt in enumerate((2, max(2, case["npoint"]), 1, 3))]
            fn = os.path.join(d, "c%d.fits" % i)
            full = write_table(fn, t, extnames=EXT if case["named"] else [], FILTERS=",".join(bands), RUN=i)
            check(len(full) == 5, "table has %d extensions", len(full))
            files.append(fn)
            parts.append(t)
        one = fits.open(files[0])
        check(one[1].header["FILTERS"] == ",".join(bands) and one[4].header["RUN"] == 0, "header values of the written table")
        for k, e in enumerate(EXT):
            h = one[e] if case["named"] else one[k + 1]
            for c in parts[0][k].dtype.names:
                check(np.array_equal(np.asarray(h.data[c]).reshape(parts[0][k][c].shape), parts[0][k][c]), "column %s of the written table", c)
        one.close()
        out = os.path.join(d, "all.fits")
        append_catalogs(files, out)
        want = [np.concatenate([t[k] for t in parts]) for k in range(4)]
        if case["again"]:
            # the output is itself a catalog that can be appended to
            append_catalogs([out, files[0]], os.path.join(d, "again.fits"))
            out = os.path.join(d, "again.fits")
            want = [np.concatenate([w, t]) for w, t in zip(want, parts[0])]
        with fits.open(out) as h:
            h.verify("exception")
            for k, e in enumerate(EXT):
                t = h[e].data
                check(t is not None and len(t) == len(want[k]), "appended %s has %s rows, the parts have %d", e, None if t is None else len(t), len(want[k]))
                check(list(t.dtype.names) == list(want[k].dtype.names), "columns of %s: %s", e, t.dtype.names)
                for c in want[k].dtype.names:
                    check(np.array_equal(np.asarray(t[c]).reshape(want[k][c].shape), want[k][c]), "column %s of appended %s", c, e)
                check(h[e].header["FILTERS"] == ",".join(bands), "appended header lost the bands")
            check(h[0].header["FILTERS"] == ",".join(bands), "appended header lost the bands")
        # percentiles of each source's own samples
        smp = parts[0][1]
        src = smp
        if case["asfile"]:
            src = os.path.join(d, "s.fits")
            full = fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(smp)])
            full[0].header["FILTERS"] = ",".join(bands)
            full.writeto(src)
        keep = smp.copy()
        pc, hdr = pctile_cat(src, percentiles=list(case["pct"]))
        check(np.array_equal(smp, keep), "the sample catalog changed")
        check(len(pc) == len(smp), "%d rows of percentiles for %d sources", len(pc), len(smp))
        scol = hdr["SMPLCOLS"].split(",")
        check([float(v) for v in hdr["PCTS"].split(",")] == list(case["pct"]), "percentiles in the header: %s", hdr["PCTS"])
        for c in smp.dtype.names:
            if smp[c].ndim == 2:
                check(c in scol, "%s is missing from SMPLCOLS", c)
                for s in range(len(smp)):
                    ref = [np.percentile(smp[c][s], p) for p in case["pct"]]
                    check(np.allclose(np.atleast_1d(pc[c][s]), ref, rtol=1e-10, atol=1e-12), "percentiles of %s of source %d: %s, expected %s", c, s, pc[c][s], ref)
            else:
                got = pc[c].astype(smp[c].dtype)  # strings come back from FITS as bytes
                check(c not in scol and np.array_equal(got, smp[c]), "column %s changed", c)
        # combined sources
        groups = {(float(g) if case["fmt"] == "float" else g): [smp["id"][j % len(smp)] for j in sub] for g, sub in case["groups"]}
        groups = {g: list(dict.fromkeys(v)) for g, v in groups.items()}
        oc, hdr = combine_chains(smp, list(bands), groups=groups)
        check(np.array_equal(smp, keep) and len(oc) == len(groups), "%d combined rows for %d groups", len(oc), len(groups))
        for i, (g, sub) in enumerate(groups.items()):
            check(float(oc["id"][i]) == float(g), "combined row %d has id %s, group is %s", i, oc["id"][i], g)
            check(hdr["G%s" % g] == ",".join(sub), "members recorded as %s", hdr)
            rows = [list(smp["id"]).index(s) for s in sub]
            for b in bands:
                check(np.allclose(oc[b][i], sum(smp[b][r] for r in rows), rtol=1e-10, atol=1e-10), "flux in %s of group %s is not the sum of its members", b, g)
            for c in ("ra", "dec"):
                check(np.allclose(oc[c][i], sum(smp[c][r] for r in rows) / len(rows), rtol=1e-10, atol=1e-10), "%s of group %s is not the mean of its members", c, g)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.label("files-%d" % len(case["n"]), "groups-%d" % min(2, len(groups)))
    info.trivial_if(sum(case["n"]) < 2)


# --- logs, encoding, chains, regions ---

def misc_st():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 10 ** 6), n=L.mostly(st.integers(1, 6), st.integers(10, 60)), nit=L.mostly(st.integers(1, 7), st.integers(20, 300)), nb=L.mostly(st.integers(1, 4), st.integers(5, 25)), it=st.integers(-7, 6), byt=st.booleans(), order=st.permutations(L.SHAPES),
                                      msgs=st.lists(st.text(alphabet="abc xyz%{}", max_size=12), max_size=5), ell=st.booleans(), showid=st.booleans(), roi=st.booleans(),
                                      dec0=L.rnd(-80, 80, 4), ra0=L.rnd(0, 359, 4), scal=st.integers(-10 ** 9, 10 ** 9), x=st.floats(allow_nan=False, allow_infinity=False)))


def misc(case, info):
    from forcepho.utils import Logger, NumpyEncoder, cat_to_regions, get_sample_cat, make_chaincat, make_statscat
    rs = np.random.RandomState(case["seed"])
    lg = Logger("t")
    for i, m in enumerate(case["msgs"]):
        lg.info(m, **({} if i % 2 else dict(timetag="t%d" % i)))
    check([c[0] for c in lg.comments] == case["msgs"] and lg.serialize() == "\n".join(case["msgs"]), "log lost messages")
    check(all(lg.comments[i][1] == "t%d" % i for i in range(0, len(case["msgs"]), 2)), "time tags")
    obj = dict(a=rs.normal(size=(2, 3)), b=np.int32(case["scal"]), c=np.float64(case["x"]), d=[np.int64(3), dict(z=np.float32(0.5), ids=rs.permutation(4))], s="s", n=None, bl=True)
    back = json.loads(json.dumps(obj, cls=NumpyEncoder))
    check(back == dict(a=obj["a"].tolist(), b=case["scal"], c=case["x"], d=[3, dict(z=0.5, ids=obj["d"][1]["ids"].tolist())], s="s", n=None, bl=True), "JSON round trip gave %s", back)
    try:
        json.dumps(dict(a=object()), cls=NumpyEncoder)
        bad = False
    except TypeError:
        bad = True
    check(bad, "an object that cannot be encoded was encoded")
    # statistics of a chain
    names = dict(tune=bool, lnp=np.float64, depth=np.int64)
    stats = [dict(tune=bool(rs.randint(2)), lnp=rs.normal(), depth=rs.randint(10), other=1) for _ in range(case["nit"])]
    t = make_statscat(stats, NS(stats_dtypes=[names]))
    check(len(t) == len(stats) and all(t[c][i] == s[c] for i, s in enumerate(stats) for c in names), "statistics table")
    # structured chain
    bands, shapes = (L.BANDS + L.MOREBANDS)[:case["nb"]], list(case["order"])
    cols = bands + shapes
    P, n = len(cols), case["n"]
    chain = rs.normal(size=(case["nit"], n * P))
    chain0 = chain.copy()
    act = np.zeros(n, dtype=[("id", int), ("source_index", np.int32), ("roi", float)] + [(c, float) for c in L.SHAPES + bands])
    act["source_index"] = rs.permutation(99)[:n]
    act["id"] = rs.permutation(9999)[:n]
    act["roi"] = rs.uniform(0.1, 2, n)
    ref = rs.normal(size=2)
    enc = (lambda v: [x.encode() for x in v]) if case["byt"] else list
    ba, sa = enc(bands), enc(shapes)
    cc = make_chaincat(chain, ba, act, ref, shapes=sa)
    check(ba == enc(bands) and sa == enc(shapes), "the caller's lists of columns changed to %s, %s", ba, sa)
    check(np.array_equal(chain, chain0) and np.array_equal(cc, make_chaincat(chain, ba, act, ref, shapes=sa)), "making the structured chain twice gives different results")
    it = case["it"] % case["nit"]
    smp = get_sample_cat(cc, it, act)
    check(np.array_equal(cc["source_index"], act["source_index"]), "source_index of the structured chain")
    for s in range(n):
        for j, c in enumerate(cols):
            v = chain[:, s * P + j] + (ref[0] if c == "ra" else ref[1] if c == "dec" else 0)
            check(np.allclose(cc[c][s], v, rtol=0, atol=1e-12), "%s of source %d in the structured chain", c, s)
            check(abs(smp[c][s] - v[it]) < 1e-12, "%s of source %d in sample %d", c, s, it)
    for c in ("id", "roi", "source_index"):
        check(np.array_equal(smp[c], act[c]), "column %s of the sample", c)
    check(not any(act[c].any() for c in cols), "the active catalog changed")
    # regions
    cat_ = act.copy()
    cat_["ra"] = case["ra0"] + rs.uniform(0, 0.1, n)
    cat_["dec"] = case["dec0"] + rs.uniform(0, 0.1, n)
    cat_["q"] = rs.uniform(0.3, 0.95, n)
    roi = rs.uniform(0.2, 3, n) if case["roi"] else None
    regs = cat_to_regions(cat_, roi=roi, ellipse=case["ell"], showid=case["showid"])
    check(len(regs) == n, "%d regions for %d sources", len(regs), n)
    size = cat_["roi"] if roi is None else roi
    for i, r in enumerate(regs):
        check(abs(r.center.ra.deg - cat_["ra"][i]) < 1e-9 and abs(r.center.dec.deg - cat_["dec"][i]) < 1e-9, "region %d is not at its source", i)
        q = cat_["q"][i] if case["ell"] else 1.0
        w, h = r.width.to_value("arcsec"), r.height.to_value("arcsec")
        check(abs(w * h - size[i] ** 2) < 1e-9 * size[i] ** 2 and abs(h / w - q ** 2) < 1e-9, "region %d has axes %s %s for size %s and sqrt(b/a)=%s", i, w, h, size[i], q)
        if case["showid"]:
            check(r.meta["text"] == str(cat_["id"][i]), "label %s of source %s", r.meta["text"], cat_["id"][i])
    info.label("bytes" if case["byt"] else "str")
    info.trivial_if(n < 2)


def subs():
    return [Sub("arrays", arr_st, arr, quick=1500, shards=3, rule="block extraction, image placement and quantiles of generated arrays against index-by-index recomputation", nontrivial_rule="at least two blocks"),
            Sub("catalogs", cat_st, cat, quick=160, shards=4, rule="generated catalogs written, appended, combined and reduced to percentiles; each cell compared", nontrivial_rule="at least two rows"),
            Sub("chains", misc_st, misc, quick=600, shards=3, rule="generated logs, JSON objects, chains and region catalogs", nontrivial_rule="at least two sources")]
