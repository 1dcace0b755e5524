"""P13: friends-of-friends patches and groups against brute force."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L

ASSUMPTIONS = ["influence radii do not exceed the boundary radius (the neighbour search relies on it)",
               "fields in which a separation is within 1e-6 of a linking length are skipped"]


def case_st(nmax=18):
    return st.fixed_dictionaries(dict(
        field=st.integers(1, nmax).flatmap(lambda k: field.field_st(nmin=k, nmax=k, ext=9.0, large=(12, 40, 300), wrap=True)), seed=st.integers(0, 99), maxactive=st.integers(1, 12),
        maxfix=st.sampled_from([None, None, 0, 1, 3, 50]), boundary=st.sampled_from([3.0, 5.0, 8.0]), buffer=st.sampled_from([0.0, 0.3, 1.0]),
        minradius=st.sampled_from([0.5, 1.0, 4.0]), strict=st.booleans(), useroi=st.sampled_from([True, True, False]),
        shrink=st.sampled_from([1.0, 0.4, 0.15, 2.5]), maxradius=st.sampled_from([6.0, 0.5, 2.0])))


def build(case):
    from forcepho.superscene import LinkedSuperScene
    f = case["field"]
    cat, bands = field.catalog(f)
    cat["roi"] = np.minimum(cat["roi"] * case["shrink"], 0.98 * case["boundary"])
    xy = field.coords(cat)
    roi = (cat["roi"] if case["useroi"] else cat["rhalf"]).astype(float)
    db = LinkedSuperScene(sourcecat=cat.copy(), bands=bands, roi=cat["roi"].copy() if case["useroi"] else None, buffer=case["buffer"],
                          strict=case["strict"], maxactive_per_patch=case["maxactive"], boundary_radius=case["boundary"],
                          minradius=case["minradius"], maxradius=case["maxradius"], statefile="s.fits")
    return cat, bands, xy, roi, db


def close(ratio):
    return bool(np.any(np.abs(ratio - 1) < 1e-6))


def links(xy, roi):
    d = np.hypot(xy[:, None, 0] - xy[None, :, 0], xy[:, None, 1] - xy[None, :, 1])
    t = d / (roi[:, None] + roi[None, :])
    amb = close(t[~np.eye(len(xy), dtype=bool)])
    A = t < 1
    np.fill_diagonal(A, False)
    return A, amb


def component(A, i, allowed=None):
    seen, todo = {i}, [i]
    while todo:
        k = todo.pop()
        for j in np.flatnonzero(A[k]):
            j = int(j)
            if j not in seen and (allowed is None or j in allowed):
                seen.add(j)
                todo.append(j)
    return seen


def body(case, info):
    cat, bands, xy, roi, db = build(case)
    n = len(cat)
    seed = case["seed"] % n
    A, amb = links(xy, roi)
    # --- candidates: everything whose influence reaches the boundary circle, nearest (in units of the reach) first
    t = np.hypot(*(xy - xy[seed]).T) / (case["boundary"] + roi)
    if amb or close(t) or len(set(np.round(t, 9))) < n:
        info.trivial_if(True)
        return
    got = sorted(int(i) for i in db.grow_source(seed))
    check(got == sorted(component(A, seed)), "friends of %d are %s, expected %s", seed, got, sorted(component(A, seed)))
    order = [int(i) for i in np.argsort(t) if t[i] < 1]
    full, partial, group = [], None, None
    trunc = False
    for s in order:
        if s in full:
            continue
        g = component(A, s)
        room = case["maxactive"] - len(full)
        if len(g) > room:
            trunc = True
            if (not case["strict"] or not full) and room:
                partial, group = s, g
            break
        full += sorted(g)
    need = case["maxactive"] if partial is not None else len(full)
    reg, act, fix = db.checkout_region(seed_index=seed, max_fixed=case["maxfix"])
    check(act is not None, "a fresh scene refused seed %d", seed)
    ai = [int(i) for i in act["source_index"]]
    fi = [] if fix is None else [int(i) for i in fix["source_index"]]
    check(len(ai) == len(set(ai)) == need, "%d active sources, expected %d", len(ai), need)
    check(set(full) <= set(ai), "groups %s must be complete in the patch, got %s", full, ai)
    check(seed in ai, "the seed %d is not active in its own patch %s", seed, ai)
    extra = set(ai) - set(full)
    if partial is not None:
        check(extra <= group and partial in extra, "the rest %s is not part of the group %s of %d", extra, group, partial)
        check(component(A, partial, extra) == extra, "the truncated group %s is not connected", extra)
    else:
        check(not extra, "sources %s do not belong to the patch", extra)
    # --- region
    cra, cdec = np.mean(field.near(cat["ra"][ai])), np.mean(cat["dec"][ai])
    check(field.same_ra(reg.ra, cra) and abs(reg.dec - cdec) < 1e-9, "region centre %s,%s; active sources average %s,%s", reg.ra, reg.dec, cra, cdec)
    c = np.array(field.offsets(cra, cdec, *field.center(cat)))
    d = np.hypot(*(xy - c).T)
    radius = max(case["minradius"], np.max(d[ai] + roi[ai] + case["buffer"]))
    check(abs(reg.radius * 3600 - radius) < 1e-6 * radius + 1e-7, "region radius %s arcsec, expected %s", reg.radius * 3600, radius)
    # --- fixed sources: all others that overlap 1.2 radii, nearest first, up to the limit
    tf = d / (1.2 * radius + roi)
    others = [i for i in np.argsort(tf) if i not in ai]
    if close(tf[others]) if others else False:
        info.trivial_if(True)
        return
    over = [int(i) for i in others if tf[i] < 1]
    # the neighbour search reaches no further than radius + boundary
    lim = case["maxactive"] if case["maxfix"] is None else case["maxfix"]
    check(set(fi) == set(over[:lim]) or ties(tf, over, lim), "fixed sources %s, expected %s", fi, over[:lim])
    info.label("truncated" if trunc else "complete", "partial" if partial is not None else "whole", "fixed-%d" % min(len(fi), 4))
    info.trivial_if(n < 3 or not A.any())


def ties(t, over, lim):
    return lim < len(over) and lim > 0 and abs(t[over[lim - 1]] - t[over[lim]]) < 1e-6


def group_body(case, info):
    cat, bands, xy, roi, db = build(case)
    n = len(cat)
    A, amb = links(xy, roi)
    if amb:
        info.trivial_if(True)
        return
    gid = np.asarray(db.make_group_catalog())
    check(gid.shape == (n,), "one group per source expected")
    comps = {frozenset(component(A, i)) for i in range(n)}
    got = {frozenset(np.flatnonzero(gid == g).tolist()) for g in set(gid.tolist())}
    check(got == comps, "groups %s, expected %s", sorted(map(sorted, got)), sorted(map(sorted, comps)))
    check(sorted(set(gid.tolist())) == list(range(len(comps))), "group numbers %s are not 0..%d", sorted(set(gid.tolist())), len(comps) - 1)
    # circle query
    rs = np.random.RandomState(case["seed"])
    for _ in range(3):
        k = rs.randint(n)
        off = rs.uniform(-3, 3, 2)
        ra = cat["ra"][k] + off[0] / 3600 / np.cos(np.deg2rad(cat["dec"][k]))
        dec = cat["dec"][k] + off[1] / 3600
        r = rs.uniform(0.1, 6)
        c = np.array(field.offsets(ra, dec, *field.center(cat)))
        t = np.hypot(*(xy - c).T) / (r + roi)
        if close(t):
            continue
        res = db.overlap_circle(ra, dec, r)
        check(set(res["source_index"].tolist()) == set(np.flatnonzero(t < 1).tolist()), "sources overlapping a circle: %s, expected %s",
              sorted(res["source_index"].tolist()), np.flatnonzero(t < 1).tolist())
    info.label("groups-%d" % min(len(comps), 8))
    info.trivial_if(len(comps) == n)


def subs():
    return [
        Sub("patch", case_st, body, quick=3000, shards=5, budget=60,
            rule="one linked patch of a fresh scene; members, region and fixed sources recomputed by brute force",
            nontrivial_rule="at least three sources and one link"),
        Sub("groups", case_st, group_body, quick=900, shards=3, budget=60,
            rule="group catalogs and circle queries", nontrivial_rule="at least one group with two members"),
    ]
