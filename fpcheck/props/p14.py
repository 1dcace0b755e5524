"""P14: seeds and circular patches."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L, server

ASSUMPTIONS = ["fields in which a distance is within 1e-6 of a limit are skipped"]


def seed_st():
    return st.fixed_dictionaries(dict(set=server.settings_st(), field=field.field_st(nmin=2, nmax=16, ext=18.0, large=(12, 40, 300, -60), wrap=True),
                                      ops=st.lists(server.op_st(), min_size=2, max_size=14), niter=st.integers(0, 9999),
                                      iters=st.sampled_from([0, 1, 60, 600, 600, 40000]), base=st.sampled_from([0, 0, 0, 20000, 300000])))


def weights(db, led, info):
    cat = db.sourcecat
    for name in ("seed_weight", "exp_weight", "sigmoid_weight"):
        w = np.asarray(getattr(db, name)())
        check(w.shape == (led.n,) and np.all(np.isfinite(w)) and np.all(w >= 0), "%s gives %s", name, w)
        check(abs(w.sum() - 1) < 1e-5, "%s sums to %s", name, w.sum())
        active = cat["is_active"] > 0
        use = ~active
        if use.any():
            check(np.all(w[active] == 0), "%s: active sources can be drawn: %s", name, w[active])
            # idle sources not too far ahead of the others can be drawn, least-iterated first
            ni = np.abs(cat["n_iter"])
            low = use & (ni <= max(3 * led.case["set"]["target"], ni[use].min())) & (ni <= ni[use].min() + 2000)
            check(np.all(w[low] > 0), "%s: an idle source can never be drawn", name)
        n = np.abs(cat["n_iter"])[use]
        ww = w[use]
        o = np.argsort(n, kind="stable")
        check(not use.any() or np.all(np.diff(ww[o]) <= 1e-6 * ww.max()), "%s does not prefer sources with fewer iterations", name)
        # the formula: an exponential with a scale of 20 iterations, or a sigmoid around the target
        ok = ww > 1e-250
        if ok.sum() > 1 and name != "seed_weight":
            if name == "exp_weight":
                lw = -n / 20.0
            else:
                lw = -np.logaddexp(0, -(20.0 * (1 - n / float(led.case["set"]["target"])) - 1.0))
            k = np.flatnonzero(ok)[0]
            got, want = (np.log(ww) - np.log(ww[k]))[ok], (lw - lw[k])[ok]
            check(np.allclose(got, want, rtol=1e-4, atol=1e-4), "%s: logarithms of the weights relative to the first %s, expected %s (iterations %s)", name, got, want, n[ok])


def seed_body(case, info):
    led = server.Ledger(case)
    # different histories of iterations
    rs = np.random.RandomState(case["niter"])
    top = case["iters"] if case["iters"] > 1000 else min(case["iters"], 3 * case["set"]["target"])
    led.niter = case["base"] + rs.randint(0, top + 1, led.n)
    led.db.sourcecat["n_iter"][:] = led.niter
    drawn = 0
    for o in case["ops"]:
        if o["op"] == "out":
            weights(led.db, led, info)
            before = led.db.sourcecat.copy()
            np.random.seed(o["rng"])
            idle = np.flatnonzero(before["is_active"] == 0)
            if len(idle):
                ra, dec = led.db.draw_center()
                check(np.any(field.same_ra(before["ra"][idle], ra, 1e-12) & (before["dec"][idle] == dec)), "centre %s, %s drawn is not an idle source", ra, dec)
            res = led.checkout(dict(o, seed=-1), info)
            ok = np.flatnonzero(before["is_active"] == 0)
            if res is not None:
                reg, ai, fi, _ = res
                drawn += 1
                if case["set"]["cls"] == "circle":
                    # the patch is centred on its seed
                    near = [i for i in range(led.n) if field.same_ra(reg.ra, before["ra"][i], 1e-12) and abs(reg.dec - before["dec"][i]) < 1e-12]
                    check(near, "the patch is centred on no source")
                    if len(ok):
                        check(set(near) & set(ok.tolist()), "patch seeded on %s, idle are %s", near, ok.tolist())
            weights(led.db, led, info)
        else:
            led.checkin(o, info)
    info.label(case["set"]["cls"], "outstanding" if led.out else "idle", "long" if led.niter.max() > 5000 else "short")
    info.trivial_if(drawn == 0)


# ---------------------------------------------------------------- the circular patch itself

def circ_st():
    return st.fixed_dictionaries(dict(
        field=st.integers(1, 18).flatmap(lambda k: field.field_st(nmin=k, nmax=k, ext=4.0, large=(12, 40, 300), wrap=True)), seed=st.integers(0, 99), maxactive=st.integers(1, 12),
        boundary=st.sampled_from([3.0, 5.0, 8.0]), maxradius=st.sampled_from([1.0, 2.5, 6.0]), minradius=st.sampled_from([0.3, 1.0, 3.0]),
        nscale=st.sampled_from([1, 3, 2.5]), moved=st.booleans()))


def circ_body(case, info):
    from forcepho.superscene import SuperScene
    cat, bands = field.catalog(case["field"])
    n = len(cat)
    seed = case["seed"] % n
    xy = field.coords(cat)
    db = SuperScene(sourcecat=cat.copy(), bands=bands, maxactive_per_patch=case["maxactive"], nscale=case["nscale"],
                    boundary_radius=case["boundary"], maxradius=case["maxradius"], minradius=case["minradius"], statefile="s.fits")
    if case["moved"]:
        # parameters drift during a run; membership uses original positions, current sizes and the seed's current position
        rs = np.random.RandomState(1)
        db.sourcecat["rhalf"] = rs.uniform(0.05, 0.29, n)
        db.sourcecat["ra"] += rs.uniform(-0.05, 0.05, n) / 3600
        cat = db.sourcecat.copy()
    c = np.array(field.offsets(cat["ra"][seed], cat["dec"][seed], *field.center(db.original)))
    d = np.hypot(*(xy - c).T)
    if np.any(np.abs(d - case["boundary"]) < 1e-6):
        info.trivial_if(True)
        return
    reach = d < case["boundary"]
    outer, inner = d + case["nscale"] * cat["rhalf"], d - case["nscale"] * cat["rhalf"]
    cand = [int(i) for i in np.argsort(outer) if reach[i]]
    so = np.sort(outer[reach])
    if np.any(np.diff(so) < 1e-7) or np.any(np.abs(so - case["maxradius"]) < 1e-6):
        info.trivial_if(True)
        return
    inside = [i for i in cand if outer[i] < case["maxradius"]]
    active = inside[:case["maxactive"]]
    rest = [i for i in cand if i not in active]
    if not active:
        info.trivial_if(True)   # the seed itself is larger than a patch: out of domain
        return
    radius = max(case["minradius"], max(outer[i] for i in active))
    if any(abs(inner[i] - radius) < 1e-6 for i in rest):
        info.trivial_if(True)
        return
    fixed = [i for i in rest if inner[i] < radius][:case["maxactive"]]
    if not fixed:
        fixed = rest[:1]
    reg, act, fix = db.checkout_region(seed_index=seed)
    check(act is not None, "a fresh scene refused seed %d", seed)
    ai, fi = sorted(act["source_index"].tolist()), sorted(fix["source_index"].tolist())
    check(ai == sorted(active), "active sources %s, expected %s", ai, sorted(active))
    check(fi == sorted(fixed), "fixed sources %s, expected %s", fi, sorted(fixed))
    check(field.same_ra(reg.ra, cat["ra"][seed], 1e-12) and abs(reg.dec - cat["dec"][seed]) < 1e-12, "patch is not centred on its seed")
    check(abs(reg.radius * 3600 - radius) < 1e-6 * radius, "patch radius %s, expected %s", reg.radius * 3600, radius)
    info.label("limited" if len(inside) > len(active) else "all", "fixed-%d" % min(len(fixed), 4))
    info.trivial_if(n < 3)


def subs():
    return [
        Sub("seeds", seed_st, seed_body, quick=1200, shards=4, budget=60,
            rule="draws and weights over histories with outstanding patches", nontrivial_rule="at least one drawn patch handed out"),
        Sub("circles", circ_st, circ_body, quick=1500, shards=3, budget=60,
            rule="circular patches of a fresh scene, recomputed by brute force", nontrivial_rule="at least three sources"),
    ]
