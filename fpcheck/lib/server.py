"""A reference ledger for the scene server (check-out / check-in bookkeeping)."""
import numpy as np
from hypothesis import strategies as st

from ..core import check
from . import field, scene as L


def settings_st():
    return st.fixed_dictionaries(dict(
        cls=st.sampled_from(["circle", "linked", "linked"]), maxactive=L.mostly(st.integers(1, 6), st.sampled_from([15, 40]), 9),
        boundary=st.sampled_from([4.0, 8.0, 3.3]), maxradius=st.sampled_from([1.5, 3.0, 6.0]), minradius=st.sampled_from([0.5, 1.0]),
        nscale=st.sampled_from([1, 3]), buffer=st.sampled_from([0.1, 0.5]), strict=st.booleans(), target=st.sampled_from([50, 200]),
        useroi=st.booleans(), frac=st.sampled_from([0.1, 0.5, 1.0])))


def op_st():
    out = st.fixed_dictionaries(dict(op=st.just("out"), seed=st.integers(-4, 20), rng=st.integers(0, 9999),
                                     maxfix=st.sampled_from([None, None, None, 0, 2, 100])))
    inn = st.fixed_dictionaries(dict(op=st.just("in"), k=st.integers(0, 5), niter=st.sampled_from([0, 1, 1, 7, 7, 64, 64, 300, 20000]),
                                     rng=st.integers(0, 9999), cov=st.booleans(), bounds=st.booleans(), task=st.booleans(),
                                     move=st.booleans(), shuffle=st.booleans()))
    return st.one_of(out, out, inn)


def build(case, cat, bands, statefile="state.fits"):
    from forcepho.superscene import LinkedSuperScene, SuperScene
    s = case["set"]
    kw = dict(sourcecat=cat, bands=bands, statefile=statefile, target_niter=s["target"], maxactive_fraction=s["frac"],
              maxactive_per_patch=s["maxactive"], nscale=s["nscale"], boundary_radius=s["boundary"], maxradius=s["maxradius"],
              minradius=s["minradius"], bounds_kwargs=dict(n_pix=3))
    if s["cls"] == "circle":
        return SuperScene(**kw)
    kw.pop("nscale")
    return LinkedSuperScene(buffer=s["buffer"], strict=s["strict"], roi=cat["roi"] if s["useroi"] else None, **kw)


class Ledger:
    def __init__(self, case, statefile="state.fits"):
        self.case = case
        cat, self.bands = field.catalog(case["field"])
        self.cat0 = cat.copy()
        self.given = cat
        self.db = build(case, cat, self.bands, statefile)
        self.n = len(cat)
        self.pcols = self.bands + L.SHAPES
        self.out = []            # outstanding (active catalog, fixed catalog or None)
        self.niter = np.zeros(self.n, int)
        self.npatch = np.zeros(self.n, int)
        # right ascensions may be kept in another turn
        check(np.all(field.same_ra(self.db.sourcecat["ra"], self.cat0["ra"])), "the scene moved sources")
        self.par = {c: (self.db.sourcecat if c == "ra" else cat)[c].copy() for c in self.pcols}
        self.bounds = self.db.bounds_catalog.copy()
        p = len(self.pcols)
        self.cov = np.stack([np.eye(p)] * self.n)
        self.log = []            # (task, active indices) in order
        self.refused = self.given_out = 0
        self.compare("start")

    # -- state
    def active_sets(self):
        return [set(int(i) for i in a["source_index"]) for a, f in self.out]

    def compare(self, when):
        db, cat = self.db, self.db.sourcecat
        check(len(cat) == self.n, "%s: number of sources changed", when)
        acts = self.active_sets()
        union = set().union(*acts) if acts else set()
        check(sum(len(a) for a in acts) == len(union), "%s: a source is active in two outstanding patches: %s", when, acts)
        got = set(np.flatnonzero(cat["is_active"]).tolist())
        check(got == union, "%s: active flags %s, outstanding sources %s", when, sorted(got), sorted(union))
        check(db.n_active == len(union), "%s: n_active %s, outstanding %d", when, db.n_active, len(union))
        nfix = sum(0 if f is None else len(f) for a, f in self.out)
        check(db.n_fixed == nfix, "%s: n_fixed %s, outstanding %d", when, db.n_fixed, nfix)
        valid = set(np.flatnonzero(cat["is_valid"]).tolist())
        check(not (valid & union), "%s: active sources %s are offered for other patches", when, sorted(valid & union))
        fixed = set()
        for a, f in self.out:
            if f is not None:
                fixed |= set(int(i) for i in f["source_index"])
        free = set(range(self.n)) - union - fixed
        check(free <= valid, "%s: sources %s belong to no patch but are not available", when, sorted(free - valid))
        check(np.array_equal(cat["n_iter"], self.niter), "%s: n_iter %s, expected %s", when, cat["n_iter"].tolist(), self.niter.tolist())
        check(np.array_equal(cat["n_patch"], self.npatch), "%s: n_patch %s, expected %s", when, cat["n_patch"].tolist(), self.npatch.tolist())
        for c in self.pcols:
            check(np.array_equal(cat[c], self.par[c]), "%s: parameter %s of some source changed", when, c)
        for c in ("id", "roi"):
            check(np.array_equal(cat[c], self.cat0[c]), "%s: column %s changed", when, c)
        check(np.array_equal(cat["source_index"], np.arange(self.n)), "%s: source_index changed", when)
        check(all(np.array_equal(db.bounds_catalog[c], self.bounds[c]) for c in self.pcols), "%s: bounds changed", when)
        check(np.array_equal(db.covariance_matrices, self.cov), "%s: covariances changed", when)
        check(bool(db.undone) == bool(np.any(np.abs(self.niter) < self.case["set"]["target"])), "%s: undone is %s", when, db.undone)
        check(bool(db.sparse) == (len(union) / self.n < self.case["set"]["frac"]), "%s: sparse is %s", when, db.sparse)

    def busy_near(self, seed):
        """Does the server have to refuse this seed, because a source within reach is active?  True/False/None."""
        s = self.case["set"]
        xy = field.coords(self.cat0)
        act = np.flatnonzero(self.db.sourcecat["is_active"])
        if s["cls"] == "circle":
            c = np.array(field.offsets(self.par["ra"][seed], self.par["dec"][seed], *field.center(self.cat0)))
            lim = np.full(len(act), s["boundary"])
        else:
            c = xy[seed]
            lim = s["boundary"] + self.roi()[act]
        if not len(act):
            return False
        d = np.hypot(*(xy[act] - c).T) / lim
        if np.any(d < 1 - 1e-6):
            return True
        return False if np.all(d > 1 + 1e-6) else None

    def roi(self):
        return self.cat0["roi"] if self.case["set"]["useroi"] else self.par["rhalf"]

    # -- operations
    def checkout(self, o, info):
        db = self.db
        before = db.sourcecat.copy()
        seed = o["seed"] if 0 <= o["seed"] < self.n else -1
        np.random.seed(o["rng"])
        linked = self.case["set"]["cls"] != "circle"
        kw = dict(max_fixed=o["maxfix"]) if linked else {}
        busy = self.busy_near(seed) if seed >= 0 else None
        reg, act, fix = db.checkout_region(seed_index=seed, **kw)
        if act is None:
            check(fix is None, "refused check-out returned fixed sources")
            check(np.array_equal(db.sourcecat, before), "a refused check-out changed the catalog")
            check(len(self.out) > 0, "check-out refused although nothing is outstanding")
            if seed >= 0 and not linked:
                check(busy is not False, "seed %d refused although no active source is within the boundary", seed)
            self.refused += 1
            self.compare("after a refused check-out")
            return None
        if seed >= 0:
            check(busy is not True, "patch around %d handed out although a source within reach is active", seed)
        ai = [int(i) for i in act["source_index"]]
        fi = [] if fix is None else [int(i) for i in fix["source_index"]]
        check(len(ai) > 0 and len(set(ai)) == len(ai), "active sources %s", ai)
        check(len(set(fi)) == len(fi), "fixed sources %s", fi)
        check(not set(ai) & set(fi), "sources %s are active and fixed", sorted(set(ai) & set(fi)))
        check(len(ai) <= self.case["set"]["maxactive"], "%d active sources, limit %d", len(ai), self.case["set"]["maxactive"])
        limit = self.case["set"]["maxactive"] if (not linked or o["maxfix"] is None) else o["maxfix"]
        check(len(fi) <= max(limit, 0 if linked else 1), "%d fixed sources, limit %d", len(fi), limit)
        check(np.all(before["is_active"][ai] == 0), "sources %s were active already", ai)
        for cat_, idx in ((act, ai), (fix, fi)):
            for c in self.pcols:
                check(not idx or np.array_equal(cat_[c], self.par[c][idx]), "returned %s does not match the catalog", c)
        check(not np.any(db.sourcecat["is_valid"][ai]), "active sources are still offered")
        check(not np.any(db.sourcecat["is_valid"][fi]), "fixed sources are still offered")
        self.out.append((act, fix))
        self.given_out += 1
        self.compare("after a check-out")
        # the returned rows belong to the caller
        act2 = act.copy()
        act[self.bands[0]][:] = -99
        self.compare("after editing the returned rows")
        act[:] = act2
        return reg, ai, fi, seed

    def checkin(self, o, info):
        if not self.out:
            return
        act, fix = self.out.pop(o["k"] % len(self.out))
        rs = np.random.RandomState(o["rng"])
        new = act.copy()
        if o["shuffle"]:
            new = new[rs.permutation(len(new))]
        idx = new["source_index"].astype(int)
        for c in self.pcols:
            if c in ("ra", "dec"):
                if o["move"]:
                    new[c] += rs.uniform(-0.02, 0.02, len(new)) / 3600
            elif c == "rhalf":
                new[c] = rs.uniform(0.05, 0.29, len(new))
            else:
                new[c] = rs.uniform(0.5, 1.0, len(new))
        # bookkeeping columns of the returned rows are not the caller's business
        new["n_iter"] = 12345
        new["is_active"] = 1
        kw = {}
        p = len(self.pcols)
        if o["cov"]:
            kw["block_covs"] = rs.normal(size=(len(new), p, p))
        if o["bounds"]:
            nbd = self.bounds[idx].copy()
            for c in self.pcols:
                nbd[c] = nbd[c] + rs.uniform(-1, 1)
            kw["new_bounds"] = nbd
        if o["task"]:
            # names, numbers (numpy ones too), and the same name as the previous patch or an earlier one
            n, last = len(self.log), [t for t, i in self.log] or ["0"]
            kw["taskID"] = ["t%d" % n, n, np.int64(7 * n), last[-1], last[0]][o["rng"] % 5]
        keep = new.copy()
        if o["niter"] != 1:   # the default
            kw["niter"] = o["niter"]
        self.db.checkin_region(new, fix, **kw)
        check(np.array_equal(new, keep), "check-in changed the caller's catalog")
        for c in self.pcols:
            self.par[c][idx] = new[c]
        self.niter[idx] += o["niter"]
        self.npatch[idx] += int(o["niter"] > 0)
        if o["cov"]:
            self.cov[idx] = kw["block_covs"]
        if o["bounds"]:
            self.bounds[idx] = kw["new_bounds"]
        if o["task"]:
            self.log.append((str(kw["taskID"]), idx.tolist()))
        self.compare("after a check-in")

    def check_logs(self):
        check(list(self.db.patchlog) == [t for t, i in self.log], "patch log %s, expected %s", self.db.patchlog, [t for t, i in self.log])
        want = {}
        for t, idx in self.log:
            for i in idx:
                want.setdefault(i, []).append(t)
        got = {int(k): list(v) for k, v in self.db.sourcelog.items()}
        check(got == want, "source log %s, expected %s", got, want)

    def bounds_and_covs(self, idx):
        from scipy.linalg import block_diag
        b, c = self.db.bounds_and_covs(idx)
        check(all(np.array_equal(b[k], self.bounds[k][idx]) for k in self.pcols), "bounds handed out are not those of %s", idx)
        check(np.array_equal(c, block_diag(*self.cov[idx])), "covariance handed out is not that of %s", idx)
