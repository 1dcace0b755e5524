"""P04: posterior values and gradients over generated call histories."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["arrays returned by the posterior are not modified by the caller",
               "the reference evaluates the compiled likelihood without the posterior class, on a second patch built from the same files"]

OPS = ["lnprob", "grad", "both", "nll", "nll_nograd", "residuals", "sampling_on", "sampling_off", "check_grad", "theano"]


def bounds_for(cat, bands, widths):
    """Bounds in catalog form: column -> (lo, hi), asymmetric about the catalog value."""
    dt = [(c, np.float64, (2,)) for c in list(bands) + L.SHAPES]
    b = np.zeros(len(cat), dtype=np.dtype(dt))
    k = 0
    half = dict(ra=2e-5, dec=2e-5, q=0.2, pa=0.5, sersic=0.6, rhalf=0.02)
    for i in range(len(cat)):
        for c in b.dtype.names:
            v = float(cat[i][c])
            h = half.get(c, 0.4 * abs(v) + 0.1)
            w = widths[k % len(widths)]
            k += 1
            b[i][c] = (v - h * w[0], v + h * w[1])
    return b


class Quad:
    def __init__(self, centre, scale):
        self.c, self.s = centre, scale

    def __call__(self, q):
        d = (q - self.c) / self.s
        return float(-0.5 * np.sum(d**2) + 3.0), -d / self.s


def body(case, info):
    sc = case["scene"]
    cat = L.catalog(sc)
    with L.SceneFiles(sc) as files:
        p = L.make_patch(sc, files)
        pref = L.make_patch(sc, files)
        bounds = bounds_for(cat, sc["bands"], case["widths"]) if case["bounded"] else None
        rs = np.random.RandomState(case["pseed"])
        ndim = len(cat) * (len(sc["bands"]) + 6)
        scale = rs.uniform(0.5, 3, ndim)
        cen = rs.uniform(-1, 1, ndim)
        prior = Quad(cen, scale) if case["prior"] else None
        kw = dict(lnprior=prior)
        if case["mode0"] is not None:
            kw["sampling"] = case["mode0"]
        if case.get("talk"):
            kw.update(logging=True, verbose=True, print_interval=2)
        model, q0 = p.prepare_model(active=cat, bounds=bounds, model_kwargs=kw)
        mref, qref = pref.prepare_model(active=cat)
        check(np.array_equal(q0, qref), "starting vectors differ")
        scene_ref = mref.scene
        if bounds is not None:
            lo, hi = [], []
            refc = np.asarray(p.patch_reference_coordinates, dtype=float)
            for i in range(len(cat)):
                for c in list(p.bandlist) + L.SHAPES:
                    off = refc[0] if c == "ra" else refc[1] if c == "dec" else 0.0
                    lo.append(bounds[i][c][0] - off)
                    hi.append(bounds[i][c][1] - off)
            lo, hi = np.array(lo), np.array(hi)

        def ref_eval(q, residual=False):
            scene_ref.set_all_source_params(q.copy())
            pref.return_residual = residual
            ret = mref.proposer.evaluate_proposal(scene_ref.get_proposal(), patch=pref)
            if residual:
                return [np.array(r) for r in ret[2]]
            ll = -0.5 * np.asarray(ret[0], dtype=np.float64).sum()
            nb = pref.n_bands
            g = np.zeros((len(cat), nb + 6))
            for b, d in enumerate(ret[1]):
                g[:, b] = d[:, 0]
                g[:, nb:] += d[:, 1:]
            return ll, -0.5 * g.ravel()

        def expected(z, sampling):
            if bounds is None:
                q, jac, ld, ldg = z.copy(), np.ones(len(z)), 0.0, np.zeros(len(z))
            else:
                # q as the transform gives it (checked in P05): the kernel sees the same bits
                q = np.asarray(model.transform.transform(z.copy()))
                s = 1 / (1 + np.exp(-z))
                check(np.all(np.abs(q - (lo + (hi - lo) * s)) <= 1e-9 * (hi - lo) + 1e-13 * np.abs(lo)),
                      "transform does not use the given bounds")
                jac = (hi - lo) * s * (1 - s)
                ld, ldg = np.sum(np.log(hi - lo) + np.log(s) + np.log(1 - s)), 1 - 2 * s
            ll, llg = ref_eval(q)
            lpr, lprg = prior(q) if prior else (0.0, 0.0)
            v, g = ll + lpr, (llg + lprg) * jac
            mag = abs(ll) + abs(lpr) + abs(ld)
            gm = (np.abs(llg) + np.abs(lprg)) * jac + np.abs(ldg)
            if sampling:
                v, g = v + ld, g + ldg
            return v, g, 1e-8 * mag + 1e-8, 1e-7 * gm + 1e-10

        sampling = True if case["mode0"] is None else case["mode0"]
        n = len(q0)
        # a pool of points, some of them sharing all but one coordinate
        steps = np.where(np.abs(q0) > 1, 1e-2 * np.abs(q0), 1e-2) if bounds is None else np.ones(n)
        if bounds is None:
            nb = len(sc["bands"])
            pos = np.array([j % (nb + 6) in (nb, nb + 1) for j in range(n)])
            steps = np.where(pos, 2e-6, np.where(np.arange(n) % (nb + 6) < nb, 0.05 * np.abs(q0), 5e-3))
        z0 = q0.copy() if bounds is None else np.asarray(model.transform.inverse_transform(q0.copy()))
        # catalog value in the middle-ish: start inside
        pool = [z0.copy()]
        for _ in range(3):
            pool.append(z0 + steps * rs.uniform(-1, 1, n))
        shared = z0.copy()   # one array, modified in place between calls
        seen = 0
        last = z0.copy()
        held = []
        for op, which, coord, amount in case["ops"]:
            if which == "inplace":
                shared[coord % n] += steps[coord % n] * amount
                z = shared
            elif which == "perturb":
                z = pool[abs(coord) % len(pool)].copy()
                z[coord % n] += steps[coord % n] * amount
                pool[coord % len(pool)] = z.copy()
            elif which == "nudge":
                # hardly different from the last evaluated position
                z = last * (1 + 6e-6 * (1 + amount)) + 1e-9
            elif which == "same_obj":
                z = pool[coord % len(pool)]
            else:
                z = pool[coord % len(pool)].copy()
            before = z.copy()
            if op == "sampling_on":
                model.sampling = sampling = True
                continue
            if op == "sampling_off":
                model.sampling = sampling = False
                continue
            if op == "residuals":
                q = z.copy() if bounds is None else np.asarray(model.transform.transform(z.copy()))
                model.patch.return_residual = flag = bool(coord % 2)
                got = model.residuals(q.copy())
                check(model.patch.return_residual == flag, "asking for residuals changed what the patch returns from then on")
                want = ref_eval(q, residual=True)
                check(len(got) == len(want), "number of residual images")
                for a, b in zip(got, want):
                    check(np.array_equal(np.asarray(a), b), "residuals differ from a fresh model's")
                    held.append(("residuals", np.asarray(a), b))
                continue
            last = z.copy()
            v, g, tv, tg = expected(z, sampling)
            gv = gg = None
            if op == "lnprob":
                gv = model.lnprob(z)
            elif op == "grad":
                gg = model.lnprob_grad(z)
            elif op == "both":
                gv, gg = model.lnprob_and_grad(z)
            elif op == "nll":
                gv, gg = model.nll(z)
                gv, gg = -gv, -np.asarray(gg)
            elif op == "nll_nograd":
                gv = -model.nll_nograd(z)
            elif op == "theano":
                from forcepho.model import LogLikeWithGrad
                opobj = LogLikeWithGrad(model)
                out, outg = [[None]], [[None]]
                opobj.perform(None, [z], out)
                opobj.GradObj.perform(None, [z], outg)
                gv, gg = out[0][0], outg[0][0]
            elif op == "check_grad":
                dd = steps * 0.1 if coord % 2 else 0.01 * float(steps.min())
                gg, num = model.check_grad(z, delta=dd)
                dd = np.zeros(n) + dd
                check(np.shape(num) == (n,), "numerical gradient of shape %s", np.shape(num))
                for i in {coord % n, (coord + 1) % n}:
                    a, b = z.copy(), z.copy()
                    a[i] -= dd[i]
                    b[i] = a[i] + 2 * dd[i]
                    va, vb = expected(a, sampling), expected(b, sampling)
                    tol = (va[2] + vb[2]) / (2 * dd[i]) + 1e-6 * abs(g[i])
                    check(abs(num[i] - (vb[0] - va[0]) / (2 * dd[i])) <= tol, "numerical gradient %d is %r, differences give %r", i, num[i], (vb[0] - va[0]) / (2 * dd[i]))
            if gv is not None:
                check(abs(float(gv) - v) <= tv, "%s: value %r, a fresh model gives %r", op, float(gv), v)
            if gg is not None:
                gg = np.asarray(gg)
                held.append((op, gg, gg.copy()))
                check(gg.shape == g.shape and np.all(np.abs(gg - g) <= tg), "%s: gradient %s, a fresh model gives %s", op, gg, g)
            check(np.array_equal(z, before), "%s modified its argument", op)
            seen += 1
        for op, a, b in held:
            check(np.array_equal(a, b), "an array returned by %s changed during later calls", op)
        if case.get("talk"):
            check(len(model.lnp_history) == len(model.pos_history) == len(model.grad_history) == model.ncall, "%d evaluations, %d logged", model.ncall, len(model.lnp_history))
    info.label("bounded" if case["bounded"] else "unbounded", "prior" if case["prior"] else "noprior", "ops%d" % (seen // 5 * 5))
    info.trivial_if(seen < 2)


def op_st():
    return st.tuples(st.sampled_from(OPS + ["lnprob", "grad", "both", "nll"]),
                     st.sampled_from(["pool", "pool", "same_obj", "inplace", "perturb", "nudge"]),
                     st.integers(0, 40), st.sampled_from([0.5, -0.5, 1e-3, 0.0, 1.0])).map(list)


def case_st():
    return st.fixed_dictionaries(dict(
        scene=L.mostly(L.scene_st(maxsize=9, max_exp=2, max_bands=2, max_src=2, sip=False), L.extreme_st(kinds=["manysrc", "manyband", "manyexp"]), 29),
        bounded=st.sampled_from([True, True, False]), prior=st.booleans(), mode0=st.sampled_from([None, True, False]),
        pseed=st.integers(0, 9999), talk=st.booleans(),
        widths=st.lists(st.tuples(L.rnd(0.3, 1), L.rnd(0.3, 1)).map(list), min_size=1, max_size=5),
        ops=L.mostly(st.lists(op_st(), min_size=3, max_size=14), st.lists(op_st(), min_size=15, max_size=60))))


def body_construct(case, info):
    """A posterior accepts any pair of bounds (and either bounds or a transform, not both)."""
    import forcepho.model as m
    lo, hi = np.array(case["lo"]), np.array(case["lo"]) + np.array(case["w"])
    class Patch:
        scene = object()
    post = m.FastPosterior(None, Patch(), lower=lo, upper=hi)
    z = np.array(case["z"])
    q = post.transform.transform(z)
    check(np.allclose(q, lo + (hi - lo) / (1 + np.exp(-z)), rtol=1e-12, atol=1e-12), "bounds not used")
    for kw in (dict(), dict(lower=lo), dict(lower=lo, upper=hi, transform=m.Transform(len(lo)))):
        try:
            m.FastPosterior(None, Patch(), **kw)
        except Exception:
            continue
        check(False, "ambiguous construction %s accepted", sorted(kw))
    info.label("zero_side" if not lo.any() or not hi.any() else "generic")


def construct_st():
    def rows(n):
        return st.fixed_dictionaries(dict(
            lo=st.one_of(st.just([0.0] * n), st.lists(L.rnd(-5, 5), min_size=n, max_size=n)),
            w=st.lists(L.rnd(0.01, 5), min_size=n, max_size=n),
            z=st.lists(L.rnd(-5, 5), min_size=n, max_size=n)))
    return L.mostly(st.integers(1, 5), st.integers(6, 60)).flatmap(rows)


def subs():
    return [
        Sub("history", case_st, body, quick=500, thorough=20000, shards=6,
            rule="call histories of 3-14 operations over a pool of points (revisited, perturbed in one coordinate, or changed in place), with and without bounds, prior, sampling",
            nontrivial_rule="at least two evaluations compared"),
        Sub("construct", construct_st, body_construct, quick=200, thorough=2000, shards=1,
            rule="bounds including all-zero sides"),
    ]
