"""P33: the GPU backend, on an emulated device with chosen thread schedules."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import fakecuda, like, scene as L
from . import p02, p03, p07, p08

fakecuda.install()
NEEDS_KERNEL = True
ASSUMPTIONS = ["PyCUDA and the GPU are stood in for: device memory is guarded host memory, each thread of a block is a fiber that changes only at barriers and warp operations, "
               "blocks run one after another (lib/emu, lib/fakecuda.py)",
               "block sizes are multiples of the warp size, and the image Gaussians fit the shared memory of the launch (48000 bytes), as kernel_limits.h demands"]


def sched_st():
    return st.fixed_dictionaries(dict(mode=st.sampled_from([0, 1, 2, 3, 3, 4]), seed=st.integers(1, 10 ** 6)))


def tolerant(body):
    """A kernel that only nvcc can build is not judged."""
    def f(case, info):
        try:
            body(case, info)
        except fakecuda.NotBuilt:
            info.label("kernel-not-built")
            info.trivial_if(True)
    return f


def on_gpu(body):
    """Run another property's body with patches on the emulated device."""
    def f(case, info):
        fakecuda.SCHEDULE.update(case["sched"])
        L.BACKEND = "gpu"
        try:
            body(case, info)
        finally:
            L.BACKEND = "cpu"
        info.label("mode%d" % case["sched"]["mode"])
    return f


def body_both(case, info):
    """One patch on both backends; several schedules and block sizes; memory."""
    import forcepho.proposal as P
    sc, w = dict(case["scene"]), case["w"]
    one = sc["sources"]
    sc["sources"] = [dict(one[i % len(one)], dx=one[i % len(one)]["dx"] + 0.03 * (i // len(one))) for i in range(len(one) + case["extra"])]
    data, unc, ok = like.make_data(sc, w)
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < len(sc["bands"])]
    rl = like.RefLike(L.RefScene(sc), data, unc, ok)
    order = L.exposure_order(sc, allbands)
    nb = len(sc["bands"])
    chi, _, scale = rl.chi2(order)
    G, A = rl.grad(order, nb)
    cat = L.catalog(sc)
    fixed, active = (cat[:1], cat[1:]) if case["fix"] and len(cat) > 1 else (None, cat)
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        def build(backend):
            L.BACKEND = backend
            try:
                p = L.make_patch(sc, files, allbands=allbands)
            finally:
                L.BACKEND = "cpu"
            p.free()          # nothing there yet
            m, q = p.prepare_model(active=active.copy(), fixed=None if fixed is None else fixed.copy())
            return p, m, q
        fakecuda.SCHEDULE.update(case["sched"])
        cp, cm, q = build("cpu")
        gp, gm, q2 = build("gpu")
        check(np.array_equal(q, q2), "the backends start from different parameters")
        col = [sc["bands"].index(b) for b in gp.bandlist] + list(range(nb, nb + 6))
        allow = 0.2 * A[:, col][len(cat) - len(active):]
        res = {}
        rs = np.random.RandomState(case["sched"]["seed"])
        z = q.copy()
        for step, (mode, nthread) in enumerate(case["runs"]):
            fakecuda.SCHEDULE["mode"] = mode
            if nthread:
                gm.proposer = P.GPUProposer(thread_block=nthread)
            if step == case["swap"] and len(active) > 1:
                # other sources, same pixels
                sub = active[rs.permutation(len(active))][:-1]
                for p, m in ((cp, cm), (gp, gm)):
                    m.scene = s = p.set_scene(sub.copy())
                    p.pack_meta(s)
                    p.replace_device_meta_ptrs()
                    p.send_patchstruct_to_device()
                z = gm.scene.get_all_source_params().copy()
                allow = None
            prop = [m.scene.get_proposal() for m in (cm, gm) if m.scene.set_all_source_params(z.copy()) is None]
            out = []
            for p, m, pr in ((cp, cm, prop[0]), (gp, gm, prop[1])):
                p.return_residual = case["resid"]
                keep = pr.copy()
                out.append(m.proposer.evaluate_proposal(pr, patch=p))
                check(keep.tobytes() == pr.tobytes(), "the proposal was modified")
            (c0, d0), (c1, d1) = out[0][:2], out[1][:2]
            c0, c1 = np.asarray(c0, dtype=float), np.asarray(c1, dtype=float)
            check(c1.shape == c0.shape and np.shape(d1) == np.shape(d0), "shapes %s %s", c1.shape, np.shape(d1))
            r0 = [np.asarray(r, dtype=float) for r in (cm.residuals(z.copy()))]
            r1 = [np.asarray(r, dtype=float) for r in (gm.residuals(z.copy()))]
            check(len(r0) == len(r1), "number of residual images")
            top = 0.0
            mag = 0.0
            dd = np.split(np.asarray(cp.retrieve_array("data"), dtype=float), np.cumsum(cp.exposure_N)[:-1])
            for a, b, d, i in zip(r0, r1, dd, cp.split_pix("ierr")):
                f = np.isfinite(a)
                check(np.array_equal(f, np.isfinite(b)), "finite residuals differ")
                if f.any():
                    top = max(top, np.abs(a[f]).max() + np.abs(d[f]).max())
                    check(np.all(np.abs(a - b)[f] <= 2e-5 * (np.abs(a[f]) + np.abs(d[f])) + 1e-6 * top), "residuals differ by %g", np.abs(a - b)[f].max())
                    with np.errstate(all="ignore"):
                        mag += np.nansum(np.where(f, (a ** 2 + d ** 2) * np.asarray(i, dtype=float) ** 2, 0.0))
            check(np.all(np.abs(c0 - c1) <= 1e-6 * mag + 1e-9), "chi-square %s on the GPU (%d threads, schedule %d), %s on the CPU", c1, nthread or 1024, mode, c0)
            d0, d1 = np.asarray(d0, dtype=float), np.asarray(d1, dtype=float)
            if allow is not None and step == 0:
                t = np.zeros_like(d0)
                t[:, :, 1:] = allow[None, :, nb:]
                for b in range(nb):
                    t[b, :, 0] = allow[:, b]
                check(np.all(np.abs(d0 - d1) <= t + 1e-5 * np.abs(d0) + 1e-9), "derivatives differ: %s on the GPU, %s on the CPU", d1, d0)
                tol = t
            elif step == 0 or step == case["swap"]:
                tol = 2e-3 * np.abs(d0).max(axis=(0, 1), keepdims=True) + 1e-9
            if step and np.shape(tol) == np.shape(d0) and np.array_equal(z, q):
                check(np.all(np.abs(d0 - d1) <= tol + 1e-5 * np.abs(d0) + 1e-9), "derivatives differ under schedule %d with %d threads: %s on the GPU, %s on the CPU", mode, nthread or 1024, d1, d0)
            check(np.all(np.isfinite(d1) == np.isfinite(d0)), "finite derivatives differ")
            if case["resid"]:
                check(len(out[1]) == 3 and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(out[1][2], gm._residuals)), "returned residuals")
        # the data on the device are those of the host path
        a, b = np.asarray(cp.retrieve_array("data")), np.asarray(gp.retrieve_array("data"))
        f = np.isfinite(a)
        check(np.array_equal(f, np.isfinite(b)) and np.all(np.abs(a - b)[f] <= 1e-6 * (top + np.abs(a[f]))), "device data differ")
        held = list(gp.device_ptrs.values()) + [gp.device_patch]
        names = sorted(gp.device_ptrs)
        struct = gp.patch_struct
        for k, d in gp.device_ptrs.items():
            check(int(struct[k]) == int(d), "the patch struct does not point at the array %s on the device", k)
        for k in gp.patch_struct_dtype.names:
            if k not in gp.device_ptrs and gp.patch_struct_dtype[k] != gp.ptr_dtype:
                check(struct[k] == getattr(gp, k), "%s in the patch struct is %s, in the patch %s", k, struct[k], getattr(gp, k))
        check(np.frombuffer(np.asarray(struct).tobytes(), dtype=np.uint8).tobytes() == gp.device_patch._mem.tobytes(), "the struct on the device is not the one on the host")
        gp.free()
        left = [n for n, d in zip(names + ["struct"], held) if d._ok]
        check(not left, "device memory not released: %s", left)
        gp.free()
    info.label("mode%d" % case["sched"]["mode"], "threads%s" % min([t or 1024 for _, t in case["runs"]]), "fixed" if fixed is not None else "plain", "swap" if case["swap"] < len(case["runs"]) else "same")
    info.trivial_if(scale == 0)


def body_races(case, info):
    """Every access of every thread: inside the device arrays, and ordered by barriers where it conflicts with another."""
    import forcepho.proposal as P
    sc, w = case["scene"], case["w"]
    data, unc, ok = like.make_data(sc, w)
    allbands = [sc["bands"][i] for i in case["bandorder"] if i < len(sc["bands"])]
    cat = L.catalog(sc)
    fixed, active = (cat[:1], cat[1:]) if case["fix"] and len(cat) > 1 else (None, cat)
    with L.SceneFiles(sc, data=data, unc=unc) as files:
        fakecuda.SCHEDULE.update(case["sched"])
        fakecuda.HOOKS = True
        L.BACKEND = "gpu"
        try:
            p = L.make_patch(sc, files, allbands=allbands)
            m, q = p.prepare_model(active=active, fixed=fixed)
            m.proposer = P.GPUProposer(thread_block=case["threads"])
            v = float(m.lnprob(q.copy()))
            m.residuals(q.copy())
        finally:
            L.BACKEND = "cpu"
            fakecuda.HOOKS = False
        c = L.make_patch(sc, files, allbands=allbands)
        m, q = c.prepare_model(active=active, fixed=fixed)
        u = float(m.lnprob(q.copy()))
        mag = sum(float(np.sum(np.where(o, (np.nan_to_num(d) / np.where(o, s, 1)) ** 2, 0))) for d, s, o in zip(data, unc, ok))
        check(abs(u - v) <= 1e-4 * (mag + abs(u)) + 1e-9, "log-likelihood %r, %r on the CPU", v, u)
    info.label("mode%d" % case["sched"]["mode"], "threads%d" % case["threads"], "fixed" if fixed is not None else "plain")


def body_limit(case, info):
    """More sources than there is room for are refused."""
    import forcepho.proposal as P
    from forcepho.kernel_limits import MAXSOURCES
    sc = dict(case["scene"])
    n = MAXSOURCES + case["over"]
    sc["sources"] = [dict(sc["sources"][i % len(sc["sources"])]) for i in range(n)]
    with L.SceneFiles(sc) as files:
        L.BACKEND = "gpu"
        try:
            p = L.make_patch(sc, files)
        finally:
            L.BACKEND = "cpu"
        calls = []
        P.GPUProposer.evaluate_proposal
        try:
            p.pack_meta(p.set_scene(L.catalog(sc)))
            p.send_to_device()
            prop = p.get_proposer()
            prop.evaluate_proposal_kernel = lambda *a, **k: calls.append(1)
            prop.evaluate_proposal(p.scene.get_proposal(), patch=p)
        except Exception:
            pass
        check(not calls, "%d sources were sent to a kernel with room for %d", n, MAXSOURCES)


def subs():
    small = dict(maxsize=16, max_exp=3, max_src=3)
    return [
        Sub("backends", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(maxsize=22, max_exp=4, max_src=4), w=like.weights_st(), bandorder=st.permutations([0, 1, 2]), sched=sched_st(), fix=st.booleans(), resid=st.booleans(), extra=st.sampled_from([0, 0, 0, 5, 12]),
            swap=st.integers(0, 5), runs=st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 3, 4]), st.sampled_from([0, 0, 32, 64, 96, 128, 256, 512, 736])).map(list), min_size=1, max_size=4))),
            tolerant(body_both), quick=240, thorough=5000, shards=6, budget=60, rule="random scenes on both backends: values, derivatives, residuals, data on the device, pointers and release",
            nontrivial_rule="model contributes to the chi-square"),
        Sub("gradient", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(**small), w=like.weights_st(), bandorder=st.permutations([0, 1, 2]), moves=st.just([]), sched=sched_st())),
            tolerant(on_gpu(p03.body)), quick=90, thorough=2500, shards=3, rule="the check of P03 on the emulated device"),
        Sub("value", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(**small), w=like.weights_st(), bandorder=st.permutations([0, 1, 2]), fscale=L.rnd(0.2, 2.0), sched=sched_st())),
            tolerant(on_gpu(p02.body)), quick=90, thorough=2500, shards=3, rule="the check of P02 on the emulated device", nontrivial_rule="model contributes to the chi-square"),
        Sub("subtract", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(maxsize=14, max_src=6, nmin_src=2, max_exp=3), w=like.weights_st(), roles=p07.roles_st(), nmax=st.integers(1, 4), nmax2=st.integers(1, 6), bigspline=st.booleans(),
            bandorder=st.permutations([0, 1, 2]), seed=st.integers(0, 9999), sched=sched_st())), tolerant(on_gpu(p07.body)), quick=90, thorough=2500, shards=4,
            rule="the check of P07 on the emulated device", nontrivial_rule="at least one subtracted source"),
        Sub("fluxes", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(maxsize=14, max_src=4, max_exp=3), w=like.weights_st(), roles=st.lists(st.booleans(), min_size=1, max_size=4), bandorder=st.permutations([0, 1, 2]),
            seed=st.integers(0, 9999), sched=sched_st())), tolerant(on_gpu(p08.body)), quick=60, thorough=1500, shards=2, rule="the check of P08 on the emulated device", nontrivial_rule="a well-conditioned solution"),
        Sub("races", lambda: st.fixed_dictionaries(dict(
            scene=L.scene_st(maxsize=12, max_exp=3, max_src=3), w=like.weights_st(), bandorder=st.permutations([0, 1, 2]), sched=sched_st(), fix=st.booleans(),
            threads=st.sampled_from([32, 64, 64, 96, 128, 256, 1024]))), tolerant(body_races), quick=40, thorough=1500, shards=3,
            rule="every memory access of every thread: within the arrays of the device and the launch, and no conflicting accesses between barriers"),
        Sub("limit", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(maxsize=10, max_src=3, max_exp=1, max_bands=1), over=st.integers(1, 20))),
            tolerant(body_limit), quick=12, thorough=60, shards=2, rule="more sources than the kernels have room for"),
    ]
