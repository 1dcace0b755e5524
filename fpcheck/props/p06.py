"""P06: parameters keep their meaning between catalog, scene, vector, proposal and bounds."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

NEEDS_KERNEL = True
ASSUMPTIONS = ["catalog output is single precision by design: compared at float32 resolution"]

PNAMES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def val_st(name):
    return {"ra": L.rnd(-1, 359), "dec": L.rnd(-89, 89), "q": L.rnd(0.2, 1), "pa": L.rnd(-2, 2),
            "sersic": L.rnd(0.9, 5.5), "rhalf": L.rnd(0.02, 0.9)}[name]


def src_st(nb):
    d = {n: val_st(n) for n in PNAMES}
    d["flux"] = st.lists(L.rnd(-20, 500, 3), min_size=nb, max_size=nb)
    return st.fixed_dictionaries(d)


def mkcat(bands, srcs, colorder, shapes=PNAMES):
    cols = list(shapes) + list(bands) + ["extra1", "n_iter"]
    cols = [cols[i % len(cols)] for i in colorder if True]
    seen, order = set(), []
    for c in cols + list(shapes) + list(bands) + ["extra1", "n_iter"]:
        if c not in seen:
            seen.add(c)
            order.append(c)
    cat = np.zeros(len(srcs), dtype=np.dtype([(c, np.float64) for c in order]))
    for i, s in enumerate(srcs):
        for c in shapes:
            cat[i][c] = s[c]
        for j, b in enumerate(bands):
            cat[i][b] = s["flux"][j]
        cat[i]["extra1"] = -77 - i
        cat[i]["n_iter"] = i
    return cat


def close32(a, b):
    return abs(float(a) - float(b)) <= 2e-7 * abs(float(b)) + 1e-30


class Ref:
    """Plain list-of-dicts model of a scene."""

    def __init__(self, rows, filt, cols):
        self.rows = rows      # list of dict name -> value (bands and shapes)
        self.filt, self.cols = filt, cols
        self.fixed = [False] * len(rows)

    def vec(self, active=True):
        out = []
        for r, f in zip(self.rows, self.fixed):
            if active and f:
                continue
            out += [r[b] for b in self.filt] + [r[c] for c in self.cols]
        return np.array(out)


def check_indices(scene, vec, rows, fixed, filts, cols, where):
    """The indices reported for a source point at that source's values in the vector."""
    for i, (r, fx) in enumerate(zip(rows, fixed)):
        if fx:
            continue
        for b in filts[i]:
            idx = list(scene.param_indices(i, b))
            want = [r[b]] + [r[c] for c in cols[i]]
            check(len(idx) == len(want) and np.array_equal(vec[idx], want),
                  "%s: param_indices(%d, %s) = %s points at %s, expected %s", where, i, b, idx,
                  [vec[j] if j < len(vec) else None for j in idx], want)
        idx = list(scene.param_indices(i))
        want = [r[b] for b in filts[i]] + [r[c] for c in cols[i]]
        check(len(idx) == len(want) and np.array_equal(vec[idx], want), "%s: param_indices(%d) = %s", where, i, idx)


def body_mixed(case, info):
    """Scenes whose sources differ in type and bands (hence in number of parameters)."""
    import forcepho.sources as S
    objs, rows, filts, cols, fixed = [], [], [], [], []
    for sp in case["srcs"]:
        filt = [L.BANDS[i] for i in sp["filt"]]
        kw = {}
        if sp["kind"] in ("Galaxy", "FixedSersic"):
            kw = dict(splinedata=L.BIG_SPLINE)
            if sp["kind"] == "FixedSersic":
                kw["free_sersic"] = False
        cls = dict(Star=S.Star, Simple=S.SimpleGalaxy).get(sp["kind"], S.Galaxy)
        c = dict(Star=PNAMES[:2], Galaxy=PNAMES).get(sp["kind"], PNAMES[:4])
        o = cls(filters=list(filt), **kw)
        objs.append(o)
        filts.append(filt)
        cols.append(list(c))
        rows.append(dict.fromkeys(filt + list(c)))
        o.fixed = bool(sp["fixed"])
        fixed.append(bool(sp["fixed"]))
    if all(fixed):
        objs[0].fixed = fixed[0] = False
    scene = S.Scene(sources=objs)
    rs = np.random.RandomState(case["seed"])

    def draw(i):
        return [rs.uniform(1, 5) if n == "sersic" else rs.uniform(0.02, 0.9) for n in filts[i] + cols[i]]

    for i, o in enumerate(objs):
        vals = draw(i)
        o.set_params(np.array(vals))
        rows[i].update(zip(filts[i] + cols[i], vals))
    for step in range(case["nset"]):
        theta = []
        for i in range(len(objs)):
            if not fixed[i]:
                vals = draw(i)
                theta += vals
                rows[i].update(zip(filts[i] + cols[i], vals))
        scene.set_all_source_params(np.array(theta))
        v = np.asarray(scene.get_all_source_params())
        check(np.array_equal(v, theta), "vector read back %s, set %s", v, theta)
        full = [rows[i][n] for i in range(len(objs)) for n in filts[i] + cols[i]]
        check(np.array_equal(scene.get_all_source_params(active=False), full), "full vector")
        check(len(scene.parameter_names) == len(full), "parameter names")
        for i, o in enumerate(objs):
            check(np.array_equal(np.asarray(o.get_param_vector()), [rows[i][n] for n in filts[i] + cols[i]]),
                  "source %d holds %s", i, o.get_param_vector())
            for n in ("ra", "dec"):
                check(getattr(o, n) == rows[i][n], "source %d: %s", i, n)
        check_indices(scene, v, rows, fixed, filts, cols, "mixed")
        j = step % len(objs)
        if not all(f or k == j for k, f in enumerate(fixed)):
            objs[j].fixed = fixed[j] = not fixed[j]
            v = np.asarray(scene.get_all_source_params())
            check_indices(scene, v, rows, fixed, filts, cols, "mixed, after fixing")
    info.label(*sorted({"kind_" + s["kind"] for s in case["srcs"]}))
    info.trivial_if(len({len(r) for r in rows}) == 1)


@st.composite
def mixed_case(draw):
    src = st.fixed_dictionaries(dict(kind=st.sampled_from(["Galaxy", "Galaxy", "FixedSersic", "Star", "Simple"]), fixed=st.integers(0, 3).map(lambda x: x == 0),
                                     filt=st.lists(st.integers(0, min(3, len(L.BANDS) - 1)), min_size=1, max_size=3, unique=True)))
    return dict(srcs=draw(st.lists(src, min_size=1, max_size=6)), nset=draw(st.integers(1, 5)), seed=draw(st.integers(0, 9999)))


def body_scene(case, info):
    import forcepho.sources as S
    kind = case["kind"]
    bands = case["bands"]
    filt = [bands[i] for i in case["filt"] if i < len(bands)]
    srcs = [dict(s) for s in case["srcs"]]
    if kind == "Conformal":
        cols = ["ra", "dec", "ep", "ec", "sersic", "rhalf"]
        for s in srcs:
            s["ep"], s["ec"] = s["pa"], s["q"] - 0.5
    elif kind == "Galaxy":
        cols = PNAMES
    elif kind == "GalaxyFixedSersic":
        cols = PNAMES[:4]
    elif kind == "Simple":
        cols = PNAMES[:4]
    else:
        cols = PNAMES[:2]
    cat = mkcat(bands, srcs, case["colorder"], shapes=sorted(set(cols) | set(PNAMES)))
    before = cat.copy()
    if kind == "Galaxy":
        scene = S.Scene(catalog=cat, filternames=list(filt), source_type=S.Galaxy, splinedata=L.BIG_SPLINE)
    elif kind == "GalaxyFixedSersic":
        scene = S.Scene(catalog=cat, filternames=list(filt), source_type=S.Galaxy, splinedata=L.BIG_SPLINE,
                        free_sersic=False, extra_parameters=["sersic", "rhalf"])
    elif kind == "Conformal":
        scene = S.Scene(catalog=cat, filternames=list(filt), source_type=S.ConformalShearGalaxy, splinedata=L.BIG_SPLINE)
    else:
        cls = S.SimpleGalaxy if kind == "Simple" else S.Star
        objs = []
        for row in cat:
            o = cls(filters=list(filt))
            o.from_catalog_row(row)
            objs.append(o)
        scene = S.Scene(sources=objs)
    ref = Ref([dict([(b, s["flux"][bands.index(b)]) for b in filt] + [(c, s[c]) for c in cols]) for s in srcs], filt, cols)
    npar = len(filt) + len(cols)
    amps = L.amps_for(dict(spline=None))

    def compare(where):
        v = np.asarray(scene.get_all_source_params())
        check(np.array_equal(v, ref.vec()), "%s: vector %s, expected %s", where, v, ref.vec())
        va = np.asarray(scene.get_all_source_params(active=False))
        check(np.array_equal(va, ref.vec(False)), "%s: full vector", where)
        check(scene.n_active == ref.fixed.count(False) and scene.n_fixed == ref.fixed.count(True), "%s: counts", where)
        check_indices(scene, v, ref.rows, ref.fixed, [filt] * len(ref.rows), [cols] * len(ref.rows), where)

    check(len(scene) == len(srcs), "length")
    for i, s in enumerate(scene.sources):
        check(s.id == i, "source id %r of source %d", s.id, i)
        check(s.n_params == npar and s.n_bands == len(filt), "number of parameters")
        want = ["%s_%d" % (n, i) for n in filt + cols]
        names = list(s.parameter_names)
        if kind != "Conformal":
            check(names == want, "parameter names %s", names)
        check(len(names) == npar, "number of names")
        if kind.startswith("Galaxy"):
            for f in filt:
                idx = list(scene.param_indices(i, f))
                check(idx == [i * npar + filt.index(f)] + list(range(i * npar + len(filt), (i + 1) * npar)),
                      "param_indices(%d, %s) = %s", i, f, idx)
    compare("from catalog")
    check(np.array_equal(cat, before), "catalog modified")
    old_prop = None
    nset = 0
    for op in case["ops"]:
        k = op["k"]
        i = op["i"] % len(srcs)
        rs = np.random.RandomState(op["seed"])
        if k == "setall":
            if not any(not f for f in ref.fixed):
                continue
            vec = []
            for r, f in zip(ref.rows, ref.fixed):
                if f:
                    continue
                for n in filt + cols:
                    r[n] = float(np.round(rs.uniform(0.3, 0.9) if n in ("q",) else rs.uniform(1, 5) if n == "sersic" else
                                          rs.uniform(0.02, 0.9) if n == "rhalf" else rs.uniform(-3, 100), 4))
                    vec.append(r[n])
            vec = np.array(vec)
            keep = vec.copy()
            scene.set_all_source_params(vec if op["b"] else list(vec))
            check(np.array_equal(vec, keep), "set modified its argument")
            vec[:] = -1e9    # the scene must not alias the caller's array
            nset += 1
        elif k == "setband":
            b = filt[op["j"] % len(filt)]
            vals = [float(np.round(rs.uniform(0.3, 0.95), 4)) for _ in range(1 + len(cols))]
            if "sersic" in cols:
                vals[1 + cols.index("sersic")] = 1.0 + vals[1]
            scene.sources[i].set_params(np.array(vals), filtername=b)
            ref.rows[i][b] = vals[0]
            for n, v in zip(cols, vals[1:]):
                ref.rows[i][n] = v
            got = np.asarray(scene.sources[i].get_param_vector(filtername=b))
            check(np.array_equal(got, np.array(vals)), "single-band vector %s, set %s", got, vals)
            nset += 1
        elif k == "badlen":
            try:
                scene.sources[i].set_params(np.zeros(npar + 1 + op["j"] % 2))
            except Exception:
                pass
            else:
                check(False, "a vector of the wrong length was accepted")
        elif k == "fix":
            scene.sources[i].fixed = bool(op["b"])
            ref.fixed[i] = bool(op["b"])
            if all(ref.fixed):
                scene.sources[i].fixed = ref.fixed[i] = False
        elif k == "proposal" and kind != "Simple" and kind != "Star":
            prop = scene.get_proposal()
            rows = [r for r, f in zip(ref.rows, ref.fixed) if not f]
            objs = [o for o, f in zip(scene.sources, ref.fixed) if not f]
            check(len(prop) == len(rows), "proposal length")
            for pr, r, o in zip(prop, rows, objs):
                for j, b in enumerate(filt):
                    check(close32(pr["fluxes"][j], r[b]), "proposal flux")
                for n, m in (("ra", "ra"), ("dec", "dec"), ("sersic", "nsersic"), ("rhalf", "rh")):
                    if n in r:
                        check(close32(pr[m], r[n]), "proposal %s = %r, expected %r", m, pr[m], r[n])
                if kind == "Conformal":
                    eta = np.hypot(r["ep"], r["ec"])
                    check(abs(pr["q"] - np.exp(-eta / 2)) < 1e-6, "proposal q")
                    check(abs(pr["pa"] - 0.5 * np.arctan2(r["ec"], r["ep"])) < 1e-6, "proposal pa")
                else:
                    check(close32(pr["q"], r["q"]) and close32(pr["pa"], r["pa"]), "proposal q/pa")
                n, h = (r["sersic"], r["rhalf"]) if "sersic" in r else (o.sersic, o.rhalf)
                if 0.85 < n < 5.9 and 0.001 < h < 1.0:
                    A, dn, dr = amps(n, h), amps(n, h, dn=1), amps(n, h, dr=1)
                    na = len(A)
                    check(np.allclose(pr["mixture_amplitudes"][:na], A, rtol=1e-5, atol=1e-6), "amplitudes")
                    check(np.allclose(pr["damplitude_dnsersic"][:na], dn, rtol=1e-5, atol=1e-5), "d amp/d sersic")
                    check(np.allclose(pr["damplitude_drh"][:na], dr, rtol=1e-5, atol=1e-4), "d amp/d rh")
            if old_prop is not None:
                check(old_prop[0].tobytes() == old_prop[1], "an earlier proposal changed")
            old_prop = (prop, prop.tobytes())
        elif k == "tocat":
            out = scene.to_catalog()
            check(len(out) == len(srcs), "catalog length")
            for r, row in zip(ref.rows, out):
                for n in filt + cols:
                    check(close32(row[n], r[n]), "catalog %s = %r, expected %r", n, row[n], r[n])
            check([int(x) for x in out["id"]] == list(range(len(srcs))), "catalog ids")
        elif k == "reload" and kind in ("Galaxy",):
            # a catalog row order / band order change must follow through
            perm = rs.permutation(len(srcs))
            f2 = [filt[j] for j in rs.permutation(len(filt))]
            cat2 = mkcat(f2, [dict([(c, ref.rows[p][c]) for c in cols], flux=[ref.rows[p][b] for b in f2]) for p in perm],
                         case["colorder"])
            filt = f2
            scene.from_catalog(cat2, filternames=list(f2), source_type=S.Galaxy, splinedata=L.BIG_SPLINE)
            ref = Ref([ref.rows[p] for p in perm], f2, cols)
        compare(k)
    info.label("kind_" + kind, "nsrc%d" % min(len(srcs), 5), "nband%d" % min(len(filt), 5), "set%d" % min(nset, 3))
    info.trivial_if(len(srcs) == 1 and len(filt) == 1)


@st.composite
def scene_case(draw):
    if draw(st.integers(0, 7)) == 7:
        # many sources and bands (the kernel's limits are 30 bands and MAXSOURCES sources)
        nb, ns = draw(st.integers(5, 30)), draw(st.integers(5, 30))
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        bands = ["F%03dW" % i for i in rs.choice(999, nb, replace=False)]
        filt = [int(i) for i in rs.permutation(nb)[:rs.randint(4, nb + 1)]]
        srcs = [dict(ra=rs.uniform(0, 359), dec=rs.uniform(-89, 89), q=rs.uniform(0.2, 1), pa=rs.uniform(-2, 2),
                     sersic=rs.uniform(0.9, 5.5), rhalf=rs.uniform(0.02, 0.9),
                     flux=[float(x) for x in rs.uniform(-20, 500, nb)]) for _ in range(ns)]
    else:
        nb = draw(st.integers(1, 4))
        bands = list(draw(st.permutations(L.BANDS))[:nb])
        filt = draw(st.lists(st.integers(0, nb - 1), min_size=1, max_size=nb, unique=True))
        srcs = draw(st.lists(src_st(nb), min_size=1, max_size=4))
    op = st.fixed_dictionaries(dict(k=st.sampled_from(["setall", "setall", "setband", "fix", "proposal", "tocat", "reload", "badlen"]),
                                    i=st.integers(0, 29), j=st.integers(0, 29), b=st.booleans(), seed=st.integers(0, 9999)))
    return dict(kind=draw(st.sampled_from(["Galaxy", "Galaxy", "GalaxyFixedSersic", "Conformal", "Simple", "Star"])),
                bands=bands, filt=filt, srcs=srcs, colorder=draw(st.lists(st.integers(0, 20), max_size=8)),
                ops=draw(st.lists(op, min_size=1, max_size=6)))


def body_conformal(case, info):
    """eta <-> (q, pa) is one map, and its reported Jacobian is the derivative."""
    import forcepho.sources as S
    g = S.ConformalShearGalaxy(filters=["a"], splinedata=L.BIG_SPLINE)
    q, phi = case["q"], case["phi"]
    g.ep, g.ec = g.etas_from_qphi(q, phi)
    check(abs(g.q - q) < 1e-12 * 10, "q %r -> %r", q, g.q)
    if q < 0.999:
        check(abs(np.sin(2 * (g.pa - phi))) < 1e-9 and np.cos(2 * (g.pa - phi)) > 0, "pa %r -> %r", phi, g.pa)
        J = np.asarray(g.ds_deta)
        h = 1e-6
        num = np.zeros((2, 2))
        e0 = (g.ep, g.ec)
        for i in range(2):
            vals = []
            for s in (+h, -h):
                e = list(e0)
                e[i] += s
                g.ep, g.ec = e
                vals.append((g.q, g.pa))
            dpa = (vals[0][1] - vals[1][1] + np.pi / 2) % np.pi - np.pi / 2
            num[i] = (vals[0][0] - vals[1][0]) / (2 * h), dpa / (2 * h)
        check(np.allclose(J, num, rtol=1e-4, atol=1e-4 * (1 + np.abs(num).max())), "d(q,pa)/d(eta) %s vs %s", J, num)


def body_patch(case, info):
    sc = case["scene"]
    allbands = [sc["bands"][i] for i in case["border"] if i < len(sc["bands"])][:max(1, case["nuse"])]
    cat = L.catalog(sc)
    # shuffle the columns
    rs = np.random.RandomState(case["seed"])
    names = list(cat.dtype.names)
    names = [names[i] for i in rs.permutation(len(names))]
    cat = np.array(list(zip(*[cat[n] for n in names])), dtype=[(n, cat.dtype[n]) for n in names])
    bcols = [c for c in names if c != "id"]
    bcols = [bcols[i] for i in rs.permutation(len(bcols))]
    bounds = np.zeros(len(cat), dtype=[(c, np.float64, (2,)) for c in bcols])
    for i in range(len(cat)):
        for c in bcols:
            v = float(cat[i][c])
            w = 1e-4 if c in ("ra", "dec") else 0.1 * abs(v) + 0.01
            bounds[i][c] = (v - w * rs.uniform(0.2, 1), v + w * rs.uniform(0.2, 1))
    with L.SceneFiles(sc) as files:
        p = L.make_patch(sc, files, allbands=allbands)
        cat0 = cat.copy()
        b0 = bounds.copy()
        model, q = p.prepare_model(active=cat, bounds=bounds)
        check(np.array_equal(cat, cat0) and np.array_equal(bounds, b0), "catalog or bounds modified")
        bl = [str(b) for b in p.bandlist]
        check(bl == allbands, "bands %s, requested %s", bl, allbands)
        ref = np.asarray(p.patch_reference_coordinates, dtype=float)
        check(abs(ref[0] - np.median(cat["ra"])) < 1e-9 and abs(ref[1] - np.median(cat["dec"])) < 1e-9, "reference position")
        cols = bl + PNAMES
        off = dict(ra=ref[0], dec=ref[1])
        want = np.array([[cat[i][c] - off.get(c, 0.0) for c in cols] for i in range(len(cat))])
        check(np.allclose(q, want.ravel(), rtol=1e-12, atol=1e-12), "start vector %s expected %s", q, want.ravel())
        for side, vec in ((0, model.transform.lower), (1, model.transform.upper)):
            wb = np.array([[bounds[i][c][side] - off.get(c, 0.0) for c in cols] for i in range(len(cat))]).ravel()
            check(np.allclose(vec, wb, rtol=1e-12, atol=1e-12), "bounds vector (side %d) %s, expected %s", side, vec, wb)
        # move, evaluate, and read back
        z = rs.uniform(-2, 2, len(q))
        model.lnprob(z.copy())
        qn = np.asarray(model.scene.get_all_source_params())
        check(np.allclose(qn, model.transform.transform(z), rtol=1e-12, atol=1e-14), "scene does not hold the evaluated point")
        p.unzerocoords(model.scene)
        full = np.asarray(model.scene.get_all_source_params()).reshape(len(cat), -1)
        exp = qn.reshape(len(cat), -1).copy()
        exp[:, len(bl)] += ref[0]
        exp[:, len(bl) + 1] += ref[1]
        check(np.allclose(full, exp, rtol=1e-13, atol=1e-12), "sky coordinates not restored")
        out = model.scene.to_catalog()
        for i in range(len(cat)):
            for k, c in enumerate(cols):
                check(close32(out[i][c], exp[i, k]), "written catalog %s of source %d: %r, expected %r", c, i, out[i][c], exp[i, k])
    info.label("nsrc%d" % len(cat), "nband%d" % len(allbands))
    info.trivial_if(len(cat) == 1 and len(allbands) == 1)


def subs():
    return [
        Sub("scene", scene_case, body_scene, quick=700, thorough=20000, shards=4,
            rule="catalogs of 1-30 sources in 1-30 bands of five source types, with set/get/fix/proposal/catalog/reload histories",
            nontrivial_rule="more than one source or band"),
        Sub("mixed", mixed_case, body_mixed, quick=400, thorough=10000, shards=1,
            rule="scenes of 1-6 sources of different types and band lists, with set/fix histories and the reported parameter indices",
            nontrivial_rule="sources with different numbers of parameters"),
        Sub("patch", lambda: st.fixed_dictionaries(dict(scene=L.scene_st(maxsize=9, sip=False), seed=st.integers(0, 9999),
                                                        border=st.permutations([0, 1, 2]), nuse=st.integers(1, 3))),
            body_patch, quick=250, thorough=6000, shards=3,
            rule="shuffled catalog and bounds columns, band subsets and orders, through a built patch",
            nontrivial_rule="more than one source or band"),
        Sub("conformal", lambda: st.fixed_dictionaries(dict(q=L.rnd(0.2, 1.0), phi=L.rnd(-1.5, 1.5))), body_conformal,
            quick=200, thorough=3000, shards=1, rule="shape vectors"),
    ]
