"""P18: residual files and the images assembled from them."""
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import like, scene as L
from . import p01

NEEDS_KERNEL = True
ASSUMPTIONS = ["residuals are compared with the independent model within the tolerance of P01",
               "exposure names have distinct last components (write_images names its files after them)"]


# ---------------------------------------------------------------- real patches
def real_st():
    return st.fixed_dictionaries(dict(scene=st.one_of(*[L.scene_st()] * 9, L.extreme_st(kinds=["bigimage", "manyexp", "manyband"])), w=like.weights_st(), niter=st.integers(1, 3), seed=st.integers(0, 9999),
                                      given=st.booleans(), images=st.booleans()))


def real_body(case, info):
    from forcepho.fitting import Result
    from forcepho.postprocess import Residuals, write_images
    from forcepho.utils import write_to_disk
    sc = case["scene"]
    data, unc, ok = like.make_data(sc, dict(case["w"], amp=1.0))
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with L.SceneFiles(sc, data=data, unc=unc, root=d) as files:
            ref = L.RefScene(sc)
            p = L.make_patch(sc, files)
            model, q = p.prepare_model(active=L.catalog(sc))
            rs = np.random.RandomState(case["seed"])
            nb, P = len(p.bandlist), len(p.bandlist) + 6
            # a chain whose last sample differs from the start in its fluxes
            chain = np.tile(np.array(q, float), (case["niter"] + 1, 1))
            ns = len(sc["sources"])
            for k in range(len(chain)):
                for s in range(ns):
                    chain[k, s * P:s * P + nb] *= rs.uniform(0.2, 3.0, nb)
            table = ref.params()
            for s in range(ns):
                for j, b in enumerate(p.bandlist):
                    table[s, sc["bands"].index(b)] = chain[-1, s * P + j]
            out = Result()
            out.chain = chain
            root = os.path.join(d, "run")
            os.makedirs(root + "/patches")
            residual = [np.array(r) for r in model.residuals(chain[-1].copy())] if case["given"] else None
            if case["given"] or case["seed"] % 2:
                # the model was last evaluated elsewhere
                model.residuals(chain[0].copy() * 1.01)
            write_to_disk(out, root + "/patches/patch7", model, NS(write_residuals=1), residual=residual)
            r = Residuals(root + "/patches/patch7_residuals.h5")
            order = L.exposure_order(sc, sc["bands"])
            check(len(r.exposures) == len(order), "%d exposures in the file, expected %d", len(r.exposures), len(order))
            check(r.exposures == [files.files[e] for e in order], "exposures %s", r.exposures)
            check(r.ebands == [sc["exps"][e]["band"] if isinstance(sc["exps"][e]["band"], str) else sc["bands"][sc["exps"][e]["band"]] for e in order], "bands %s", r.ebands)
            check(np.allclose(r.reference_coordinates, p.patch_reference_coordinates), "reference coordinates differ")
            ims, hdrs = r.fill_images(fill_type="residual")
            dats, _ = r.fill_images({}, fill_type="data")
            ies, _ = r.fill_images({}, {}, fill_type="ierr")
            cat = L.catalog(sc)
            for j, e in enumerate(order):
                f = r.exposures[j]
                ex = sc["exps"][e]
                check(ims[f].shape == (ex["nx"], ex["ny"]), "image shape %s, expected %s", ims[f].shape, (ex["nx"], ex["ny"]))
                check(hdrs[f]["NAXIS1"] == ex["nx"], "header of %s is not that of its image", f)
                good = ok[e]
                mod, env = ref.image(e, table=table), ref.image(e, table=table, env=True)
                base = np.where(good, data[e], 0.0).astype(float)
                check(np.array_equal(dats[f][good], data[e][good].astype(np.float64)), "data image of exposure %d differs", e)
                check(np.all(ies[f][~good] == 0) and np.allclose(ies[f][good], 1.0 / unc[e][good].astype(float), rtol=1e-6), "inverse errors of exposure %d differ", e)
                t = p01.tol(env, base)
                err = np.abs(ims[f] - (base - mod))[good]
                check(np.all(np.isfinite(ims[f])) and np.all(err <= t[good]), "residual image of exposure %d is not data minus model (worst %s times the tolerance)", e, (err / t[good]).max() if good.any() else 0)
                im, lo, hi = r.make_exp(e=j, value="residual")
                check(np.array_equal(im, ims[f]) and np.array_equal(lo, [-0.5, -0.5]) and np.array_equal(hi, [ex["nx"] - 0.5, ex["ny"] - 0.5]), "make_exp of exposure %d differs from the image", e)
                im2, _, _ = r.make_exp(exp=f, value="data")
                check(np.array_equal(im2, dats[f]), "make_exp by name differs from the image")
                # sources are marked where the WCS puts them
                xy = r.sky_to_pix(cat["ra"], cat["dec"], e=j)
                w = WCS(files.hdrs[e])
                want = np.stack(w.all_world2pix(cat["ra"], cat["dec"], 0), 1)
                check(np.all(np.abs(xy - want) < 2e-3), "sources of exposure %d are marked at %s, the WCS has %s", e, xy.tolist(), want.tolist())
            if case["images"]:
                write_images(root, show_model=True, show_chi=True)
                for f in r.exposures:
                    bn = os.path.basename(f).replace(".fits", "")
                    with np.errstate(all="ignore"):
                        for kind, want in (("data", dats[f]), ("delta", ims[f]), ("model", dats[f] - ims[f]), ("chi", ims[f] * ies[f])):
                            got = fits.getdata("%s/image/%s_%s.fits" % (root, bn, kind))
                            check(got.shape == want.T.shape and np.allclose(got.T, want, rtol=1e-6, atol=0, equal_nan=True), "%s image of %s differs", kind, bn)
                    h = fits.getheader("%s/image/%s_data.fits" % (root, bn))
                    check(abs(h["CRVAL1"] - hdrs[f]["CRVAL1"]) < 1e-9 and h["CRPIX2"] == hdrs[f]["CRPIX2"], "the image header lost its WCS")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.label("nexp%s" % (len(order) if len(order) < 8 else "-many"), "nonsquare" if any(e["nx"] != e["ny"] for e in sc["exps"]) else "square")
    info.trivial_if(len(order) < 2)


# ---------------------------------------------------------------- assembly of several patches
def asm_st():
    exp = st.fixed_dictionaries(dict(nx=st.integers(2, 12), ny=st.integers(2, 12), band=st.integers(0, 2)))
    return st.fixed_dictionaries(dict(exps=st.lists(exp, min_size=1, max_size=4), npatch=st.integers(1, 4), seed=st.integers(0, 10 ** 6),
                                      frac=st.sampled_from([0.1, 0.4, 1.0]), pad=st.sampled_from([0, 0, 3]), src=st.sampled_from(["imshape", "meta", "files", "ext"]),
                                      use=st.floats(0.3, 1.0), disjoint=st.booleans(), images=st.booleans(), f32=st.booleans()))


def asm_body(case, info):
    from forcepho.postprocess import Residuals, write_images
    from forcepho.utils import write_residuals
    rs = np.random.RandomState(case["seed"])
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        exps = [dict(e) for e in case["exps"]]
        names = []
        meta = NS(headers={})
        for i, e in enumerate(exps):
            b = L.BANDS[e["band"]]
            if case["src"] == "imshape":
                e["nx"], e["ny"] = exps[0]["nx"], exps[0]["ny"]
            if case["src"] in ("files", "ext"):
                fn = os.path.join(d, "f%d_x.fits" % i)
                img = np.zeros((e["ny"], e["nx"]), dtype=np.float32)
                h = fits.Header()
                h["TAG"] = i
                hd = [fits.PrimaryHDU(img, header=h)] if case["src"] == "files" else [fits.PrimaryHDU(), fits.ImageHDU(img, header=h, name="SCI"), fits.ImageHDU(img[:1], name="ERR")]
                fits.HDUList(hd).writeto(fn)
                names.append(fn)
            else:
                names.append("%s/exp%d" % (b, i))
                meta.headers.setdefault(b, {})["exp%d" % i] = fits.ImageHDU(np.zeros((e["ny"], e["nx"]), dtype=np.float32)).header
                del meta.headers[b]["exp%d" % i]["XTENSION"]
                meta.headers[b]["exp%d" % i]["TAG"] = i
        dt = np.float32 if case["f32"] else np.float64
        want = {}
        os.makedirs(d + "/run/patches")
        owner = [rs.randint(0, case["npatch"], (e["nx"], e["ny"])) for e in exps]
        fns, kinds, counted = [], ["residual", "data", "ierr"], 0
        patches = []
        for k in range(case["npatch"]):
            used = [i for i in range(len(exps)) if rs.rand() < case["use"]] or [rs.randint(len(exps))]
            pixs = {a: [] for a in ("data", "xpix", "ypix", "ierr", "residual")}
            for i in used:
                e = exps[i]
                sel = (rs.rand(e["nx"], e["ny"]) < case["frac"]) & ((owner[i] == k) if case["disjoint"] else True)
                if not sel.any():
                    sel[rs.randint(e["nx"]), rs.randint(e["ny"])] = True
                x, y = np.nonzero(sel)
                o = rs.permutation(len(x))
                x, y = x[o], y[o]
                v = {a: rs.normal(size=len(x)).astype(dt) for a in ("data", "ierr", "residual")}
                w = want.setdefault(names[i], {a: np.full((e["nx"], e["ny"]), np.nan) for a in kinds})
                for a in kinds:
                    w[a][x, y] = v[a]
                counted += len(x)
                for a in kinds:
                    pixs[a].append(np.append(v[a], np.full(case["pad"], 777, dt)))
                pixs["xpix"].append(np.append(x, np.full(case["pad"], -1)).astype(dt))
                pixs["ypix"].append(np.append(y, np.full(case["pad"], -1)).astype(dt))
            n = len(used)
            bands = [L.BANDS[exps[i]["band"]] for i in used]
            patcher = NS(epaths=[names[i] for i in used], bands=bands, bandlist=sorted(set(bands)), patch_reference_coordinates=np.array([10.0, -5.0]),
                         D=rs.normal(size=(n, 2, 2, 2)), CW=rs.normal(size=(n, 2, 2, 2)), crpix=rs.normal(size=(n, 2, 2)), crval=rs.normal(size=(n, 2, 2)),
                         split_pix=lambda a, pixs=pixs: pixs[a])
            fn = "%s/run/patches/patch%d_residuals.h5" % (d, k)
            write_residuals(patcher, fn, residuals=pixs["residual"])
            fns.append(fn)
            patches.append((patcher, pixs))
        got = {a: {} for a in kinds}
        hdrs = {}
        for fn, (patcher, pixs) in zip(fns, patches):
            r = Residuals(fn)
            check(r.exposures == patcher.epaths and r.ebands == patcher.bands, "exposures or bands read back differ")
            for j, e in enumerate(r.exposures):
                g = r.handle[e]
                for a in ("D", "CW", "crpix", "crval"):
                    check(np.array_equal(g[a][:], getattr(patcher, a)[j]), "%s of exposure %d differs", a, j)
                for a in ("data", "xpix", "ypix", "ierr", "residual"):
                    check(np.array_equal(g[a][:], pixs[a][j]), "%s of exposure %d differs", a, j)
                im, lo, hi = r.make_exp(e=j, value="data")
                m = pixs["xpix"][j] >= 0
                x, y = pixs["xpix"][j][m].astype(int), pixs["ypix"][j][m].astype(int)
                exp = np.full((x.max() - x.min() + 1, y.max() - y.min() + 1), np.nan)
                exp[x - x.min(), y - y.min()] = pixs["data"][j][m]
                check(im.shape == exp.shape and np.array_equal(im, exp, equal_nan=True), "make_exp misplaces pixels")
                check(np.array_equal(lo, [x.min() - 0.5, y.min() - 0.5]) and np.array_equal(hi, [x.max() + 0.5, y.max() + 0.5]), "make_exp extent %s %s", lo, hi)
            kw = dict(metastore=meta) if case["src"] == "meta" else dict(imshape=(exps[0]["nx"], exps[0]["ny"])) if case["src"] == "imshape" else {}
            for a in kinds:
                # a call on its own starts from empty images
                alone, h1 = r.fill_images(fill_type=a, **kw)
                check(set(alone) == set(patcher.epaths), "images %s for a patch of %s", sorted(alone), sorted(patcher.epaths))
                ret, h = r.fill_images(got[a], hdrs, fill_type=a, **kw)
                check(ret is got[a], "fill_images returns other images than it was given")
        for a in kinds:
            check(set(got[a]) == set(want), "images of %s, expected %s", sorted(got[a]), sorted(want))
            for nme in want:
                check(got[a][nme].shape == want[nme][a].shape, "%s image of %s has shape %s, expected %s", a, nme, got[a][nme].shape, want[nme][a].shape)
                check(np.array_equal(got[a][nme], want[nme][a], equal_nan=True), "%s image of %s has wrong pixels at %s", a, nme,
                      np.argwhere(~((got[a][nme] == want[nme][a]) | (np.isnan(got[a][nme]) & np.isnan(want[nme][a]))))[:5].tolist())
        if case["src"] != "imshape":
            for nme in want:
                check(hdrs[nme]["TAG"] == names.index(nme), "header of %s is that of exposure %s", nme, hdrs[nme]["TAG"])
        if case["images"] and case["src"] in ("files", "ext"):
            write_images(d + "/run", show_model=True, show_chi=True)
            for nme, w in want.items():
                bn = os.path.basename(nme).replace(".fits", "")
                for kind, exp in (("data", w["data"]), ("delta", w["residual"]), ("model", w["data"] - w["residual"]), ("chi", w["residual"] * w["ierr"])):
                    g = fits.getdata("%s/run/image/%s_%s.fits" % (d, bn, kind))
                    check(g.shape == exp.T.shape and np.allclose(g.T, exp, rtol=1e-6, atol=1e-12, equal_nan=True), "written %s image of %s differs", kind, bn)
            info.label("written")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.label(case["src"], "patches-%d" % case["npatch"], "padded" if case["pad"] else "unpadded")
    info.trivial_if(case["npatch"] == 1 and len(exps) == 1)


def subs():
    return [
        Sub("patch", real_st, real_body, quick=150, shards=4, budget=60, rule="generated scenes fitted by a chain, residual file written through the run's own writer, images rebuilt and compared with data minus the independent model",
            nontrivial_rule="at least two exposures"),
        Sub("assembly", asm_st, asm_body, quick=500, shards=4, budget=60, rule="several patches with scattered, overlapping or disjoint pixels put together into images of any shape",
            nontrivial_rule="more than one patch or exposure"),
    ]
