"""Evaluates kernel cases in an instrumented process.

  python -m fpcheck.sanserver KERNEL.so SCRATCH

Reads one JSON case per line on stdin, writes one JSON answer per line on the original stdout.
"""
import ctypes
import hashlib
import json
import os
import sys
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def in_use():
    lib = ctypes.CDLL(None)
    lib.mallinfo2.restype = Mallinfo
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd


def band_names(n):
    return ["B%02d" % i for i in range(n)]


def expand(case):
    """A scene (lib.scene form) from a compact description."""
    rs = np.random.RandomState(case["seed"])
    nb, ns, nrad = case["nb"], case["ns"], case["nrad"]
    exps = []
    for b in range(nb):
        for _ in range(case["nexp"][b % len(case["nexp"])]):
            nx, ny = case["sizes"][len(exps) % len(case["sizes"])]
            exps.append(dict(nx=nx, ny=ny, scale=0.05, rot=float(rs.uniform(-180, 180)), parity=1, aspect=1.0, dx=0.0, dy=0.0, sip=0.0, band=b, seed=int(rs.randint(99999))))
    if case["shuffle"]:
        exps = [exps[i] for i in rs.permutation(len(exps))]
    ext = case["ext"]
    srcs = [dict(dx=float(rs.uniform(-ext, ext)), dy=float(rs.uniform(-ext, ext)), q=float(rs.uniform(0.3, 1)), pa=float(rs.uniform(-1.5, 1.5)), sersic=float(rs.uniform(1, 5)),
                 rhalf=float(rs.uniform(0.03, 0.4)), flux=[float(v) for v in rs.uniform(0, 50, nb)]) for _ in range(ns + case["nfixed"])]
    psfs = []
    for b in range(nb):
        ng = case["npsf"][b % len(case["npsf"])]
        psfs.append(dict(base=[[float(v) for v in (rs.uniform(0.1, 1), rs.uniform(-1, 1), rs.uniform(-1, 1), rs.uniform(0.7, 3), rs.uniform(0.7, 3), rs.uniform(-0.6, 0.6))] for _ in range(ng)],
                         seed=int(rs.randint(9999)), jitter=0.1, drop=int(rs.randint(3))))
    return dict(bands=band_names(nb), ra0=53.0, dec0=-27.0, exps=exps, sources=srcs, psfs=psfs, spline=dict(nrad=nrad, seed=int(rs.randint(9999))), nrad=nrad, noise=0.1)


ARRAYS = ["data", "ierr", "xpix", "ypix", "D", "CW", "crpix", "crval", "G", "rad", "exposure_start", "exposure_N", "band_start", "band_N",
          "n_psf_per_source", "psfgauss", "psfgauss_start"]


def arrays(p):
    out = {}
    for a in ARRAYS:
        v = getattr(p, a, None)
        if isinstance(v, np.ndarray):
            out[a] = v.tobytes()
    return out


def churn():
    """Overwrite the small blocks numpy keeps for reuse: whoever still points to a released array sees it change."""
    return [np.full(n, 0xA5, dtype=np.uint8) for n in range(1, 1024) for _ in range(8)]


def digest(v):
    return hashlib.sha1(v).hexdigest()[:16]


def run(case, track):
    from fpcheck.lib import scene as L
    sc = expand(case)
    cat = L.catalog(sc)
    act, fix = cat[:case["ns"]], cat[case["ns"]:]
    outs = []
    with L.SceneFiles(sc, root=os.getcwd()) as files:
        kw = dict(allbands=sc["bands"])
        models, starts, patches = [], [], []
        for k in range(2 if case["two"] else 1):
            p = L.make_patch(sc, files, **kw)
            a = act if k == 0 else act[::-1]
            m, q = p.prepare_model(active=a, fixed=fix if len(fix) else None)
            models.append(m)
            starts.append(np.array(q))
            patches.append(p)
            p.return_residual = True
        rs = np.random.RandomState(case["seed"] + 5)
        moves = [np.zeros_like(starts[0])]
        nb = case["nb"]
        for _ in range(2):
            d = np.zeros((case["ns"], nb + 6))
            d[:, :nb] = rs.uniform(-5, 5, (case["ns"], nb))
            d[:, nb:nb + 2] = rs.uniform(-5e-5, 5e-5, (case["ns"], 2))
            d[:, nb + 2:] = rs.uniform(-0.02, 0.02, (case["ns"], 4))
            moves.append(d.ravel())
        before = [arrays(p) for p in patches]
        seen = {}
        for step in case["history"]:
            k, j = step % len(models), (step // 2) % len(moves)
            churn()
            m = models[k]
            q = starts[k] + moves[j]
            m.scene.set_all_source_params(q)
            prop = m.scene.get_proposal()
            pb = prop.tobytes()
            out = m.proposer.evaluate_proposal(prop, patch=patches[k])
            if prop.tobytes() != pb:
                return dict(violation="the proposal was modified by its evaluation")
            chi, der, res = out
            chi, der = np.array(chi), np.array(der)
            if chi.shape != (nb,) or der.shape != (nb, case["ns"], 7):
                return dict(violation="shapes %s %s" % (chi.shape, der.shape))
            dg = [digest(chi.tobytes()), digest(der.tobytes()), digest(b"".join(np.array(r).tobytes() for r in res))]
            if (k, j) in seen and seen[(k, j)] != dg:
                return dict(violation="evaluating the same proposal again gave other results: %s" % ", ".join(
                    n for n, x, y in zip(("chi2", "gradient", "residual"), seen[(k, j)], dg) if x != y))
            seen[(k, j)] = dg
            if not (np.all(np.isfinite(chi)) and np.all(np.isfinite(der))):
                return dict(violation="non-finite results")
            outs.append(dg)
        for p, b in zip(patches, before):
            for n, v in arrays(p).items():
                if v != b.get(n):
                    return dict(violation="evaluation modified the patch array %s" % n)
        growth = 0
        if track:
            m, p = models[0], patches[0]
            prop = m.scene.get_proposal()
            for i in range(90):
                m.proposer.evaluate_proposal(prop, patch=p)
                if i == 29:
                    u0 = in_use()
            growth = in_use() - u0
            if growth > 60 * 64 and growth > 60000:
                return dict(violation="60 evaluations left %d bytes allocated" % growth)
    return dict(outs=outs, npix=int(sum(e["nx"] * e["ny"] for e in sc["exps"])), growth=growth)


def main():
    so, scratch, mode = sys.argv[1:4]
    sys.path.insert(0, VERIF)
    os.chdir(scratch)
    import tempfile
    tempfile.tempdir = scratch
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from fpcheck import boot
    boot.ensure_deps()
    boot.import_forcepho(so=so)
    real.write("ready\n")
    real.flush()
    for line in sys.stdin:
        case = json.loads(line)
        try:
            ans = run(case, mode == "zero")
            if case.get("over"):
                ans = dict(violation="%d sources, %d bands, %d radii were accepted" % (case["ns"], case["nb"], case["nrad"]))
        except Exception:
            if case.get("over"):
                ans = dict(outs=[], npix=1, growth=0)
            else:
                ans = dict(violation="exception: " + traceback.format_exc()[-1500:])
        real.write(json.dumps(ans) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
