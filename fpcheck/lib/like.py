"""Reference likelihood and gradient on top of RefScene, with weighting/masking generators."""
import numpy as np
from hypothesis import strategies as st

from . import scene as L


def weights_st():
    return st.fixed_dictionaries(dict(
        mode=st.sampled_from(["flat", "spread", "spiky"]),
        seed=st.integers(0, 99999),
        nbad=st.integers(0, 6),
        amp=st.sampled_from([1.0, 30.0]),
        # noisy or extremely deep exposures: the weights alone change
        unit=st.sampled_from([1.0] * 7 + [1e4, 1e6, 1e-3])))


BADKINDS = ["nan_data", "inf_data", "nan_unc", "inf_unc", "zero_unc", "neg_unc", "nan_both", "huge_inf_unc"]


def make_data(sc, w):
    """Data, uncertainty and validity mask per exposure; deterministic in the case."""
    rs = np.random.RandomState(w["seed"])
    data, unc, ok = [], [], []
    for e in sc["exps"]:
        shp = (e["nx"], e["ny"])
        d = (L.noise_image(e, sc["noise"]) * w["amp"]).astype(np.float32)
        if w["mode"] == "flat":
            u = np.full(shp, sc["noise"], dtype=np.float32)
        elif w["mode"] == "spread":
            u = L.unc_image(e, sc["noise"])
        else:
            # a few pixels carry almost all of the weight
            u = np.full(shp, sc["noise"] * 1e3, dtype=np.float32)
            for _ in range(4):
                u[rs.randint(shp[0]), rs.randint(shp[1])] = sc["noise"]
            # first and last pixels are where off-by-one errors live
            if rs.rand() < 0.6:
                u[0, 0] = u[-1, -1] = sc["noise"] * 0.3
        u = (u * np.float32(w.get("unit", 1.0))).astype(np.float32)
        m = np.ones(shp, bool)
        for _ in range(w["nbad"]):
            i, j = rs.randint(shp[0]), rs.randint(shp[1])
            k = BADKINDS[rs.randint(len(BADKINDS))]
            m[i, j] = False
            if k == "nan_data":
                d[i, j] = np.nan
            elif k == "inf_data":
                d[i, j] = np.inf
            elif k == "nan_unc":
                u[i, j] = np.nan
            elif k == "inf_unc":
                u[i, j] = np.inf
            elif k == "zero_unc":
                u[i, j] = 0
            elif k == "neg_unc":
                u[i, j] = -0.5
            elif k == "nan_both":
                u[i, j] = d[i, j] = np.nan
            else:
                d[i, j], u[i, j] = 1e8, np.inf
        data.append(d)
        unc.append(u)
        ok.append(m)
    return data, unc, ok


class RefLike:
    """extra: envelope of what was already subtracted from the data (adds to the rounding allowance)."""

    def __init__(self, ref, data, unc, ok, extra=None):
        self.ref = ref
        self.extra = extra
        self.data = [np.where(m, d, 0.0).astype(np.float64) for d, m in zip(data, ok)]
        with np.errstate(all="ignore"):
            self.iv = [np.where(m, 1.0 / u.astype(np.float64)**2, 0.0) for u, m in zip(unc, ok)]

    def chi2(self, exps, table=None):
        """chi2 (r^2 - d^2) over the given exposures, and an error allowance."""
        tot, allow, scale = 0.0, 0.0, 0.0
        for e in exps:
            M = self.ref.image(e, table=table)
            env = self.ref.image(e, table=table, env=True)
            d, iv = self.data[e], self.iv[e]
            r = d - M
            tot += np.sum((r**2 - d**2) * iv)
            t = 5e-4 * env + 3e-6 * env.max() + 2e-6 * np.abs(d)
            if self.extra is not None:
                x = self.extra[e]
                te = 5e-4 * x + 3e-6 * x.max() + 5e-6 * np.abs(d)
                allow += np.sum(iv * (2 * np.abs(d) * te + te**2))
                t = t + te
            allow += np.sum(iv * (2 * np.abs(r) * t + t**2)) + 6e-7 * np.sum(iv * (r**2 + d**2))
            scale += np.sum(iv * np.abs(r**2 - d**2))
        return tot, allow, scale

    def grad(self, exps, nb, table=None):
        """d chi2 / d params, [nsrc, nb + 6], and an error allowance of the same shape."""
        nsrc = len(self.ref.sources)
        g = np.zeros((nsrc, nb + 6))
        a = np.zeros((nsrc, nb + 6))
        for e in exps:
            b = self.ref.case["exps"][e]["band"]
            M = self.ref.image(e, table=table)
            env = self.ref.image(e, table=table, env=True)
            d, iv = self.data[e], self.iv[e]
            r = d - M
            t = 5e-4 * env + 3e-6 * env.max() + 2e-6 * np.abs(d)
            if self.extra is not None:
                x = self.extra[e]
                t = t + 5e-4 * x + 3e-6 * x.max() + 5e-6 * np.abs(d)
            ders = self.ref.image_derivs(e, table=table)
            tab = self.ref.params() if table is None else table
            for i in range(nsrc):
                # natural size of a derivative: rounding noise when the true one vanishes
                row = tab[i]
                uenv = self.ref.source_image(e, i, self.ref.rel(i, row, nb), env=True,
                                             amps=self.ref.amps(row[nb + 4], row[nb + 5]))
                cut = self.ref.source_image(e, i, self.ref.rel(i, row, nb), env="cut",
                                            amps=self.ref.amps(row[nb + 4], row[nb + 5]))
                cw = np.abs(self.ref.astro[e][i][1]).max()
                f = abs(row[b])   # fluxes may be negative
                nat = [1.0, f * cw, f * cw, f, f, f, f]
                for k in range(7):
                    col = b if k == 0 else nb + k - 1
                    D = ders[i][k]
                    a[i, col] += 1e-5 * np.sum(2 * iv * np.abs(r) * nat[k] * (uenv + 1e6 * cut))
                    g[i, col] += np.sum(-2 * r * iv * D)
                    a[i, col] += np.sum(2 * iv * (np.abs(r) * (2e-3 * np.abs(D) + 5e-5 * np.abs(D).max())
                                                  + t * np.abs(D)))
        return g, a
