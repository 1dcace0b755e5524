"""Generated source fields for the scene server, with exact tangent coordinates."""
import numpy as np
from hypothesis import strategies as st

from . import scene as L


def field_st(nmin=1, nmax=14, ext=12.0, bands=2, large=(), wrap=False):
    src = st.fixed_dictionaries(dict(x=L.rnd(-ext, ext, 3), y=L.rnd(-ext, ext, 3), rhalf=L.rnd(0.05, 0.29, 3),
                                     roi=L.rnd(0.1, 3.0, 3)))
    ra0 = L.mostly(L.rnd(1, 359, 3), st.sampled_from([0.0, 0.0004, 359.9996]), 9) if wrap else L.rnd(1, 359, 3)
    f = st.fixed_dictionaries(dict(ra0=ra0, dec0=L.rnd(-70, 70, 3), nb=st.integers(1, bands),
                                   src=st.lists(src, min_size=nmin, max_size=nmax), seed=st.integers(0, 9999)))
    if not large:
        return f
    return st.tuples(f, st.sampled_from([0] * 11 + list(large))).map(lambda t: crowd(t[0], t[1], ext))


def crowd(f, more, ext):
    """Many more sources: at the same density, or (negative) a dense cluster."""
    rs = np.random.RandomState(f["seed"])
    e = ext * max(1.0, np.sqrt((len(f["src"]) + more) / 16.0)) if more > 0 else ext / 3.0
    more = abs(more)
    return dict(f, src=f["src"] + [dict(x=round(float(x), 3), y=round(float(y), 3), rhalf=round(float(h), 3), roi=round(float(r), 3))
                                   for x, y, h, r in zip(rs.uniform(-e, e, more), rs.uniform(-e, e, more), rs.uniform(0.05, 0.29, more), rs.uniform(0.1, 3.0, more))])


def offsets(ra, dec, ra0, dec0):
    """Longitude and latitude (arcsec) in the frame centred on (ra0, dec0)."""
    a, d, a0, d0 = [np.deg2rad(np.asarray(v, float)) for v in (ra, dec, ra0, dec0)]
    x = np.cos(d) * np.cos(a - a0) * np.cos(d0) + np.sin(d) * np.sin(d0)
    y = np.cos(d) * np.sin(a - a0)
    z = -np.cos(d) * np.cos(a - a0) * np.sin(d0) + np.sin(d) * np.cos(d0)
    f = np.rad2deg(1) * 3600
    return np.arctan2(y, x) * f, np.arctan2(z, np.hypot(x, y)) * f


def catalog(f, seed_extra=0):
    """A source catalog in the server's own format."""
    from forcepho.superscene import sourcecat_dtype
    bands = L.BANDS[:f["nb"]]
    rs = np.random.RandomState(f["seed"] + seed_extra)
    n = len(f["src"])
    cat = np.zeros(n, dtype=sourcecat_dtype(bands=bands))
    cat["id"] = rs.permutation(n) + 100
    c = np.cos(np.deg2rad(f["dec0"]))
    cat["ra"] = f["ra0"] + np.array([s["x"] for s in f["src"]]) / 3600 / c
    if not 1 <= f["ra0"] <= 359:
        cat["ra"] %= 360.0
    cat["dec"] = f["dec0"] + np.array([s["y"] for s in f["src"]]) / 3600
    cat["rhalf"] = [s["rhalf"] for s in f["src"]]
    cat["roi"] = [s["roi"] for s in f["src"]]
    cat["q"] = rs.uniform(0.5, 0.95, n)
    cat["pa"] = rs.uniform(-1.5, 1.5, n)
    cat["sersic"] = rs.uniform(1.1, 4.5, n)
    for b in bands:
        cat[b] = rs.uniform(1, 50, n)
    return cat, bands


def near(ra):
    """The same right ascensions without a jump between neighbours."""
    return ra - 360.0 * np.round((ra - ra[0]) / 360.0)


def same_ra(a, b, tol=1e-9):
    d = np.abs(np.asarray(a, float) - b)
    return np.minimum(d, np.abs(d - 360.0)) <= tol


def same_col(c, a, b):
    """Equal columns; right ascensions may differ by whole turns."""
    if c != "ra":
        return np.array_equal(a, b)
    return np.shape(a) == np.shape(b) and bool(np.all(same_ra(a, b)))


def center(cat0):
    return np.median(near(cat0["ra"])), np.median(cat0["dec"])


def coords(cat0):
    """Scene coordinates of the catalog positions, around their median."""
    x, y = offsets(cat0["ra"], cat0["dec"], *center(cat0))
    return np.stack([x, y], 1)
