"""P21: regions and polygons against plain geometry."""
import numpy as np
from astropy.wcs import WCS
from fractions import Fraction
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["fields do not include a pole; a rectangle that straddles RA = 0 is given with ra_min < ra_max (one of them outside 0-360)", "circles are compared on images with square, undistorted pixels",
               "points within 2e-4 (relative) of an edge may go either way",
               "polygons are convex, as documented"]


def region_case():
    return st.fixed_dictionaries(dict(
        wcs=L.wcs_st(sip=False), ra0=st.one_of(L.rnd(10, 350), L.rnd(10, 350), L.rnd(-0.003, 0.003, 6), L.rnd(359.997, 360, 6)), dec0=L.rnd(-75, 75), scale=st.sampled_from([0.03, 0.1, 1.0]),
        sx=L.rnd(-40, 40), sy=L.rnd(-40, 40), r=L.rnd(0.2, 20), w=L.rnd(0.2, 20), h=L.rnd(0.2, 20),
        pts=st.lists(st.tuples(L.rnd(-2, 2), L.rnd(-2, 2)).map(list), min_size=4, max_size=12)))


def sep(ra1, dec1, ra2, dec2):
    """Great-circle separation (degrees), haversine."""
    a1, d1, a2, d2 = np.deg2rad([ra1, dec1, ra2, dec2])
    h = np.sin((d2 - d1) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((a2 - a1) / 2) ** 2
    return np.rad2deg(2 * np.arcsin(np.sqrt(h)))


def region_body(case, info):
    from forcepho.region import CircularRegion, RectangularRegion
    e = dict(case["wcs"], aspect=1.0, scale=case["scale"], band=0)
    hdr = L.make_header(dict(case, bands=["B"]), e)
    wcs = WCS(hdr)
    s = case["scale"] / 3600
    cdec = np.cos(np.deg2rad(case["dec0"]))
    # the region's centre, a few pixels from the reference position
    ra, dec = case["ra0"] + case["sx"] * s / cdec, case["dec0"] + case["sy"] * s
    r = case["r"] * s
    circ = CircularRegion(ra, dec, r)
    cc = np.cos(np.deg2rad(dec))
    w, h = case["w"] * s / cc, case["h"] * s
    rect = RectangularRegion(ra - w, ra + w, dec - h, dec + h)
    P = np.array(case["pts"])
    ins = 0
    for reg, kind in ((circ, "circle"), (rect, "rect")):
        if kind == "circle":
            pra, pdec = ra + P[:, 0] * r / cc, dec + P[:, 1] * r
        else:
            pra, pdec = ra + P[:, 0] * w, dec + P[:, 1] * h
        px, py = wcs.all_world2pix(pra, pdec, 0)
        # four identical corners make a cell a point
        got = reg.contains(np.repeat(px[:, None], 4, axis=1), np.repeat(py[:, None], 4, axis=1), wcs)
        got = set(int(i) for i in got[0])
        for i in range(len(P)):
            if kind == "circle":
                t = sep(ra, dec, pra[i], pdec[i]) / r
            else:
                t = max(abs(P[i, 0]), abs(P[i, 1]))
            if abs(t - 1) < 2e-4:
                continue
            check((i in got) == (t < 1), "%s: point at %.5f of the edge distance reported %s", kind, t, "inside" if i in got else "outside")
            ins += t < 1
        # a cell belongs to the region when any of its corners does
        n = len(P) // 2
        cx, cy = np.zeros((n, 2, 4)), np.zeros((n, 2, 4))
        far = 1e4
        for k in range(n):
            for j in range(2):
                for c in range(4):
                    cx[k, j, c], cy[k, j, c] = (px[2 * k + j], py[2 * k + j]) if c == (k + j) % 4 else (px[0] + far, py[0] + far)
        g = reg.contains(cx, cy, wcs)
        check(isinstance(g, tuple) and len(g) == 2, "contains() returned %s index arrays", len(g))
        pairs = set(zip(g[0].tolist(), g[1].tolist()))
        exp = {(i // 2, i % 2) for i in got if i < 2 * n}
        check(pairs == exp, "%s: cells %s selected, expected %s", kind, sorted(pairs), sorted(exp))
        # bounding box
        bb = np.asarray(reg.bounding_box)
        check(bb.shape == (2, 4), "bounding box has shape %s", bb.shape)
        ph = np.linspace(0, 2 * np.pi, 60)
        if kind == "circle":
            ex = (ra - r / cc, ra + r / cc, dec - r, dec + r)
        else:
            ex = (ra - w, ra + w, dec - h, dec + h)
        tol = 2e-4 * np.array([ex[1] - ex[0], ex[1] - ex[0], ex[3] - ex[2], ex[3] - ex[2]])
        box = np.array([bb[0].min(), bb[0].max(), bb[1].min(), bb[1].max()])
        check(np.all(np.abs(box - ex) < tol), "%s: bounding box %s, expected %s", kind, box.tolist(), list(ex))
        cor = {(round(float(a == bb[0].max())), round(float(b == bb[1].max()))) for a, b in bb.T}
        check(len(cor) == 4, "bounding box has repeated corners")
        # consecutive corners share an edge, so that the box is a proper polygon
        for k in range(4):
            a, b = bb[:, k], bb[:, (k + 1) % 4]
            check((a[0] == b[0]) != (a[1] == b[1]), "bounding box corners are not in order")
    info.trivial_if(ins == 0)
    info.label("atRA0" if abs((case["ra0"] + 180) % 360 - 180) < 0.01 else "field")
    # overlap with an image
    nx, ny = e["nx"], e["ny"]
    hdr["NAXIS1"], hdr["NAXIS2"] = nx, ny
    ira, idec = wcs.all_pix2world([0, nx, nx, 0], [0, 0, ny, ny], 0)
    ira = (ira - ra + 180) % 360 - 180 + ra
    for reg in (circ, rect):
        bb = np.asarray(reg.bounding_box)
        gap = max(bb[0].min() - ira.max(), ira.min() - bb[0].max(), bb[1].min() - idec.max(), idec.min() - bb[1].max())
        if abs(gap) < 1e-3 * s:
            continue
        check(bool(reg.overlaps(hdr)) == (gap < 0), "overlaps() says %s for boxes %s apart", reg.overlaps(hdr), gap)
        info.label("overlap" if gap < 0 else "apart")


# ---------------------------------------------------------------- polygons

def convex(seed, n, spread):
    rs = np.random.RandomState(seed)
    a = np.sort(rs.uniform(0, 2 * np.pi, n))
    # keep vertices apart, and the centre inside
    a = (a + np.arange(n) * 2 * np.pi / n) / 2
    p = np.stack([np.cos(a), np.sin(a)], 1) * rs.uniform(0.5, 3)
    sh = np.array([[1, rs.uniform(-1, 1)], [rs.uniform(-0.5, 0.5), 1]])
    return np.round(p @ sh + rs.uniform(-spread, spread, 2), 3)


def poly_case():
    return st.fixed_dictionaries(dict(a=st.integers(0, 99999), b=st.integers(0, 99999), na=st.integers(3, 7), nb=st.integers(3, 7),
                                      spread=st.sampled_from([0.5, 2.0, 4.0]), rev=st.booleans(), roll=st.integers(0, 6),
                                      pts=st.lists(st.tuples(L.rnd(-1.6, 1.6, 3), L.rnd(-1.6, 1.6, 3)).map(list), min_size=1, max_size=10)))


def F(p):
    return [(Fraction(str(x)), Fraction(str(y))) for x, y in p]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def is_convex(p):
    n = len(p)
    s = [cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) for i in range(n)]
    return all(v > 0 for v in s) or all(v < 0 for v in s)


def side(p, q):
    """1 inside, -1 outside, 0 on the boundary (exact)."""
    n = len(p)
    s = [cross(p[i], p[(i + 1) % n], q) for i in range(n)]
    if cross(p[0], p[1], p[2]) < 0:
        s = [-v for v in s]
    if all(v > 0 for v in s):
        return 1
    return -1 if any(v < 0 for v in s) else 0


def clip(p, q):
    """Area of the intersection of two convex polygons, exactly (Sutherland-Hodgman)."""
    if cross(q[0], q[1], q[2]) < 0:
        q = q[::-1]
    out = list(p)
    for i in range(len(q)):
        a, b = q[i], q[(i + 1) % len(q)]
        inp, out = out, []
        for j in range(len(inp)):
            c, d = inp[j], inp[(j + 1) % len(inp)]
            sc, sd = cross(a, b, c), cross(a, b, d)
            if sc >= 0:
                out.append(c)
            if (sc > 0 and sd < 0) or (sc < 0 and sd > 0):
                t = sc / (sc - sd)
                out.append((c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])))
        if not out:
            return Fraction(0), False
    return abs(sum(out[i][0] * out[(i + 1) % len(out)][1] - out[i][1] * out[(i + 1) % len(out)][0] for i in range(len(out)))) / 2, True


def poly_body(case, info):
    from forcepho.region import polygon_contains, polygons_overlap

    A, B = convex(case["a"], case["na"], case["spread"]), convex(case["b"], case["nb"], case["spread"])
    fa, fb = F(A.tolist()), F(B.tolist())
    if not (is_convex(fa) and is_convex(fb)):
        info.trivial_if(True)
        return
    tr = (lambda p: np.roll(p[::-1] if case["rev"] else p, case["roll"], axis=0))
    A2 = tr(A)
    c = A.mean(0)
    pts = np.round(c + np.array(case["pts"]) * np.ptp(A, axis=0) / 2, 3)
    got = np.asarray(polygon_contains(A2, pts))
    check(got.shape == (len(pts),), "one answer per point expected, got %s", got.shape)
    ni = 0
    for p, g in zip(pts, got):
        s = side(fa, F([p.tolist()])[0])
        if s == 0:
            continue
        k = [abs(float(cross(fa[i], fa[(i + 1) % len(fa)], F([p.tolist()])[0]))) for i in range(len(fa))]
        if min(k) < 1e-9:
            continue
        check(bool(g) == (s > 0), "polygon_contains says %s for a point that is %s", g, "inside" if s > 0 else "outside")
        ni += s > 0

    class R:
        def __init__(self, p):
            self.bounding_box = np.array(p).T
    area, touch = clip(fa, fb)
    if area == 0 and touch:
        return
    want = area > 0
    if want and area < Fraction(1, 10**9):
        return
    for x, y in ((A, B), (B, A), (A[::-1], B[::-1]), (A2, B)):
        g = polygons_overlap(R(x), R(y))
        check(bool(g) == want, "polygons_overlap says %s, common area %s", g, float(area))
    info.label("overlap" if want else "apart", "inside" if ni else "no-inside")


def subs():
    return [
        Sub("regions", region_case, region_body, quick=1600, shards=4, budget=45,
            rule="circles and rectangles on rotated, mirrored images; points, cells, bounding boxes and image overlaps",
            nontrivial_rule="at least one point inside"),
        Sub("polygons", poly_case, poly_body, quick=2500, shards=3, budget=45,
            rule="convex polygons in any vertex order; exact rational containment and intersection area"),
    ]
