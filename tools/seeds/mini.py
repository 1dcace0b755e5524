"""Small scenes for demonstrations: FITS images, a PSF store and the package's spline table in a scratch folder."""
import atexit, os, shutil, sys, tempfile, warnings
import numpy as np, h5py
from astropy.io import fits
warnings.simplefilter("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)
SPLINE = os.path.join(os.getcwd(), "demo/data/sersic_splinedata_large.h5")
if not os.path.exists(SPLINE):
    import glob
    c = glob.glob(os.path.join(os.getcwd(), "**", "sersic_splinedata_large.h5"), recursive=True)
    SPLINE = c[0]
RA0, DEC0 = 53.0, -27.0


def header(nx, ny, band, rot=0.0, scale=0.06, dx=0, dy=0, ra0=RA0, dec0=DEC0):
    h = fits.Header()
    t = np.deg2rad(rot)
    M = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]) @ np.diag([-scale, scale]) / 3600
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CRVAL1"], h["CRVAL2"], h["CRPIX1"], h["CRPIX2"] = ra0, dec0, nx / 2 + dx, ny / 2 + dy
    h["CUNIT1"] = h["CUNIT2"] = "deg"
    h["CD1_1"], h["CD1_2"], h["CD2_1"], h["CD2_2"] = M.ravel()
    h["FILTER"] = band
    return h


def image(name, nx, ny, band, data=None, unc=None, seed=0, **kw):
    rs = np.random.RandomState(seed)
    d = rs.normal(size=(nx, ny)).astype(np.float32) if data is None else np.asarray(data, np.float32)
    u = np.ones((nx, ny), np.float32) if unc is None else np.asarray(unc, np.float32)
    h = header(nx, ny, band, **kw)
    fn = os.path.join(TMP, name)
    fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(d.T, header=h, name="SCI"), fits.ImageHDU(u.T, header=h, name="ERR")]).writeto(fn, overwrite=True)
    return fn


def psfstore(bands, nrad, name="psf.h5", sig=1.2):
    fn = os.path.join(TMP, name)
    dt = [(c, np.float32) for c in ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"]] + [("sersic_bin", np.int32)]
    with h5py.File(fn, "w") as h:
        for i, b in enumerate(bands):
            s = (sig + 0.4 * i) ** 2
            t = np.array([(1.0, 0.0, 0.0, s, s, 0.0, k) for k in range(nrad)], dtype=dt)
            g = h.create_group(b)
            g.create_dataset("parameters", data=t[None])
            g.attrs["n_psf_per_source"] = len(t)
    return fn


def nrad():
    with h5py.File(SPLINE, "r") as f:
        return len(f["radii"])


def cat(rows, bands):
    """rows: (dx arcsec, dy arcsec, q, pa, sersic, rhalf, flux...)"""
    cols = ["ra", "dec", "q", "pa", "sersic", "rhalf"] + list(bands)
    c = np.zeros(len(rows), dtype=[("id", int), ("source_index", int)] + [(k, float) for k in cols])
    c["id"] = c["source_index"] = np.arange(len(rows))
    for i, r in enumerate(rows):
        c[i]["ra"] = RA0 + r[0] / 3600 / np.cos(np.deg2rad(DEC0))
        c[i]["dec"] = DEC0 + r[1] / 3600
        for k, v in zip(cols[2:], r[2:]):
            c[i][k] = v
    return c


def patcher(files, bands, region=None, **kw):
    from forcepho.patches import FITSPatch, CPUPatchMixin

    class P(FITSPatch, CPUPatchMixin):
        pass
    p = P(fitsfiles=list(files), psfstore=psfstore(bands, nrad()), splinedata=SPLINE, return_residual=True, **kw)
    p.build_patch(region=region, sourcecat=None, allbands=list(bands))
    return p


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)
