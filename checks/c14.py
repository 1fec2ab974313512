"""C14 encoded tiles: pixels, size, bands, independence of tiles."""

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from lib import rasters
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats
from aws.osml.image_processing import GDALTileFactory

check = Check(
    "C14",
    "Encoded tiles contain exactly the pixels of the requested window",
    [
        "lossless encodings (NITF uncompressed, GeoTIFF none/LZW, PNG) without range adjustment; lossy ones are held to a tolerance",
        "GDAL decodes what it encodes; 64-bit and signed 8-bit integer rasters are outside the library's supported types",
    ],
)

F, C = GDALImageFormats, GDALCompressionOptions
LOSSLESS = [
    ("NITF", "NONE"), ("GTIFF", "NONE"), ("GTIFF", "LZW"), ("GTIFF", None), ("PNG", "NONE"), ("PNG", None), ("GTIFF", "J2K"),
]  # fmt: skip
frac = rfl(0, 1, 3)
window = st.tuples(frac, frac, frac, frac)


def win(wf, w, h):
    x, y = min(int(wf[0] * w), w - 1), min(int(wf[1] * h), h - 1)
    return [x, y, max(1, int(round(wf[2] * (w - x)))), max(1, int(round(wf[3] * (h - y))))]


def factory(ds, fmt, comp, **kw):
    if F[fmt].name != fmt or comp is not None and C[comp].name != comp:
        fail("format %s or compression %s is only another name of a different option", fmt, comp)
    return GDALTileFactory(ds, tile_format=F[fmt], tile_compression=None if comp is None else C[comp], **kw)


def encoded_as(t, fmt):
    want = {"NITF": "NITF", "GTIFF": "GTiff", "PNG": "PNG", "JPEG": "JPEG"}[fmt]
    if t.GetDriver().ShortName != want:
        fail("tile format is %s, asked for %s", t.GetDriver().ShortName, fmt)


def compression(t, fmt, comp, dtype):
    """the tile is compressed as requested, or by the documented default of the format"""
    if fmt == "NITF":
        want = {"NONE": "NC", "JPEG": "C3"}.get(comp, "C8")
        if want == "C8" and dtype.startswith("float"):
            want = "NC"  # JPEG 2000 encoders do not take floating point pixels
        got = t.GetMetadataItem("NITF_IC")
    elif fmt == "GTIFF":
        want = {"NONE": "none", "JPEG": "JPEG"}.get(comp, "LZW")
        got = (t.GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE") or "none").replace("YCbCr ", "")
    else:
        return
    if got != want:
        fail("%s tile of %s pixels with compression %s is compressed as %r, expected %r", fmt, dtype, comp, got, want)


image = st.tuples(st.integers(1, 90), st.integers(1, 90), st.integers(1, 5) | st.sampled_from([6, 13]), st.sampled_from(sorted(rasters.TYPES)), st.integers(0, 10**6))


@check.sub(
    "lossless",
    st.tuples(image, st.sampled_from(LOSSLESS), st.sampled_from(["MEM", "GTiff"]), st.lists(window, min_size=1, max_size=5)),
    quick=700,
    shards=4,
    rule="a window that starts away from the image origin",
)
def lossless(case):
    (w, h, nb, dtype, seed), (fmt, comp), driver, wins = case
    if fmt == "PNG":
        dtype = "uint16" if "16" in dtype else "uint8"
        nb = min(nb, 4)
    a = rasters.pixels(seed, nb, h, w, dtype)
    ds, path = rasters.dataset(a, driver)
    f = factory(ds, fmt, comp)
    inner = False
    before = rasters.listing()
    for wf in wins:
        sw = win(wf, w, h)
        keep = list(sw)
        buf = f.create_encoded_tile(sw)
        if buf is None:
            fail("no tile for window %r", sw)
        if list(sw) != keep:
            fail("the caller's window was changed")
        if rasters.listing() != before:
            fail("creating a tile left temporary files behind: %r", sorted(rasters.listing() - before))
        with rasters.decoded(buf) as t:
            encoded_as(t, fmt)
            if (t.RasterXSize, t.RasterYSize, t.RasterCount) != (sw[2], sw[3], nb):
                fail("tile is %r, asked for %r", (t.RasterXSize, t.RasterYSize, t.RasterCount), (sw[2], sw[3], nb))
            if t.GetRasterBand(1).DataType != rasters.TYPES[dtype]:
                fail("pixel type changed to %s", gdal.GetDataTypeName(t.GetRasterBand(1).DataType))
            compression(t, fmt, comp, dtype)
            got = rasters.array(t)
        want = a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]]
        if not np.array_equal(got, want):
            bad = np.argwhere(got != want)[0]
            fail("%s/%s %s window %r: band %d row %d column %d is %r, the image has %r", fmt, comp, dtype, sw, *bad, got[tuple(bad)], want[tuple(bad)])
        inner = inner or (sw[0] > 0 and sw[1] > 0)
    if not np.array_equal(rasters.array(ds), a):
        fail("the source image was modified")
    ds = None
    if path:
        rasters.unlink(path)
    return inner


@check.sub(
    "complex",
    st.tuples(st.tuples(st.integers(2, 60), st.integers(2, 60), st.integers(1, 2), st.integers(0, 10**6)), st.sampled_from([("GTIFF", "NONE"), ("GTIFF", "LZW"), ("NITF", "NONE")]), st.sampled_from(["complex64", "complex128"]), st.lists(window, min_size=1, max_size=3)),
    quick=100,
    rule="a window that starts away from the image origin",
)
def complex_(case):
    """images of complex pixels, as SAR processors write them to GeoTIFF files"""
    (w, h, nb, seed), (fmt, comp), dtype, wins = case
    if fmt == "NITF":
        dtype = "complex64"  # the only one the format has
    r = np.random.default_rng(seed)
    a = (r.normal(0, 500, (nb, h, w)) + 1j * r.normal(0, 500, (nb, h, w))).astype(dtype)
    ds, _ = rasters.dataset(a)
    f = factory(ds, fmt, comp)
    for wf in wins:
        sw = win(wf, w, h)
        with rasters.decoded(f.create_encoded_tile(sw)) as t:
            got = rasters.array(t)
        want = a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]]
        if got.dtype != want.dtype or got.shape != want.shape or not np.array_equal(got, want):
            fail("%s tile %r of %s pixels: %s %r, other values than the image", fmt, sw, dtype, got.dtype, got.shape)
    return any(wf[0] > 0.2 and wf[1] > 0.2 for wf in wins)


@check.sub(
    "large",
    st.tuples(
        st.tuples(st.integers(500, 2300), st.integers(500, 2300), st.integers(1, 2), st.sampled_from(["uint8", "int16", "uint16"]), st.integers(0, 10**6)),
        st.sampled_from(LOSSLESS[:3] + LOSSLESS[4:5]),
        st.sampled_from(["MEM", "GTiff"]),
        st.lists(window, min_size=1, max_size=2),
    ),
    quick=6,
    shards=2,
    rule="a window that starts away from the image origin; images and tiles of several blocks",
)
def large(case):
    """windows of more than 1024 or 256 pixels, which file formats store in several blocks"""
    return lossless(case)


@check.sub(
    "strips",
    st.tuples(st.integers(33000, 140000), st.integers(1, 3), st.booleans(), st.sampled_from(LOSSLESS[:3] + LOSSLESS[4:5]), st.lists(window, min_size=1, max_size=3), st.integers(0, 10**6)),
    quick=8,
    shards=2,
    rule="a window that starts beyond 32767 pixels",
)
def strips(case):
    """long images: windows beyond the range of 16 bits"""
    n, m, tall, (fmt, comp), wins, seed = case
    w, h = (m, n) if tall else (n, m)
    a = rasters.pixels(seed, 1, h, w, "uint8")
    ds, path = rasters.dataset(a, "MEM")
    f = factory(ds, fmt, comp)
    far = False
    for wf in wins:
        sw = win(wf, w, h)
        if tall:
            sw[3] = min(sw[3], 9000)
        else:
            sw[2] = min(sw[2], 9000)
        with rasters.decoded(f.create_encoded_tile(sw)) as t:
            got = rasters.array(t)
        if not np.array_equal(got, a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]]):
            fail("%s/%s window %r of %d x %d pixels: other pixels", fmt, comp, sw, w, h)
        far = far or max(sw[:2]) > 32767
    return far


@check.sub(
    "resize",
    st.tuples(image, st.sampled_from(LOSSLESS[:4]), window, st.integers(1, 60), st.integers(1, 60), window),
    quick=400,
    shards=2,
    rule="both output dimensions differ from the window",
)
def resize(case):
    (w, h, nb, dtype, seed), (fmt, comp), wf, ow, oh, after = case
    a = rasters.pixels(seed, nb, h, w, dtype)
    ds, _ = rasters.dataset(a)
    f = factory(ds, fmt, comp)
    sw = win(wf, w, h)
    with rasters.decoded(f.create_encoded_tile(sw, (ow, oh))) as t:
        got = rasters.array(t)
    if got.shape != (nb, oh, ow):
        fail("tile is %r, asked for %d x %d", got.shape, ow, oh)
    win_px = a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]]

    def choices(n, size):
        p = (np.arange(n) + 0.5) * size / n
        near = [np.clip(np.floor(p + e), 0, size - 1).astype(int) for e in (-1e-6, 1e-6)]
        return near + [(np.arange(n) * size / n + 1e-6).astype(int)]  # GDAL also takes the first pixel an output pixel covers

    ok = np.zeros(got.shape, dtype=bool)
    for ys in choices(oh, sw[3]):
        for xs in choices(ow, sw[2]):
            ok |= got == win_px[:, ys][:, :, xs]
    if not ok.all():
        b, r, c = np.argwhere(~ok)[0]
        fail("resized tile: band %d row %d column %d is not the nearest pixel of window %r", b, r, c, sw)
    # an output size asked for once does not stick
    sw = win(after, w, h)
    with rasters.decoded(f.create_encoded_tile(sw)) as t:
        if not np.array_equal(rasters.array(t), a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]]):
            fail("a tile after a resized one differs from the image")
    return ow != sw[2] and oh != sw[3]


@check.sub(
    "convert",
    st.tuples(
        st.integers(1, 40),
        st.integers(1, 40),
        st.integers(1, 3),
        st.sampled_from(["uint8", "uint16", "int16", "uint32", "int32"]),
        st.sampled_from(["uint8", "uint16", "int16", "uint32", "int32"]),
        st.integers(0, 10**6),
        st.sampled_from(LOSSLESS[:3]),
        window,
    ),
    quick=300,
    rule="the pixel type changes",
)
def convert(case):
    """without range adjustment the full range of the source type maps linearly onto the full range of the output type"""
    w, h, nb, src, dst, seed, (fmt, comp), wf = case
    a = rasters.pixels(seed, nb, h, w, src)
    ds, _ = rasters.dataset(a)
    sw = win(wf, w, h)
    with rasters.decoded(factory(ds, fmt, comp, output_type=rasters.TYPES[dst]).create_encoded_tile(sw)) as t:
        if t.GetRasterBand(1).DataType != rasters.TYPES[dst]:
            fail("output type was not honoured")
        got = rasters.array(t).astype(float)
    i, o = np.iinfo(src), np.iinfo(dst)
    v = a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]].astype(float)
    want = (v - i.min) / (i.max - i.min) * (float(o.max) - o.min) + o.min
    err = np.abs(got - want).max()
    if not err <= 1.0 + 2e-9 * (float(o.max) - o.min):
        fail("converting %s to %s: largest error %r", src, dst, err)
    return src != dst


LOSSY = [("NITF", "J2K"), ("NITF", None), ("NITF", "JPEG"), ("GTIFF", "JPEG"), ("JPEG", None), ("NITF", "LZW")]


@check.sub(
    "lossy",
    st.tuples(st.integers(64, 200), st.integers(64, 200), st.sampled_from([1, 3]), st.sampled_from(LOSSY), st.integers(0, 10**6), window, st.sampled_from(["uint8", "uint16", "float32", "float64"])),
    quick=200,
    shards=2,
    rule="the window is smaller than the image",
)
def lossy(case):
    w, h, nb, (fmt, comp), seed, wf, dtype = case
    if fmt in ("JPEG",) or comp in ("JPEG", "LZW"):
        dtype = "uint8"
    r = np.random.default_rng(seed)
    yy, xx = np.mgrid[0:h, 0:w]
    top = 200.0 if dtype == "uint8" else 40000.0
    a = np.stack([top * (0.3 + 0.5 * (xx * r.uniform(0, 1) / w + yy * r.uniform(0, 1) / h)) for _ in range(nb)]).astype(dtype)
    ds, _ = rasters.dataset(a)
    sw = win(wf, w, h)
    sw[2], sw[3] = max(sw[2], min(64, w - sw[0])), max(sw[3], min(64, h - sw[1]))
    if sw[2] < 48 or sw[3] < 48:  # in a tiny tile the headers use up the bits a lossy encoder is allowed
        return False
    with rasters.decoded(factory(ds, fmt, comp).create_encoded_tile(sw)) as t:
        if (t.RasterXSize, t.RasterYSize, t.RasterCount) != (sw[2], sw[3], nb):
            fail("tile is %r, asked for %r", (t.RasterXSize, t.RasterYSize, t.RasterCount), (sw[2], sw[3], nb))
        encoded_as(t, fmt)
        compression(t, fmt, comp, dtype)
        got = rasters.array(t).astype(float)
        if dtype.startswith("float"):
            if t.GetRasterBand(1).DataType != rasters.TYPES[dtype]:
                fail("pixel type changed")
    want = a[:, sw[1] : sw[1] + sw[3], sw[0] : sw[0] + sw[2]].astype(float)
    err = np.abs(got - want).max()
    tol = 0.0 if dtype.startswith("float") else 0.12 * top
    if not err <= tol:
        fail("%s/%s: a smooth image is off by %r", fmt, comp, err)
    return sw[2] < w


@check.sub(
    "georeference",
    st.tuples(st.integers(2, 60), st.integers(2, 60), st.tuples(rfl(-170, 170, 3), rfl(-80, 80, 3), rfl(0.0001, 0.01, 5), rfl(0.0001, 0.01, 5)), window),
    quick=150,
    rule="the window does not start at the image origin",
)
def georeference(case):
    w, h, (lon, lat, dx, dy), wf = case
    a = rasters.pixels(1, 1, h, w, "uint8")
    gt = [lon, dx, 0.0, lat, 0.0, -dy]
    ds, _ = rasters.dataset(a, gt=gt)
    sw = win(wf, w, h)
    with rasters.decoded(factory(ds, "GTIFF", "NONE").create_encoded_tile(sw)) as t:
        g = t.GetGeoTransform()
    want = [lon + dx * sw[0], dx, 0.0, lat - dy * sw[1], 0.0, -dy]
    for i in range(6):
        close(g[i], want[i], 1e-9, what=f"geo transform element {i}")
    return sw[0] > 0 or sw[1] > 0
