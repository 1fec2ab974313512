"""C30 tiles read back: the model of a tile puts its pixels where the source image's model does."""

import math

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from checks import c04, c05
from checks.c14 import win
from lib import rasters, tres
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats
from aws.osml.gdal.gdal_utils import load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from aws.osml.gdal.sensor_model_factory import SensorModelFactory, SensorModelTypes
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, geodetic_to_geocentric

check = Check(
    "C30",
    "A tile read back places its pixels where the source image places them",
    [
        "NITF tiles: RPC00B stores whole pixels of offset and scale, so a pixel per unit of the offset and scale that is not whole; IGEOLO stores whole seconds of arc",
        "GDAL adjusts RPC metadata to the window when it copies an image and writes it to NITF tiles",
    ],
)

frac = rfl(0, 1, 3)
window = st.tuples(frac, frac, frac, frac)
points = st.lists(st.tuples(frac, frac), min_size=1, max_size=4)
tilings = st.lists(st.tuples(window, st.none() | st.tuples(st.integers(8, 90), st.integers(8, 90))), min_size=1, max_size=3)


class Tile:
    def __init__(self, buf):
        if buf is None:
            fail("no tile")
        self.path = rasters.temp(".bin")
        self.buf = bytes(buf)
        gdal.FileFromMemBuffer(self.path, self.buf)

    def __enter__(self):
        self.ds, self.model = load_gdal_dataset(self.path)
        return self

    def __exit__(self, *a):
        self.ds = None
        rasters.unlink(self.path)
        rasters.unlink(self.path + ".aux.xml")


def blank(w, h, jpeg=False):
    """pixels of images of many kinds: one to six bands, several types"""
    if jpeg:
        return np.zeros((1 + 2 * (w % 2), h, w), dtype=np.uint8)
    return np.zeros((1 + w % 6, h, w), dtype=["uint8", "uint16", "int16", "float32"][h % 4])


def rpc_image(cam, w, h, chip=None):
    """an NITF image with RPC00B, or None when the camera does not fit the fields of the record"""
    cam = dict(cam, cols=max(600, min(cam["cols"], 4000)), rows=max(600, min(cam["rows"], 4000)), gsd=max(cam["gsd"], 2.0))
    _, p, polys = c05.build(cam)
    p["height_scale"] = round(p["height_scale"])
    raw, p, polys = tres.raw_rpc(p, polys)
    if min(p["lat_scale"], p["long_scale"]) < 0.002:
        return None
    opts = ["TRE=RPC00B=" + raw]
    if chip:
        x0, y0, k = chip
        fi = [(x0, y0), (x0 + w * k, y0), (x0, y0 + h * k), (x0 + w * k, y0 + h * k)]
        op = [(0, 0), (w, 0), (0, h), (w, h)]
        opts.append("TRE=ICHIPB=" + tres.raw_ichipb(op, fi, (cam["cols"], cam["rows"])))
    src, _ = rasters.dataset(blank(w, h))
    path = rasters.temp(".ntf")
    gdal.GetDriverByName("NITF").CreateCopy(path, src, options=opts)
    return path


def windows(tiling, w, h, least=8):
    for wf, size in tiling:
        x, y, sw, sh = win(wf, w, h)
        sw, sh = max(sw, least), max(sh, least)
        x, y = min(x, w - sw), min(y, h - sh)
        yield x, y, sw, sh, size or (sw, sh)


@check.sub(
    "rpc",
    st.tuples(c05.camera(), st.integers(30, 300), st.integers(30, 300), tilings, points),
    quick=100,
    shards=4,
    rule="a window that does not start at the image origin, or a resized tile",
)
def rpc(case):
    """NITF tiles of images with RPC00B"""
    cam, w, h, tiling, pts = case
    path = rpc_image(cam, w, h)
    if path is None:
        return False
    moved = False
    try:
        ds, m = load_gdal_dataset(path)
        f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions.NONE)
        for x, y, sw, sh, size in windows(tiling, w, h):
            fx, fy = size[0] / sw, size[1] / sh
            # LINE_OFF, SAMP_OFF and the scales are whole numbers; a scale of S pixels that is rounded moves a point
            # that is d pixels from the offset by d / 2S
            tol = 1e-3 if (fx, fy) == (1, 1) else 2.1
            with Tile(f.create_encoded_tile([x, y, sw, sh], size)) as t:
                if t.model is None:
                    fail("no model from a tile of an image with RPC00B")
                if (t.ds.RasterXSize, t.ds.RasterYSize) != tuple(size):
                    fail("tile size")
                for a, b in pts:
                    # a ground point near the tile
                    c = m.image_to_world(ImageCoordinate([x + a * sw, y + b * sh]))
                    c = GeodeticWorldCoordinate([c.longitude, c.latitude, c.elevation + 20 * (a - b)])
                    s = m.world_to_image(c)
                    want = ((s.x - x) * fx, (s.y - y) * fy)
                    q = t.model.world_to_image(c)
                    if not math.hypot(q.x - want[0], q.y - want[1]) <= tol:
                        fail(
                            "window %r as %r: (%r, %r, %r) is at (%r, %r) of the tile by its own model, at (%r, %r) by the image's",
                            [x, y, sw, sh], size, c.longitude, c.latitude, c.elevation, q.x, q.y, *want,
                        )  # fmt: skip
            moved = moved or x + y > 0 or fx != 1
        ds = None
    finally:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return moved


EPSG = [4326, 3857, 32633, 32719, 3413, 3031]


@check.sub(
    "map",
    st.tuples(
        st.integers(0, len(EPSG) - 1),
        rfl(0.1, 0.9),
        rfl(0.1, 0.9),
        rfl(0.3, 60),
        st.one_of(st.just(0.0), rfl(-3.14, 3.14)),
        st.booleans(),
        st.integers(10, 200),
        st.integers(10, 200),
        st.sampled_from([None, "NONE", "LZW"]),
        tilings,
        points,
    ),
    quick=150,
    shards=2,
    rule="a window that does not start at the image origin, or a resized tile",
)
def mapped(case):
    """GeoTIFF tiles of images with a geotransform, or with ground control points"""
    k, fx, fy, gsd, ang, gcps, w, h, comp, tiling, pts = case
    wkt, area, unit = None, None, None
    for epsg, area, unit in c04.CRS:
        if epsg == EPSG[k]:
            break
    wkt, to_geo, from_geo = c04.transforms(EPSG[k], 0)
    cx, cy, _ = from_geo.TransformPoint(area[0] + fx * (area[2] - area[0]), area[1] + fy * (area[3] - area[1]))
    res = gsd / unit
    c, s = math.cos(ang) * res, math.sin(ang) * res
    gt = [cx, c, s, cy, s, -c]
    ds, path = rasters.dataset(blank(w, h, comp == "JPEG"), "GTiff", None if gcps else gt, None if gcps else wkt)
    if gcps:
        ds = gdal.GetDriverByName("MEM").CreateCopy("", ds)
        marks = []
        for x, y in ((0, 0), (w, 0), (w, h), (0, h)):
            lon, lat, _ = to_geo.TransformPoint(gt[0] + x * gt[1] + y * gt[2], gt[3] + x * gt[4] + y * gt[5])
            marks.append(gdal.GCP(lon, lat, 10.0, x, y))
        lons = [g.GCPX for g in marks]
        if max(lons) - min(lons) > 90:
            return False
        ds.SetGCPs(marks, c04.transforms(4326, 0)[0])
        rasters.unlink(path)
        path = rasters.temp(".tif")
        gdal.GetDriverByName("GTiff").CreateCopy(path, ds)
        ds = None
    moved = False
    try:
        ds, m = load_gdal_dataset(path)
        if m is None:
            fail("no model")
        f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.GTIFF, tile_compression=comp and GDALCompressionOptions[comp])
        for x, y, sw, sh, size in windows(tiling, w, h):
            fx, fy = size[0] / sw, size[1] / sh
            with Tile(f.create_encoded_tile([x, y, sw, sh], size)) as t:
                if t.model is None:
                    fail("no model from a tile of an image with a model")
                for a, b in pts:
                    want = m.image_to_world(ImageCoordinate([x + a * sw, y + b * sh]))
                    got = t.model.image_to_world(ImageCoordinate([a * size[0], b * size[1]]))
                    d = metres(want, got)
                    if not d <= 1e-3 * gsd + 1e-6:
                        fail("window %r as %r: the tile's (%r, %r) is %r metres from where the image has it", [x, y, sw, sh], size, a * size[0], b * size[1], d)
            moved = moved or x + y > 0 or fx != 1
        ds = None
    finally:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return moved


def metres(a, b):
    pa, pb = geodetic_to_geocentric(a), geodetic_to_geocentric(b)
    return math.dist([pa.x, pa.y], [pb.x, pb.y]) if a.elevation is None else math.dist([pa.x, pa.y, pa.z], [pb.x, pb.y, pb.z])


@check.sub(
    "corners",
    st.tuples(rfl(-179, 178), rfl(-85, 85), rfl(20, 3000), rfl(0.4, 2.5), st.booleans(), st.integers(10, 120), st.integers(10, 120), tilings, points),
    quick=150,
    shards=2,
    rule="a window that does not start at the image origin, or a resized tile",
)
def corners(case):
    """NITF tiles of images with a geotransform are located by their corners"""
    lon, lat, gsd, aspect, gtiff, w, h, tiling, pts = case
    res = gsd / 111319.49
    h = max(10, min(h, int((lat + 89.5) / (res * aspect))))
    w = max(10, min(w, int((179.5 - lon) / res)))
    gt = [lon, res, 0, lat, 0, -res * aspect]
    wkt = c04.transforms(4326, 0)[0]
    ds, path = rasters.dataset(blank(w, h), "GTiff" if gtiff else "MEM", gt, wkt)
    m = SensorModelFactory(w, h, geo_transform=gt, proj_wkt=wkt, selected_sensor_model_types=[SensorModelTypes.AFFINE]).build()
    f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions.NONE)
    moved = False
    for x, y, sw, sh, size in windows(tiling, w, h):
        with Tile(f.create_encoded_tile([x, y, sw, sh], size)) as t:
            if t.model is None:
                fail("no model from a tile of an image with a model")
            for a, b in pts:
                want = m.image_to_world(ImageCoordinate([x + a * sw, y + b * sh]))
                got = t.model.image_to_world(ImageCoordinate([a * size[0], b * size[1]]))
                # whole seconds of arc at the corners, and up to a pixel (of the window or of the tile) at the edges
                k = max(1, sw / size[0], sh / size[1])
                for n, step in (("longitude", res), ("latitude", res * aspect)):
                    close(getattr(got, n), getattr(want, n), math.radians(1.0 / 3600 + 1.01 * step * k), what=n + " in a tile")
        moved = moved or x + y > 0 or size != (sw, sh)
    ds = None
    if path:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return moved


@check.known_finding(
    "chipped-image-tile",
    "a NITF tile of an image that is itself a chip (RPC00B and ICHIPB, chip starting at (100, 60) of the full image) carries the "
    "full image's RPCs: its own model is off by the chip's offset",
)
def chipped():
    cam = dict(gsd=5.0, cols=900, rows=800, lat=35.0, lon=20.0, ang=0.3, hoff=100.0, hscale=500.0, hx=0.1, hy=0.2, hi=[0.0] * 80, c0=(0.0, 0.0), k=0.0005)
    path = rpc_image(cam, 300, 200, chip=(100, 60, 1))
    try:
        ds, m = load_gdal_dataset(path)
        f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions.NONE)
        with Tile(f.create_encoded_tile([20, 10, 64, 64])) as t:
            c = m.image_to_world(ImageCoordinate([40, 40]))
            q = t.model.world_to_image(c)
            ds = None
            return math.hypot(q.x - 120, q.y - 90) < 0.1  # instead of (20, 30)
    finally:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
