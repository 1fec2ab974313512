"""C12 GDAL-backed DEM tiles."""

import math
import os

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal, osr

from checks.c10 import bilinear
from lib.pbt import Check
from lib.util import close, dist, ecef, fail, rfl

from aws.osml.gdal import GDALDigitalElevationModelTileFactory
from aws.osml.photogrammetry import (
    DigitalElevationModel,
    DigitalElevationModelTileSet,
    GenericDEMTileSet,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    SRTMTileSet,
)

check = Check(
    "C12",
    "DEM tiles read through GDAL keep every post, its location, and an exact summary",
    ["GDAL itself writes and reads rasters correctly; coordinate operations as PROJ defines them, read through OSR"],
)

TYPES = {
    "int16": gdal.GDT_Int16,
    "int32": gdal.GDT_Int32,
    "float32": gdal.GDT_Float32,
    "float64": gdal.GDT_Float64,
    "uint8": gdal.GDT_Byte,
    "uint16": gdal.GDT_UInt16,
}
gdal.UseExceptions()


def values(w, h, seed, dtype, smooth):
    r = np.random.default_rng(seed)
    g = r.uniform(0, 250, (h, w)) if dtype in ("uint8",) else r.uniform(0 if dtype[0] == "u" else -430, 8000, (h, w))
    if smooth:
        # flat terrain with one isolated peak and pit, easily missed by sampled statistics
        g[:] = 100
        g[r.integers(0, h), r.integers(0, w)] = 240
        g[r.integers(0, h), r.integers(0, w)] = 3
    return np.round(g, 2).astype(dtype)


# CRS of a tile: None (unknown, degrees), EPSG code
PROJECTED = {3857: 111319.49, 32633: 1.0, 32719: 1.0, 3035: 1.0, 3413: 1.0}
_crs = {}


def crs(epsg):
    if epsg not in _crs:
        osr.UseExceptions()
        s, g = osr.SpatialReference(), osr.SpatialReference()
        s.ImportFromEPSG(epsg)
        g.ImportFromEPSG(4326)
        for r in (s, g):
            r.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        _crs[epsg] = (s, osr.CoordinateTransformation(s, g), osr.CoordinateTransformation(g, s))
    return _crs[epsg]


def write(path, g, gt, nodata=None, driver="GTiff", options=(), epsg=None):
    h, w = g.shape
    ds = gdal.GetDriverByName(driver).Create(path, w, h, 1, TYPES[str(g.dtype)], list(options))
    if gt is not None:
        ds.SetGeoTransform(gt)
    if epsg is not None:
        ds.SetProjection(crs(epsg)[0].ExportToWkt())
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds.GetRasterBand(1).WriteArray(g)
    ds.FlushCache()
    ds = None


def scratch():
    return f"/vsimem/c12_{os.getpid()}"


tile = st.fixed_dictionaries(
    {
        "lon": st.integers(-180, 179),
        "lat": st.integers(-88, 87),
        "w": st.integers(2, 40) | st.integers(200, 700),
        "h": st.integers(2, 40) | st.integers(200, 700),
        "seed": st.integers(0, 10**6),
        "dtype": st.sampled_from(sorted(TYPES)),
        "span": st.tuples(rfl(0.05, 2, 3), rfl(0.05, 2, 3)),
        "smooth": st.booleans(),
        "nodata": st.sampled_from([None, None, "unused", "used", "used", "all"]),
        "void": st.sampled_from(["low", "zero"]),
        "crs": st.sampled_from([None, 4326]),
        "tiled": st.booleans(),
        "exceptions": st.booleans(),
    }
)


real = st.sampled_from([1200, 1201, 1801, 3600, 3601])


@check.sub("real_sizes", st.tuples(tile, real, real), quick=12, shards=4, rule="always: tiles of the sizes in which elevation data is distributed")
def real_sizes(case):
    t, w, h = case
    one(dict(t, w=w, h=h))
    return True


@check.sub("tile", tile, quick=400, shards=4, rule="larger than 200 posts in one direction, or with voids")
def one(t):
    g = values(t["w"], t["h"], t["seed"], t["dtype"], t["smooth"])
    nodata = None
    valid = np.ones(g.shape, dtype=bool)
    if t["nodata"]:
        nodata = {"uint8": 255, "uint16": 65535}.get(t["dtype"], -32767)
        if t["void"] == "zero":
            nodata = 0
            g[g == 0] = 1
        if t["nodata"] == "used":
            r = np.random.default_rng(t["seed"] + 1)
            valid = r.uniform(size=g.shape) > 0.3
            valid[0, 0] = True
            g = np.where(valid, g, np.array(nodata, dtype=g.dtype))
        if t["nodata"] == "all":
            g[:] = nodata
    gt = [t["lon"], t["span"][0] / t["w"], 0.0, t["lat"] + t["span"][1], 0.0, -t["span"][1] / t["h"]]
    d = scratch()
    opts = ["TILED=YES", "BLOCKXSIZE=128", "BLOCKYSIZE=128"] if t["tiled"] else []
    write(f"{d}/sub/tile.tif", g, gt, nodata, options=opts, epsg=t["crs"])
    if t["exceptions"]:
        gdal.UseExceptions()
    else:
        gdal.DontUseExceptions()
    try:
        a, m, s = GDALDigitalElevationModelTileFactory(d).get_tile("sub/tile.tif")
        if t["nodata"] == "all":
            if s is not None:
                fail("a summary %s of a tile without any elevation", s)
            return True
        if a is None or m is None or s is None:
            fail("a valid tile could not be read")
        if a.shape != g.shape or not np.array_equal(np.asarray(a), g):
            fail("elevation posts differ from the file")
        for x, y in ((0.5, 0.5), (t["w"] - 0.5, t["h"] - 0.5), (0, 0), (t["w"], t["h"]), (t["w"] * 0.3, t["h"] * 0.8)):
            # (x, y) from the corner of the raster; the first post is at (0.5, 0.5), its grid index is (0, 0)
            w = m.image_to_world(ImageCoordinate([x - 0.5, y - 0.5]))
            close(math.degrees(w.longitude), gt[0] + x * gt[1], 1e-9, what="longitude")
            close(math.degrees(w.latitude), gt[3] + y * gt[5], 1e-9, what="latitude")
            q = m.world_to_image(GeodeticWorldCoordinate([math.radians(gt[0] + x * gt[1]), math.radians(gt[3] + y * gt[5]), 0]))
            close(q.x, x - 0.5, 1e-6, what="column")
            close(q.y, y - 0.5, 1e-6, what="row")
        v = g[valid]
        close(s.min_elevation, v.min(), 1e-6, 1e-7, "minimum elevation")
        close(s.max_elevation, v.max(), 1e-6, 1e-7, "maximum elevation")
        if (s.no_data_value is None) != (nodata is None) or (nodata is not None and s.no_data_value != nodata):
            fail("no data value %r, expected %r", s.no_data_value, nodata)
        c0 = ecef(math.radians(gt[0]), math.radians(gt[3]), 0)
        c1 = ecef(math.radians(gt[0] + t["span"][0]), math.radians(gt[3] - t["span"][1]), 0)
        close(s.post_spacing, dist(c0, c1) / math.hypot(t["w"], t["h"]), 1e-3, 1e-6, "post spacing")
    finally:
        gdal.UseExceptions()
        gdal.RmdirRecursive(d)
    return max(t["w"], t["h"]) >= 200 or t["nodata"] == "used"


@check.sub(
    "projected",
    st.tuples(
        st.sampled_from(sorted(PROJECTED)),
        rfl(0.05, 0.95),
        rfl(0.05, 0.95),
        st.integers(2, 60),
        st.integers(2, 60),
        rfl(5, 900, 2),
        rfl(5, 900, 2),
        st.integers(0, 9999),
        st.lists(st.tuples(rfl(0.02, 0.98, 3), rfl(0.02, 0.98, 3)), min_size=1, max_size=5),
    ),
    quick=60,
    shards=2,
    rule="always",
)
def projected(case):
    """a tile in a projected CRS: its posts are where the CRS puts them, and the DEM interpolates there"""
    epsg, fx, fy, w, h, dx, dy, seed, queries = case
    lon0, lat0, lon1, lat1 = {
        3857: (-179, -75, 179, 75),
        32633: (12.5, 1, 17.5, 80),
        32719: (-71.5, -79, -66.5, -1),
        3035: (0, 38, 22, 60),
        3413: (-90, 62, 0, 85),
    }[epsg]
    _, to_geo, from_geo = crs(epsg)
    cx, cy, _ = from_geo.TransformPoint(lon0 + fx * (lon1 - lon0), lat0 + fy * (lat1 - lat0))
    g = values(w, h, seed, "int16", False)
    gt = [cx - w * dx / 2, dx, 0.0, cy + h * dy / 2, 0.0, -dy]
    d = scratch() + "p"
    write(f"{d}/any.tif", g, gt, epsg=epsg)

    class Everywhere(DigitalElevationModelTileSet):
        def find_tile_id(self, c):
            return "any.tif"

    factory = GDALDigitalElevationModelTileFactory(d)
    try:
        a, m, s = factory.get_tile("any.tif")
        if not np.array_equal(a, g):
            fail("elevation posts differ from the file")
        dem = DigitalElevationModel(Everywhere(), factory)
        place = lambda x, y: [math.radians(v) for v in to_geo.TransformPoint(gt[0] + (x + 0.5) * dx, gt[3] - (y + 0.5) * dy)[:2]]
        for qx, qy in [(0.0, 0.0), (1.0, 1.0)] + [tuple(q) for q in queries]:
            x, y = qx * w - 0.5, qy * h - 0.5
            lon, lat = place(x, y)
            got = m.image_to_world(ImageCoordinate([x, y]))
            near = dist(ecef(lon, lat, 0), ecef(got.longitude, got.latitude, 0))
            if near > 0.01:
                fail("post (%r, %r) is %r m away from where the CRS puts it", x, y, near)
            c = GeodeticWorldCoordinate([lon, lat, -5.0])
            q = m.world_to_image(c)
            close(q.x, x, 0.01, what="column")
            close(q.y, y, 0.01, what="row")
            dem.set_elevation(c)
            # heights change by up to 8430 m from post to post
            close(c.elevation, bilinear(g, x, y), 60.0, what="elevation at post (%.3f, %.3f)" % (x, y))
        c0, c1 = (ecef(*place(*p), 0) for p in ((-0.5, -0.5), (w - 0.5, h - 0.5)))
        close(s.post_spacing, dist(c0, c1) / math.hypot(w, h), 1e-3, 1e-4, "post spacing")
        close(s.min_elevation, g.min(), 1e-6, what="minimum elevation")
        close(s.max_elevation, g.max(), 1e-6, what="maximum elevation")
    finally:
        gdal.RmdirRecursive(d)
    return True


@check.sub(
    "posts",
    st.tuples(
        st.sampled_from(["SRTMHGT", "DTED", "DTED", "point", "area"]),
        st.integers(-179, 178),
        st.integers(-48, 48),
        st.integers(0, 9999),
        st.lists(st.tuples(st.integers(0, 3600), st.integers(0, 3600), st.sampled_from([0.0, 0.0, 0.25, 0.5])), min_size=1, max_size=8),
    ),
    quick=30,
    shards=2,
    rule="always",
)
def posts(case):
    """in the formats of elevation data the posts of a cell lie on its edges and at equal steps between; there the
    elevation is the value of the post"""
    kind, lon, lat, seed, queries = case
    n = {"SRTMHGT": 1201, "DTED": 1201 if seed % 2 else 121}.get(kind, 2 + seed % 60)
    k = 1.0 / (n - 1)
    # neighbouring posts are far apart in height
    g = values(n, n, seed, "int16", False)
    gt = [lon - k / 2, k, 0.0, lat + 1 + k / 2, 0.0, -k]
    d = scratch() + "o"
    name = f"{'S' if lat < 0 else 'N'}{abs(lat):02d}{'W' if lon < 0 else 'E'}{abs(lon):03d}." + {"SRTMHGT": "hgt", "DTED": "dt1" if n > 121 else "dt0"}.get(kind, "tif")
    path = f"{d}/{name}"
    mem = gdal.GetDriverByName("MEM").Create("", n, n, 1, gdal.GDT_Int16)
    mem.SetGeoTransform(gt)
    mem.SetProjection(crs(4326)[0].ExportToWkt())
    mem.GetRasterBand(1).WriteArray(g)
    if kind in ("point", "area"):
        mem.SetMetadataItem("AREA_OR_POINT", kind.capitalize())
    gdal.Mkdir(d, 0o755)
    try:
        gdal.PushErrorHandler("CPLQuietErrorHandler")
        ds = gdal.GetDriverByName({"point": "GTiff", "area": "GTiff"}.get(kind, kind)).CreateCopy(path, mem)
        ds = None

        class Everywhere(DigitalElevationModelTileSet):
            def find_tile_id(self, c):
                return name

        dem = DigitalElevationModel(Everywhere(), GDALDigitalElevationModelTileFactory(d))
        for i, j, f in queries + [(0, 0, 0.0), (n - 1, n - 1, 0.0), (0, n - 1, 0.5)]:
            i, j = i % n, j % n
            x, y = min(i + f, n - 1.0), float(j)
            c = GeodeticWorldCoordinate([math.radians(lon + x * k), math.radians(lat + 1 - y * k), -5.0])
            dem.set_elevation(c)
            close(c.elevation, bilinear(g, x, y), 0.05, what="elevation at post (%r, %r) of a %s tile" % (x, y, kind))
    finally:
        gdal.PopErrorHandler()
        gdal.RmdirRecursive(d)
    return True


@check.sub(
    "unusable",
    st.tuples(st.sampled_from(["missing", "no_transform", "garbage"]), st.booleans(), st.integers(2, 20), st.integers(2, 20)),
    quick=60,
    rule="always",
)
def unusable(case):
    kind, exceptions, w, h = case
    d = scratch() + "u"
    gdal.Mkdir(d, 0o755)
    if kind == "no_transform":
        write(f"{d}/t.tif", values(w, h, 1, "int16", False), None)
    elif kind == "garbage":
        gdal.FileFromMemBuffer(f"{d}/t.tif", b"not a raster at all" * w)
    (gdal.UseExceptions if exceptions else gdal.DontUseExceptions)()
    try:
        gdal.PushErrorHandler("CPLQuietErrorHandler")
        got = GDALDigitalElevationModelTileFactory(d).get_tile("t.tif")
    finally:
        gdal.PopErrorHandler()
        gdal.UseExceptions()
        gdal.RmdirRecursive(d)
    if tuple(got) != (None, None, None):
        fail("an unusable tile (%s) gives %r", kind, [type(v).__name__ for v in got])
    return True


@check.sub(
    "end_to_end",
    st.tuples(
        st.sampled_from(["srtm", "generic"]),
        st.lists(st.tuples(st.integers(-2, 1), st.integers(-2, 1), st.integers(2, 20), st.integers(2, 20), st.integers(0, 999)), min_size=1, max_size=4, unique_by=lambda t: t[:2]),
        st.lists(st.tuples(st.integers(0, 5), rfl(0.001, 0.999, 3), rfl(0.001, 0.999, 3)), min_size=1, max_size=12),
        st.integers(1, 3),
    ),
    quick=150,
    shards=3,
    rule="a query outside the available tiles and one inside",
)
def end_to_end(case):
    """tile set + GDAL factory + DEM on a directory of files, cells without a file keep the elevation"""
    kind, tiles, queries, cache = case
    d = scratch() + "e"
    ts = SRTMTileSet() if kind == "srtm" else GenericDEMTileSet("%lh%ld/%oh%od.tif")
    store = {}
    for lon, lat, w, h, seed in tiles:
        g = values(w, h, seed, "int16", False)
        gt = [lon, 1.0 / w, 0.0, lat + 1.0, 0.0, -1.0 / h]
        ns, ew = ("s" if lat < 0 else "n"), ("w" if lon < 0 else "e")
        name = (
            f"{ns}{abs(lat):02d}_{ew}{abs(lon):03d}_1arc_v3.tif" if kind == "srtm" else f"{ns}{abs(lat):02d}/{ew}{abs(lon):03d}.tif"
        )
        write(f"{d}/{name}", g, gt)
        store[(lon, lat)] = g
    dem = DigitalElevationModel(ts, GDALDigitalElevationModelTileFactory(d), raster_cache_size=cache)
    hit = miss = False
    cells = [t[:2] for t in tiles] + [(3, 3), (-4, 0)]
    try:
        gdal.PushErrorHandler("CPLQuietErrorHandler")
        for k, fx, fy in queries:
            lon, lat = cells[k % len(cells)]
            c = GeodeticWorldCoordinate([math.radians(lon + fx), math.radians(lat + fy), -7.5])
            dem.set_elevation(c)
            g = store.get((lon, lat))
            if g is None:
                miss = True
                if c.elevation != -7.5:
                    fail("elevation changed without a tile")
                if dem.describe_region(c) is not None:
                    fail("summary without a tile")
            else:
                hit = True
                h, w = g.shape
                close(c.elevation, bilinear(g, fx * w - 0.5, (1 - fy) * h - 0.5), 1e-3, what="elevation")
                s = dem.describe_region(c)
                close(s.min_elevation, g.min(), 1e-6, what="minimum")
                close(s.max_elevation, g.max(), 1e-6, what="maximum")
    finally:
        gdal.PopErrorHandler()
        gdal.RmdirRecursive(d)
    return hit and miss


step = st.tuples(st.sampled_from(["ask", "ask", "write", "delete"]), st.integers(0, 1), st.integers(0, 1), st.integers(2, 12), st.integers(0, 999))


@check.sub("history", st.lists(step, min_size=3, max_size=12), quick=200, shards=2, rule="a tile asked for, changed, and asked for again")
def history(steps):
    """what a factory gives is what its directory holds now, whatever it (or another factory) was asked before"""
    d = scratch() + "h"
    names = ["n00/e000.tif", "tile.tif"]
    factories = [GDALDigitalElevationModelTileFactory(f"{d}/{k}") for k in range(2)]
    store, asked, again = {}, {}, False
    for k in range(2):
        gdal.MkdirRecursive(f"{d}/{k}/n00", 0o755)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    try:
        for op, f, n, size, seed in steps + [("ask", f, n, 0, 0) for f in range(2) for n in range(2)]:
            path = f"{d}/{f}/{names[n]}"
            if op == "write":
                if (f, n) in store:
                    gdal.GetDriverByName("GTiff").Delete(path)
                g = values(size, size + 1, seed, "int16", False)
                gt = [f, 1.0 / size, 0.0, n + 1.0, 0.0, -1.0 / (size + 1)]
                write(path, g, gt)
                store[(f, n)] = (g, gt)
            elif op == "delete":
                if (f, n) in store:
                    gdal.GetDriverByName("GTiff").Delete(path)
                    del store[(f, n)]
            else:
                a, m, s = factories[f].get_tile(names[n])
                expected = store.get((f, n))
                if (f, n) in asked and asked[(f, n)] is not expected:
                    again = True
                asked[(f, n)] = expected
                if expected is None:
                    if (a, m, s) != (None, None, None):
                        fail("a tile that is not there gives %r", [type(v).__name__ for v in (a, m, s)])
                    continue
                if a is None or m is None or s is None:
                    fail("a tile that is there could not be read")
                g, gt = expected
                if not np.array_equal(a, g):
                    fail("elevation posts differ from the file")
                w = m.image_to_world(ImageCoordinate([0.5, 0.5]))
                close(math.degrees(w.longitude), gt[0] + gt[1], 1e-9, what="longitude")
                close(math.degrees(w.latitude), gt[3] + gt[5], 1e-9, what="latitude")
                close(s.min_elevation, g.min(), 1e-6, what="minimum elevation")
                close(s.max_elevation, g.max(), 1e-6, what="maximum elevation")
    finally:
        gdal.PopErrorHandler()
        gdal.RmdirRecursive(d)
    return again
