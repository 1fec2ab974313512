"""C31 independent work in several threads: deterministic interleavings against the sequential results."""

import copy
import itertools
import math
import random

import geojson
import numpy as np
import shapely.geometry
from hypothesis import strategies as st
from osgeo import gdal

from checks import c05, c06, c12, c14, c17, c21, c22
from checks.c16 import HEADER
from checks.c23 import encode
from lib import geoms, interleave, rasters, sar
from lib.pbt import Check, HarnessError
from lib.util import fail, lat_deg, lon_deg, rfl

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex
from aws.osml.gdal import GDALCompressionOptions, GDALDigitalElevationModelTileFactory, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, load_gdal_dataset
from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.image_processing import GDALTileFactory, quarter_power_image
from aws.osml.image_processing.map_tileset_factory import MapTileSetFactory, WellKnownMapTileSet
from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    DigitalElevationModel,
    GDALAffineSensorModel,
    GenericDEMTileSet,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    SRTMTileSet,
    geocentric_to_geodetic,
    geodetic_to_geocentric,
)

check = Check(
    "C31",
    "Independent work in several threads gives the results it gives one at a time",
    [
        "threads switch between lines of the library's own Python code (not within GDAL, PROJ, numpy or xsdata calls)",
        "every thread works with objects of its own; only sensor models, elevation models, tile sets and spatial indexes, which are queried, are shared",
        "GDALConfigEnv is left out: it sets options of the whole process by definition",
    ],
)

frac = rfl(0, 1, 3)
here = st.tuples(rfl(0.05, 0.95, 3), rfl(0.05, 0.95, 3))


def plain(v):
    """comparable and independent of the objects of the library"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.ndarray):
        return (v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if hasattr(v, "coordinate"):
        return [repr(float(x)) for x in v.coordinate]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [plain(x) for x in v]
    raise HarnessError(f"cannot compare {type(v)}")


def world(lon, lat, h):
    return GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])


# ---- models that are built once and queried: (parameters, build, queries, ask) ---------------------------------------


def rpc_build(c):
    return c05.build(c, True)[0]


def pixels_of(c):
    return [c["cols"], c["rows"]]


def ask_model(m, size, q):
    """both directions of a sensor model"""
    out = []
    for (fx, fy), h in q:
        p = m.image_to_world(ImageCoordinate([fx * size[0], fy * size[1]]), elevation_model=None if h is None else ConstantElevationModel(h))
        out.append(plain(p))
        out.append(plain(m.world_to_image(GeodeticWorldCoordinate(list(p.coordinate)))))
    return out


def rsm_build(s):
    g = c06.Ground(s)
    return c06.Camera(s, g).model(c06.context(s, g)[0])


def sar_build(s):
    sc = sar.Scene(s)
    return SIDDSensorModelBuilder(sar.sidd_xml(sc)).build() if s["kind"] == "SIDD" else SICDSensorModelBuilder(sar.sicd_xml(sc)).build()


def affine_build(p):
    lon, lat, s, ang = p
    return GDALAffineSensorModel([lon, s * math.cos(ang), -s * math.sin(ang), lat, -s * math.sin(ang), -s * math.cos(ang)])


model_q = st.lists(st.tuples(here, st.none() | rfl(-100, 2000, 0)), min_size=1, max_size=3)
MODELS = {
    "rpc": (c05.camera(), rpc_build, pixels_of, st.lists(st.tuples(here, rfl(0, 2000, 0)), min_size=1, max_size=2)),
    "rsm": (c06.scene(), rsm_build, pixels_of, st.lists(st.tuples(here, rfl(0, 2000, 0)), min_size=1, max_size=2)),
    "sar": (sar.scene(("PFA", "RGAZCOMP", "INCA", "XCTYAT", "PLANE", "SIDD")), sar_build, pixels_of, model_q),
    "affine": (st.tuples(rfl(-170, 170, 3), rfl(-80, 80, 3), rfl(0.00001, 0.001, 6), rfl(-3, 3, 2)), affine_build, lambda p: [1000, 1000], model_q),
}


def model_job(name):
    _, build, size, _ = MODELS[name]
    return lambda p: ask_model(build(p[0]), size(p[0]), p[1])


# ---- other work ------------------------------------------------------------------------------------------------------


def coords(p):
    out = []
    for lon, lat, h, spec in p:
        w = world(lon, lat, h)
        g = geodetic_to_geocentric(w)
        out += [plain(g), plain(geocentric_to_geodetic(g)), f"{w:{spec}}", w.to_dms_string()]
    return out


def updates(p):
    s, wins = p
    sc = sar.Scene(s)
    u = SIDDUpdater(sar.sidd_xml(sc)) if s["kind"] == "SIDD" else SICDUpdater(sar.sicd_xml(sc))
    out = []
    for f in wins:
        u.update_image_data_for_chip([int(f[0] * 90), int(f[1] * 90), 2 + int(f[2] * 90), 2 + int(f[3] * 90)], None)
        out.append(u.encode_current_xml())
    return out


def content(buf):
    """what a tile holds; dates and the like in a NITF header are left out"""
    if buf is None:
        return None
    with rasters.decoded(buf) as t:
        md = t.GetMetadata()
        des = [NITFDESAccessor.extract_desdata_xml(s) for s in NITFDESAccessor(t.GetMetadata("xml:DES")).get_segments_by_name("XML_DATA_CONTENT")] if t.GetMetadata("xml:DES") else []
        return plain([t.GetDriver().ShortName, rasters.array(t), {k: md.get(k) for k in ("NITF_IGEOLO", "NITF_ICAT", "NITF_IREP", "NITF_IC", "NITF_ABPP")}, t.GetGeoTransform(), des])


def tiles(p):
    (w, h, nb, dtype, seed), fmt, wins = p
    a = rasters.pixels(seed, nb, h, w, dtype, "small" if dtype.startswith("float") else "full")
    ds, path = rasters.dataset(a)
    f, c, kw = FORMATS[fmt]
    model = affine_build((10.0 + seed % 100, -20.0, 0.001, 0.3)) if f == "NITF" else None
    tf = GDALTileFactory(ds, model, tile_format=GDALImageFormats[f], tile_compression=GDALCompressionOptions[c], **kw)
    out = []
    for wf, size in wins:
        out.append(content(tf.create_encoded_tile(c14.win(wf, w, h), size)))
    return out


FORMATS = {
    "nitf": ("NITF", "NONE", {}),
    "gtiff": ("GTIFF", "LZW", {}),
    "png": ("PNG", "NONE", {"output_type": gdal.GDT_Byte, "range_adjustment": RangeAdjustmentType.MINMAX}),
    "dra": ("PNG", "NONE", {"output_type": gdal.GDT_Byte, "range_adjustment": RangeAdjustmentType.DRA}),
    "jp2": ("NITF", "J2K", {}),
}
# images of one size cut by one grid of tiles, or any
side = st.sampled_from([32, 32, 32, 48]) | st.integers(16, 60)
cut = st.sampled_from([(0.0, 0.0, 1.0, 1.0), (0.0, 0.0, 0.5, 0.5), (0.5, 0.5, 1.0, 1.0)]) | c14.window
tile_p = st.tuples(
    st.tuples(side, side, st.sampled_from([1, 1, 3]), st.sampled_from(["uint8", "uint16"]), st.integers(0, 10**6)),
    st.sampled_from(sorted(FORMATS)),
    st.lists(st.tuples(cut, st.none() | st.tuples(st.integers(2, 40), st.integers(2, 40))), min_size=1, max_size=3),
)


def sar_tiles(p):
    s, seed, wins = p
    s = dict(s, rows=32 + 16 * (s["rows"] % 3), cols=32 + 16 * (s["cols"] % 3))
    sc = sar.Scene(s)
    is_sidd = s["kind"] == "SIDD"
    if is_sidd:
        sc.first = (0, 0)
    xml = sar.sidd_xml(sc) if is_sidd else sar.sicd_xml(sc)
    src, _ = rasters.dataset(rasters.pixels(seed, 1, s["rows"], s["cols"], "uint8") if is_sidd else rasters.pixels(seed, 2, s["rows"], s["cols"], "float32", "small"))
    path = rasters.temp(".ntf")
    gdal.GetDriverByName("NITF").CreateCopy(path, src, options=["ICAT=SAR", "IREP=NODISPLY", "DES=XML_DATA_CONTENT=" + encode(HEADER, "") + xml])
    try:
        ds, model = load_gdal_dataset(path)
        tf = GDALTileFactory(ds, model, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions.NONE)
        out = []
        for wf in wins:
            x, y, w, h = c14.win(wf, s["cols"], s["rows"])
            x, y = min(x, s["cols"] - 2), min(y, s["rows"] - 2)
            out.append(content(tf.create_encoded_tile([x, y, max(2, w), max(2, h)])))
        ds = tf = None
        return out
    finally:
        rasters.unlink(path)


def ortho(p):
    s, i, ts = p
    a, _ = c17.ramp(i)
    m = c17.Model(s, i["w"], i["h"])
    f = GDALTileFactory(c17.make_dataset(a, i["overviews"]), m, tile_format=GDALImageFormats.PNG, range_adjustment=RangeAdjustmentType.NONE)
    out = []
    for t in ts:
        box, size = c17.geo_box(m, i, t)
        buf = f.create_orthophoto_tile(box, size)
        out.append(None if buf is None else bytes(buf))
    return out


_dirs = itertools.count()


def dem(p):
    kind, cells, queries, cache = p
    d = f"{rasters.temp()}_dem{next(_dirs)}"
    ts = SRTMTileSet() if kind == "srtm" else GenericDEMTileSet("%lh%ld/%oh%od.tif")
    for lon, lat, w, h, seed in cells:
        ns, ew = ("s" if lat < 0 else "n"), ("w" if lon < 0 else "e")
        name = f"{ns}{abs(lat):02d}_{ew}{abs(lon):03d}_1arc_v3.tif" if kind == "srtm" else f"{ns}{abs(lat):02d}/{ew}{abs(lon):03d}.tif"
        c12.write(f"{d}/{name}", c12.values(w, h, seed, "int16", False), [lon, 1.0 / w, 0.0, lat + 1.0, 0.0, -1.0 / h])
    out = []
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    try:
        e = DigitalElevationModel(ts, GDALDigitalElevationModelTileFactory(d), raster_cache_size=cache)
        for k, fx, fy in queries:
            lon, lat = cells[k % len(cells)][:2] if k < 5 else (3, 3)
            c = world(lon + fx, lat + fy, -7.5)
            e.set_elevation(c)
            s = e.describe_region(c)
            out.append([plain(c), None if s is None else plain([s.min_elevation, s.max_elevation, s.no_data_value])])
        return out
    finally:
        gdal.PopErrorHandler()
        gdal.RmdirRecursive(d)


def locate(p):
    s, plist, n, em = p
    fs = [geojson.Feature(geometry=None, id=i, properties=copy.deepcopy(q)) for i, q in enumerate(plist)]
    g = Geolocator(ImagedFeaturePropertyAccessor(), c21.Quadratic(s), None if em is None else ConstantElevationModel(em), approximation_grid_size=n)
    g.geolocate_features(fs)
    return geojson.dumps(fs, sort_keys=True)


def index_build(plist):
    fc = geojson.FeatureCollection([geojson.Feature(geometry=None, id=i, properties=copy.deepcopy(q)) for i, q in enumerate(plist)])
    return STRFeature2DSpatialIndex(fc)


def index_ask(index, qs):
    out = []
    for g, d in qs:
        g = shapely.geometry.shape(g)
        out.append(sorted(f["id"] for f in index.find_intersects(g)))
        out.append(sorted(f["id"] for f in index.find_nearest(g, d)))
    return out


index_p = st.lists(c22.image_feature, min_size=1, max_size=12)
index_q = st.lists(st.tuples(c22.query, rfl(0.5, 500, 1)), min_size=1, max_size=3)


def access(p):
    acc = ImagedFeaturePropertyAccessor()
    out = []
    for q in p:
        f = geojson.Feature(geometry=None, properties=copy.deepcopy(q))
        a = acc.find_image_geometry(f)
        out.append(None if a is None else a.wkt)
        acc.set_image_geometry(f, shapely.geometry.Point(1.0, 2.0))
        acc.update_existing_image_geometries(f, shapely.geometry.box(1.0, 2.0, 3.0, 4.0))
        out.append(geojson.dumps(f, sort_keys=True))
    return out


def pyramid(p):
    out = []
    for seed, n in p:
        out.append(plain(quarter_power_image(rasters.pixels(seed, 2, n, n + 1, "float32", "small"))))
    return out


NAMES = sorted(t.value for t in WellKnownMapTileSet)


def map_build(name):
    return MapTileSetFactory.get_for_id(name)


def map_ask(t, qs):
    out = []
    for z, lon, lat in qs:
        tile = t.get_tile_for_location(world(lon, lat, 0.0), z)
        out.append(plain([list(tile.size), list(tile.bounds), [tile.id.tile_matrix, tile.id.tile_row, tile.id.tile_col]]))
        again = t.get_tile(tile.id)
        out.append(plain(list(again.bounds)))
    return out


map_q = st.lists(st.tuples(st.integers(0, 16), lon_deg(), lat_deg(80)), min_size=1, max_size=4)
cell = st.tuples(st.integers(-2, 1), st.integers(-2, 1), st.integers(2, 12), st.integers(2, 12), st.integers(0, 999))
dem_q = st.lists(st.tuples(st.integers(0, 5), rfl(0.001, 0.999, 3), rfl(0.001, 0.999, 3)), min_size=1, max_size=5)
dem_p = st.tuples(st.sampled_from(["srtm", "generic"]), st.lists(cell, min_size=1, max_size=3, unique_by=lambda t: t[:2]), dem_q, st.integers(1, 3))

JOBS = {
    **{k: (st.tuples(v[0], v[3]), model_job(k)) for k, v in MODELS.items()},
    "coords": (st.lists(st.tuples(lon_deg(), lat_deg(), rfl(-100, 9000, 1), st.sampled_from(["%E", "%ld %lm %ls %lh", "%od %om %os %oh", "%d %m %s"])), min_size=1, max_size=3), coords),
    "updates": (st.tuples(sar.scene(("PFA", "INCA", "XCTYAT", "SIDD", "SIDD")), st.lists(cut, min_size=1, max_size=2)), updates),
    "tiles": (tile_p, tiles),
    "sar_tiles": (st.tuples(sar.scene(("PFA", "INCA", "SIDD")), st.integers(0, 9999), st.lists(cut, min_size=1, max_size=2)), sar_tiles),
    "ortho": (st.tuples(c17.scene, c17.shape, st.lists(c17.tile, min_size=1, max_size=2)), ortho),
    "dem": (dem_p, dem),
    "locate": (st.tuples(c21.sensor, st.lists(c21.feature, min_size=1, max_size=4), st.sampled_from([2, 5, 11]), st.none() | rfl(0, 3000, 0)), locate),
    "index": (st.tuples(index_p, index_q), lambda p: index_ask(index_build(p[0]), p[1])),
    "access": (st.lists(c21.feature, min_size=1, max_size=3), access),
    "map": (st.tuples(st.sampled_from(NAMES), map_q), lambda p: map_ask(map_build(p[0]), p[1])),
    "pyramid": (st.lists(st.tuples(st.integers(0, 9999), st.integers(2, 12)), min_size=1, max_size=2), pyramid),
}


def steps(seed, mean):
    """(thread, lines until the next switch), coarser when the work turns out to be long"""
    r = random.Random(seed)
    n = 0
    while True:
        n += 1
        yield r.randrange(64), 1 + int(r.expovariate(1.0 / (mean * (1 if n < 3000 else 40))))


schedule = st.tuples(st.integers(0, 10**6), st.sampled_from([2, 6, 20, 60, 200]))


def outcome(fn):
    try:
        return ("value", fn())
    except HarnessError:
        raise
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:200])


def compare(jobs, expected, order, what):
    results, switches = interleave.run([lambda j=j: [outcome(k) for k in j] for j in jobs], steps(*order))
    for i, ((got, err), want) in enumerate(zip(results, expected)):
        if err is not None:
            raise err
        for j, (g, e) in enumerate(zip(got, want)):
            if g != e:
                fail("%s: step %d of thread %d gave %s, alone %s", what, j, i, brief(g, e), brief(e, g))
    return switches


def brief(a, b):
    """the part of a that differs from b"""
    while isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
        if k is None:
            break
        a, b = a[k], b[k]
    return repr(a)[:160]


@st.composite
def own_work(draw):
    """jobs of two or three threads; threads often do the same kind of work"""
    n = draw(st.sampled_from([2, 2, 3]))
    first = draw(st.sampled_from(sorted(JOBS)))
    out = []
    for _ in range(n):
        thread = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            k = draw(st.sampled_from([first, first, first, *sorted(JOBS)]))
            thread.append([k, draw(JOBS[k][0])])
        out.append(thread)
    return out


@check.sub("own", st.tuples(own_work(), schedule), quick=260, shards=4, rule="threads took turns more than ten times")
def own(case):
    """every thread makes the objects it works with"""
    work, order = case
    jobs = [[lambda k=k, p=p: JOBS[k][1](p) for k, p in thread] for thread in work]
    expected = [[outcome(j) for j in thread] for thread in jobs]
    switches = compare(jobs, expected, order, " | ".join("+".join(k for k, _ in t) for t in work))
    return switches > 10 and all(o[0] == "value" for t in expected for o in t)


SHARED = {
    **{k: (v[0], v[1], v[3], (lambda v: lambda m, p, q: ask_model(m, v[2](p), q))(v)) for k, v in MODELS.items()},
    "index": (index_p, index_build, index_q, lambda m, p, q: index_ask(m, q)),
    "map": (st.sampled_from(NAMES), map_build, map_q, lambda m, p, q: map_ask(m, q)),
}


@st.composite
def shared_work(draw):
    k = draw(st.sampled_from(sorted(SHARED)))
    s = SHARED[k]
    return [k, draw(s[0]), draw(st.lists(s[2], min_size=2, max_size=3))]


@check.sub("shared", st.tuples(shared_work(), schedule), quick=260, shards=4, rule="threads took turns more than ten times")
def shared(case):
    """threads query one model, index or tile set"""
    (k, p, queries), order = case
    _, build, _, ask = SHARED[k]
    m = build(p)
    expected = [[outcome(lambda q=q: ask(build(p), p, q))] for q in queries]
    return compare([[lambda q=q: ask(m, p, q)] for q in queries], expected, order, "shared " + k) > 10
