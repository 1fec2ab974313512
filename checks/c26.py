"""C26 choosing a sensor model from whatever metadata an image has."""

import base64
import math
import re
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from lib import rasters, sar, tres
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import SensorModelFactory, SensorModelTypes, load_gdal_dataset
from aws.osml.gdal.gdal_sensor_model_builder import GDALAffineSensorModelBuilder, GDALGCPSensorModelBuilder
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate

check = Check(
    "C26",
    "The best usable sensor model is chosen from the metadata present; unusable metadata is as if absent",
    [
        "precision: SAR metadata, then RSM, then RPC; approximate: CSCRNA corners, then ground control points, then geotransform",
        "ground control points and geotransforms are geographic (degrees)",
        "SIDD is always considered (there is no selectable SIDD type)",
    ],
)

T = SensorModelTypes
APPROX = ["affine", "gcp", "cscrna"]
SOURCES = APPROX + ["rpc", "rsm", "ichipb", "sicd", "sidd"]
TYPE = {"affine": "AFFINE", "gcp": "PROJECTIVE", "cscrna": "PROJECTIVE", "rpc": "RPC", "rsm": "RSM", "sicd": "SICD"}
W, H = 3000, 2000  # full image
CHIP = (400, 300, 1000, 800)  # x, y, w, h of the chip inside it


class World:
    """all the metadata of one image, every source with its own offset so that it can be recognised"""

    def __init__(self, s):
        self.sc = sar.Scene(s)
        self.lon, self.lat = s["lon"], s["lat"]
        self.k = 1.0 / 111319.49  # about a metre per pixel
        self.kx = self.k / math.cos(math.radians(self.lat))

    def ground(self, x, y, n):
        """degrees of pixel (x, y) of the full image as source n describes it"""
        return self.lon + (x - W / 2 - 23 * n) * self.kx, self.lat - (y - H / 2 + 31 * n) * self.k

    def affine(self):
        lon, lat = self.ground(0, 0, 1)
        return [lon, self.kx, 0.0, lat, 0.0, -self.k]

    def gcps(self, n=4):
        pts = [(0, 0), (W, 0), (W, H), (0, H), (W / 2, H / 3), (W / 4, H / 2)][:n]
        out = []
        for x, y in pts:
            lon, lat = self.ground(x, y, 2)
            out.append(gdal.GCP(lon, lat, 5.0, x, y))
        return out

    def cscrna(self, w, h):
        return tres.cscrna([(*self.ground(x, y, 3), 10.0) for x, y in ((0, 0), (w, 0), (w, h), (0, h))])

    def rpc(self):
        polys = [[0.0] * 20 for _ in range(4)]
        polys[0][2], polys[0][0] = -1.0, 0.03
        polys[2][1], polys[2][0] = 1.0, -0.02
        polys[1][0] = polys[3][0] = 1.0
        s = 1500.0
        p = dict(
            err_bias=1, err_rand=1, line_off=H / 2, samp_off=W / 2, lat_off=self.lat, long_off=self.lon, height_off=self.sc.hae,
            line_scale=s, samp_scale=s, lat_scale=s * self.k, long_scale=s * self.kx, height_scale=500,
        )  # fmt: skip
        return tres.rpc(p, polys)

    def rsm(self):
        lon, lat = math.radians(self.lon), math.radians(self.lat)
        dx, dy = math.radians(0.05) / math.cos(lat), math.radians(0.05)
        v = [(lon + a * dx, lat + b * dy, self.sc.hae + c * 500) for c in (-1, 1) for b in (-1, 1) for a in (-1, 1)]
        pw = (1, 1, 0)
        norm = [H / 2, W / 2, lon, lat, self.sc.hae, 1500.0, 1500.0, math.radians(1500 * self.kx), math.radians(1500 * self.k), 500.0]
        one = ((0, 0, 0), [1.0])
        polys = {"RN": (pw, [-0.05, 0.0, -1.0, 0.0]), "RD": one, "CN": (pw, [0.07, 1.0, 0.0, 0.0]), "CD": one}
        return [tres.rsmida("G", v, (0, H, 0, W)), tres.rsmpca((1, 1), norm, polys)]

    def ichipb(self):
        x, y, w, h = CHIP
        fi = [(x, y), (x + w, y), (x, y + h), (x + w, y + h)]
        op = [(0, 0), (w / 2, 0), (0, h / 2), (w / 2, h / 2)]
        return tres.ichipb(op, fi, (W, H))


def des(name, xml):
    return f'<des name="{name}"><field name="DESVER" value="01" /><field name="DESDATA" value="{base64.b64encode(xml.encode()).decode()}" /></des>'


NOT_REQUIRED = r"IID|EDITION|GRP[XYZ]|PREDICT_CORNERS|\w\wTRMS"


def damage(text, how, pick):
    """make one required piece of a TRE unusable"""
    if how in ("group", "again"):  # a coefficient is missing, or given in place of another
        groups = list(re.finditer(r'<group index="(\d+)">.*?</group>', text))
        if len(groups) > 1:
            m = groups[pick % len(groups)]
            if how == "group":
                return text[: m.start()] + text[m.end() :]
            i = int(m.group(1))
            other = f'<group index="{i - 1 if i else 1}">'
            if text[: m.end()].rfind("<repeated") < m.start() and re.search(other, text):
                return text[: m.start()] + re.sub(r'<group index="\d+">', other, m.group(0)) + text[m.end() :]
        how = "gone"
    if how == "fail":  # the TRE itself says that it is not usable
        if '"SUCCESS" value="1"' in text:
            return text.replace('"SUCCESS" value="1"', '"SUCCESS" value="0"')
        how = "gone"
    fields = [m for m in re.finditer(r'<field name="([^"]*)" value="[^"]*" />', text) if not re.fullmatch(NOT_REQUIRED, m.group(1))]
    m = fields[pick % len(fields)]
    new = {
        "gone": "",
        "blank": f'<field name="{m.group(1)}" value="" />',
        "text": f'<field name="{m.group(1)}" value="- -" />',
        "novalue": f'<field name="{m.group(1)}" />',
    }[how]
    return text[: m.start()] + new + text[m.end() :]


def damage_sar(text, how, pick):
    if how == "gone":
        for t in ("Grid", "Measurement"):
            text = re.sub(rf"<{t}>.*</{t}>", "", text)
        return text
    if how == "blank":
        return text[: len(text) // 2]
    if how == "text":
        return re.sub(r"urn:SI(C|D)D:[0-9.]+", lambda m: f"urn:SI{m.group(1)}D:99.0", text)
    return re.sub(r'(<SI.D xmlns=.*?>).*(</SI.D>)', r"\1\2", text)


def build(world, have, bad, types, gcps=4, order=0, other=False):
    """the model the factory builds from these sources; bad: {source: (how, pick)}"""
    kw = {}
    items = []

    def add(name, parts):
        parts = [parts] if isinstance(parts, str) else list(parts)
        if name in bad:
            how, pick = bad[name]
            i = pick % len(parts)
            parts[i] = damage(parts[i], how, pick // 3)
        items.append("".join(parts))

    chipped = "ichipb" in have and "ichipb" not in bad
    w, h = (CHIP[2] // 2, CHIP[3] // 2) if "ichipb" in have else (W, H)
    if "affine" in have:
        g = world.affine()
        if "affine" in bad:  # not invertible: the corners coincide, or lie on a line
            g = [g[0], 0.0, 0.0, g[3], 0.0, 0.0] if bad["affine"][1] % 2 else [g[0], 1.0, 0.0, g[3], 0.0, 0.0]
        kw["geo_transform"] = g
    if "gcp" in have:
        kw["ground_control_points"] = world.gcps(gcps)
    if "cscrna" in have:
        add("cscrna", world.cscrna(*((W, H) if chipped else (w, h))))
    if "rpc" in have:
        add("rpc", world.rpc())
    if "rsm" in have:
        add("rsm", world.rsm())
    if "ichipb" in have:
        add("ichipb", world.ichipb())
    if other:
        items.append(tres.tre("USE00A", tres.field("ANGLE_TO_NORTH", "10")))
    if items:
        items = items[order % len(items) :] + items[: order % len(items)]
        kw["xml_tres"] = ET.fromstring(tres.tres(*items))
    segs = []
    note = sar.NOTES[order % len(sar.NOTES)]
    if other:
        segs.append(des("XML_DATA_CONTENT", sar.other_xml(note)))
        segs.append(des("TRE_OVERFLOW", "x"))
    for name in ("sidd", "sicd"):
        if name in have:
            x = sar.sidd_xml(world.sc, note=note, plain=name in bad) if name == "sidd" else sar.sicd_xml(world.sc, note, name in bad)
            segs.append(des("XML_DATA_CONTENT", damage_sar(x, *bad[name]) if name in bad else x))
    if other and segs and "sicd" in have and "sicd" not in bad:  # the metadata of a further image: the first one counts
        s2 = dict(world.sc.s, lon=world.lon + 0.01)
        segs.append(des("XML_DATA_CONTENT", sar.sicd_xml(sar.Scene(s2))))
    if segs:
        kw["xml_dess"] = ["<des_list>" + "".join(segs) + "</des_list>"]
    return SensorModelFactory(w, h, selected_sensor_model_types=types, **kw).build()


def choose(have, bad, types, gcps):
    sel = set(TYPE.values()) if types is None else set(types)
    ok = [s for s in have if s not in bad and (s not in TYPE or TYPE[s] in sel) and (s != "gcp" or gcps >= 4)]
    approx = next((s for s in ("cscrna", "gcp", "affine") if s in ok), None)
    precise = next((s for s in ("rsm", "rpc") if s in ok), None)
    first_sar = next((s for s in ("sidd", "sicd") if s in have and (s not in TYPE or TYPE[s] in sel)), None)
    if first_sar in ok:
        precise = first_sar
    return approx, precise


class Opaque(Exception):
    pass


def locate(m, p):
    q = m.world_to_image(p)
    return float(q.x), float(q.y)


# where the ground point (lon, lat) of a world is in its full image according to each source
AT = {
    "affine": (W / 2 + 23, H / 2 - 31),
    "gcp": (W / 2 + 46, H / 2 - 62),
    "cscrna": (W / 2 + 69, H / 2 - 93),
    "rpc": (W / 2 - 30, H / 2 + 45),
    "rsm": (W / 2 + 105, H / 2 - 75),
}


@check.sub(
    "several",
    st.tuples(
        st.lists(st.tuples(sar.scene(("SIDD",)), st.sampled_from(["SIDD", "PLANE", "PFA"]), st.sets(st.sampled_from(SOURCES[:6]), min_size=2).map(sorted), st.booleans()), min_size=1, max_size=3),
        st.lists(st.tuples(st.integers(0, 2), st.none() | st.sets(st.sampled_from([t.name for t in T]), min_size=1).map(sorted), st.booleans()), min_size=2, max_size=6),
    ),
    quick=150,
    shards=2,
    rule="at least two different models, one of them from metadata used before",
)
def several(case):
    """models built in any order from the metadata of a few images, the same metadata more than once, are all right in the end"""
    images, builds = case
    worlds = []
    for s, kind, have, is_sar in images:
        s = dict(s, lat=max(-60.0, min(60.0, s["lat"])), lon=max(-179.0, min(179.0, s["lon"])))
        world = World(s if kind == "SIDD" else dict(s, kind=kind))
        items, kw = [], {}
        if "affine" in have:
            kw["geo_transform"] = world.affine()
        if "gcp" in have:
            kw["ground_control_points"] = world.gcps()
        if "cscrna" in have:
            items.append(world.cscrna(W, H))
        if "rpc" in have:
            items.append(world.rpc())
        if "rsm" in have:
            items += world.rsm()
        if "ichipb" in have:
            items.append(world.ichipb())
        kw["xml_tres"] = ET.fromstring(tres.tres(*items))
        if is_sar:
            have = have + [kind.lower() if kind == "SIDD" else "sicd"]
            kw["xml_dess"] = ["<des_list>" + des("XML_DATA_CONTENT", sar.sidd_xml(world.sc) if kind == "SIDD" else sar.sicd_xml(world.sc)) + "</des_list>"]
        worlds.append((world, have, kw, ET.tostring(kw["xml_tres"])))
    models, used, again = [], {}, False
    for i, types, twice in builds:
        i %= len(worlds)
        world, have, kw, _ = worlds[i]
        t = None if types is None else [T[n] for n in types]
        f = SensorModelFactory(W, H, selected_sensor_model_types=t, **kw)
        m = f.build()
        if twice:
            models.append((i, types, m))
            m = f.build()
        models.append((i, types, m))
        again = again or i in used
        used[i] = 1
    seen = set()
    for i, types, m in models:
        world, have, kw, before = worlds[i]
        if ET.tostring(kw["xml_tres"]) != before:
            fail("building a model changed the metadata it was given")
        approx, precise = choose([h for h in have if h != "ichipb"], {}, types, 4)
        best = precise or approx
        if (m is None) != (best is None):
            fail("a %r from %r selecting %r", m, have, types)
        if m is None:
            continue
        seen.add((i, best))
        lon, lat, h = (math.radians(world.lon), math.radians(world.lat), world.sc.hae)
        if best in ("sicd", "sidd"):
            want = (world.sc.scp_col, world.sc.scp_row) if best == "sidd" else (world.sc.scp_col - world.sc.first[1], world.sc.scp_row - world.sc.first[0])
        else:
            want = AT[best]
            if "ichipb" in have and best in ("cscrna", "rpc", "rsm"):
                want = ((want[0] - CHIP[0]) / 2, (want[1] - CHIP[1]) / 2)
        got = locate(m, GeodeticWorldCoordinate([lon, lat, h]))
        if not math.hypot(got[0] - want[0], got[1] - want[1]) <= 0.05:
            fail("image %d (%r, selecting %r): the point is at %r, expected %r (%s)", i, have, types, got, want, best)
    return again and len(seen) > 1


how = st.tuples(st.sampled_from(["gone", "blank", "text", "novalue", "group", "again", "fail"]), st.integers(0, 500))
scenes = sar.scene(("SIDD",)).map(lambda s: dict(s, lat=max(-60.0, min(60.0, s["lat"])), lon=max(-179.0, min(179.0, s["lon"]))))


@check.sub(
    "choice",
    st.tuples(
        scenes,
        st.sampled_from(["PLANE", "XRGYCR", "PFA"]),
        st.sets(st.sampled_from(SOURCES)).map(sorted) | st.integers(1, 255).map(lambda m: sorted(x for i, x in enumerate(SOURCES) if m >> i & 1)),
        st.dictionaries(st.sampled_from(["affine"] + SOURCES[2:]), how, max_size=2),
        st.none() | st.sets(st.sampled_from([t.name for t in T])).map(sorted),
        st.sampled_from([4, 5, 6, 3, 1]),
        st.integers(0, 20),
        st.booleans(),
    ),
    quick=600,
    shards=6,
    rule="at least two sources of geolocation",
)
def choice(case):
    s, kind, have, bad, types, gcps, order, other = case
    bad = {k: v for k, v in bad.items() if k in have}
    if "sidd" in have and "sicd" in have:
        bad.pop("sidd", None)
    world = World(s)
    if "sicd" in have and "sidd" not in have:
        world.sc = sar.Scene(dict(s, kind=kind))
        world.lon, world.lat = s["lon"], s["lat"]
    m = build(world, have, bad, None if types is None else [T[t] for t in types], gcps, order, other)
    approx, precise = choose(have, bad, types, gcps)
    what = f"from {have}, unusable {bad}, selected {types}, {gcps} control points"
    if approx is None and precise is None:
        if m is not None:
            fail("a model %r %s", type(m).__name__, what)
        return len(have) > 1
    if m is None:
        fail("no model %s, expected %s / %s", what, approx, precise)
    chip = ["ichipb"] if "ichipb" in have else []
    chip_bad = {k: v for k, v in bad.items() if k == "ichipb"}
    best = precise or approx
    single = build(world, [best] + chip, chip_bad, None, max(gcps, 4))
    if single is None:
        fail("no model from %s alone", best)
    c = GeodeticWorldCoordinate([math.radians(world.lon) + 1e-5, math.radians(world.lat) - 1e-5, world.sc.hae])
    got, want = locate(m, c), locate(single, c)
    if not math.hypot(got[0] - want[0], got[1] - want[1]) <= 1e-6 * (1 + abs(want[0]) + abs(want[1])):
        near = {}
        for n in have:
            if n in TYPE or n == "sidd":
                try:
                    near[n] = locate(build(world, [n] + chip, chip_bad, None, max(gcps, 4)), c)
                except Exception:
                    pass
        fail("located at %r %s; %s alone gives %r (all: %r)", got, what, best, want, near)
    if isinstance(m, CompositeSensorModel) != (approx is not None and precise is not None):
        fail("the model is a %s %s", type(m).__name__, what)
    if approx and precise and hasattr(m, "approximate_sensor_model"):
        a = locate(m.approximate_sensor_model, c)
        want = locate(build(world, [approx] + chip, chip_bad, None, max(gcps, 4)), c)
        if not math.hypot(a[0] - want[0], a[1] - want[1]) <= 1e-6 * (1 + abs(want[0]) + abs(want[1])):
            fail("approximate model located at %r %s; %s alone gives %r", a, what, approx, want)
    return len([h for h in have if h != "ichipb"]) > 1


SCENE = {
    "kind": "SIDD", "version": "1.3.0", "lon": 23.5, "lat": -12.25, "hae": 310.0, "graz": 41.0, "logr": 5.2, "az": 77.0, "look": -1,
    "squint": 3.0, "climb": 0.5, "t0": 2.5, "tca": 0.05, "time": (0.4, -0.3, 0.2, 0.7), "rows": 1800, "cols": 2600, "fr": 0.45, "fc": 0.6,
    "rss": 0.8, "css": 0.6, "first": (0, 0), "extra": (0.2, -0.4, 0.6, 0.1), "rot": 63.0, "tilt": 1.5, "skew": 0.0,
}  # fmt: skip
HOWS = ["gone", "blank", "text", "novalue", "fail"]


def combinations():
    """every subset of the sources with everything usable and selected, each one unusable, each one not selected"""
    n = 0
    for mask in range(1, 2 ** len(SOURCES)):
        have = sorted(x for i, x in enumerate(SOURCES) if mask >> i & 1)
        bad = [{}] + [{b: [HOWS[(mask + k) % 5], 7 * mask + k]} for k, b in enumerate(have) if b != "gcp"]
        for b in bad:
            n += 1
            yield [SCENE, ["PLANE", "XRGYCR", "PFA"][n % 3], have, b, None, 4, n % 21, n % 3 == 0]
        for t in sorted({TYPE[x] for x in have if x in TYPE}):
            n += 1
            yield [SCENE, ["PLANE", "XRGYCR", "PFA"][n % 3], have, {}, sorted(x.name for x in T if x.name != t), 4, n % 21, n % 3 == 0]


@check.sub("combinations", None, quick=0, examples=combinations, shards=8, rule="at least two sources of geolocation")
def all_combinations(case):
    return choice(case)


@check.sub(
    "files",
    st.tuples(scenes, st.sampled_from(["none", "affine", "gcp3", "gcp4", "cscrna", "unreadable", "missing", "empty"]), st.sampled_from(["GTiff", "NITF"]), st.integers(1, 40), st.integers(1, 40)),
    quick=150,
    shards=2,
    rule="the file has georeferencing",
)
def files(case):
    """a dataset and its model from a file, an error for what is not an image"""
    s, kind, driver, w, h = case
    world = World(s)
    path = rasters.temp(".tif" if driver == "GTiff" else ".ntf")
    if kind in ("unreadable", "missing", "empty"):
        if kind != "missing":
            gdal.FileFromMemBuffer(path, b"" if kind == "empty" else b"not an image" * w)
        try:
            r = load_gdal_dataset(path)
        except ValueError:
            return False
        finally:
            rasters.unlink(path)
        fail("%s file was loaded: %r", kind, r)
    driver = "GTiff" if kind.startswith("gcp") or kind == "affine" else driver
    px = rasters.pixels(w, 1, h, w, "uint8")
    options = []
    if kind == "cscrna":  # corner points (to 1e-5 degrees): pixels of 100 x 100 m
        driver = "NITF"
        options = ["TRE=CSCRNA=" + tres.raw_cscrna([(*world.ground(100.0 * x, 100.0 * y, 3), 10.0) for x, y in ((0, 0), (w, 0), (w, h), (0, h))])]
    ds = gdal.GetDriverByName(driver).Create(path, w, h, 1, gdal.GDT_Byte, options)
    ds.GetRasterBand(1).WriteArray(px[0])
    srs = 'GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433],AUTHORITY["EPSG","4326"]]'
    if kind == "affine":
        ds.SetGeoTransform(world.affine())
        ds.SetProjection(srs)
    elif kind.startswith("gcp"):
        ds.SetGCPs(world.gcps(int(kind[3])), srs)
    ds = None
    try:
        ds, m = load_gdal_dataset(path)
        if (ds.RasterXSize, ds.RasterYSize) != (w, h) or not np.array_equal(rasters.array(ds), px):
            fail("the dataset is not the image")
        if kind in ("none", "gcp3"):
            if m is not None:
                fail("a model %r without georeferencing (%s)", type(m).__name__, kind)
            return False
        if m is None:
            fail("no model for %s", kind)
        n = 1 if kind == "affine" else 2
        if kind == "cscrna":
            for x, y in ((0.0, 0.0), (w, 0.0), (w, h), (0.0, h), (w / 2, h / 2)):
                lon, lat = world.ground(100.0 * x, 100.0 * y, 3)
                c = m.image_to_world(ImageCoordinate([x, y]))
                close(math.degrees(c.longitude), lon, 4e-5, what="longitude at pixel (%g, %g)" % (x, y))
                close(math.degrees(c.latitude), lat, 4e-5, what="latitude at pixel (%g, %g)" % (x, y))
            return True
        for x, y in ((0.0, 0.0), (w * 10.0, h * 20.0)):
            lon, lat = world.ground(x, y, n)
            q = m.world_to_image(GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 0.0]))
            close(q.x, x, 0.01, what="column")
            close(q.y, y, 0.01, what="row")
    finally:
        ds = None
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return True


@check.sub(
    "builders",
    st.tuples(scenes, st.sampled_from([None, 0, 1, 2, 3, 4, 5, 6]), st.sampled_from(["good", "none", "flat", "line"])),
    quick=100,
    rule="enough control points",
)
def builders(case):
    """the builders of approximate models: nothing from too few control points or a geotransform that cannot be inverted"""
    s, n, affine = case
    world = World(s)
    m = GDALGCPSensorModelBuilder(None if n is None else world.gcps(n)).build()
    if (m is None) != (n is None or n < 4):
        fail("%r control points give %r", n, m)
    if m is not None:
        for x, y in ((0.0, 0.0), (W / 2, H * 0.9)):
            lon, lat = world.ground(x, y, 2)
            q = m.world_to_image(GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 0.0]))
            close(q.x, x, 0.01, what="column")
            close(q.y, y, 0.01, what="row")
    g = world.affine()
    g = {"good": g, "none": None, "flat": [g[0], 0.0, 0.0, g[3], 0.0, 0.0], "line": [g[0], 1.0, 1.0, g[3], 1.0, 1.0]}[affine]
    m = GDALAffineSensorModelBuilder(g).build()
    if (m is None) != (affine != "good"):
        fail("geotransform %r gives %r", g, m)
    return n is not None and n > 3
