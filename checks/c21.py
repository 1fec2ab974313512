"""C21 geolocation of features."""

import copy
import math
import random

import geojson
import shapely
import shapely.geometry
from hypothesis import strategies as st

from lib import geoms
from lib.pbt import Check
from lib.surfaces import Nowhere
from lib.util import close, fail, rfl

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
from aws.osml.features.geolocation import LocationGridInterpolator
from aws.osml.photogrammetry import ConstantElevationModel, ElevationModel, GeodeticWorldCoordinate, SensorModel

check = Check(
    "C21",
    "Geolocated features keep their structure and land where the sensor model puts their image shapes",
    [
        "locations are interpolated on a grid over the features' extent: accepted error is the bilinear interpolation bound",
        "geojson keeps 6 decimals",
        "scenes away from the poles",
    ],
)


class Quadratic(SensorModel):
    """lon/lat (degrees) and elevation are quadratic functions of the pixel: every second derivative is known"""

    def __init__(self, s):
        self.s = s

    def at(self, x, y):
        s = self.s
        u, v = x / 1000.0, y / 1000.0
        lon = s["lon"] + 1e-3 * (s["a"][0] * u + s["a"][1] * v + s["q"][0] * u * u + s["q"][1] * v * v + s["q"][2] * u * v)
        lat = s["lat"] + 1e-3 * (s["a"][2] * u + s["a"][3] * v + s["q"][3] * u * u + s["q"][4] * v * v)
        h = s["h"][0] + s["h"][1] * u + s["h"][2] * v + s["h"][3] * u * u
        return lon, lat, h

    def image_to_world(self, c, elevation_model=None, options=None):
        lon, lat, h = self.at(c.x, c.y)
        if lon > 180:
            lon -= 360
        if lon < -180:
            lon += 360
        w = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])
        if elevation_model is not None:
            elevation_model.set_elevation(w)
        return w

    def world_to_image(self, w):
        raise NotImplementedError

    def bound(self, hx, hy):
        """bilinear error bounds for cell size hx, hy (pixels): degrees, degrees, metres"""
        s = self.s
        ux, uy = (hx / 1000.0) ** 2 / 8, (hy / 1000.0) ** 2 / 8
        lon = 1e-3 * (2 * abs(s["q"][0]) * ux + 2 * abs(s["q"][1]) * uy)
        lat = 1e-3 * (2 * abs(s["q"][3]) * ux + 2 * abs(s["q"][4]) * uy)
        return lon, lat, 2 * abs(s["h"][3]) * ux


class Slope(ElevationModel):
    """elevation is a function of the geographic location"""

    def __init__(self, k):
        self.k = k

    def value(self, lon, lat):
        return 100 + self.k * (math.sin(math.radians(lon) * 50) + math.cos(math.radians(lat) * 70))

    def set_elevation(self, w):
        w.elevation = self.value(math.degrees(w.longitude), math.degrees(w.latitude))
        return True

    def describe_region(self, w):
        return None


sensor = st.fixed_dictionaries(
    {
        "lon": st.one_of(rfl(-179.5, 179.5, 3), st.sampled_from([180.0, -180.0, 179.999, -179.9985, 0.0])),
        "lat": rfl(-75, 75, 3),
        "a": st.lists(rfl(-9, 9, 2), min_size=4, max_size=4),
        "q": st.one_of(st.just([0.0] * 5), st.lists(rfl(-0.5, 0.5, 2), min_size=5, max_size=5)),
        "h": st.tuples(rfl(-100, 3000, 0), rfl(-50, 50, 0), rfl(-50, 50, 0), rfl(-10, 10, 0)),
    }
)
feature = st.fixed_dictionaries(
    {},
    optional={
        "imageGeometry": st.one_of(geoms.geometry(), geoms.geometry(), geoms.geometry(), geoms.geometry3(), geoms.empty),
        "imageBBox": geoms.bbox(),
        "geom_imcoords": geoms.polygon(holes=False).map(lambda p: p[0]),
        "detection": geoms.geometry().map(lambda g: {"type": g["type"], "pixelCoordinates": g["coordinates"]}),
        "bounds_imcoords": geoms.bbox(),
        "score": st.just(0.5),
    },
)


def deprecated_shape(p):
    if "geom_imcoords" in p:
        return {"type": "Polygon", "coordinates": [p["geom_imcoords"]]}
    if "detection" in p:
        return {"type": p["detection"]["type"], "coordinates": p["detection"]["pixelCoordinates"]}
    if "bounds_imcoords" in p:
        b = p["bounds_imcoords"]
        return {"box": b}
    return None


OLD = {"type": "LineString", "coordinates": [[1.0, 2.0], [3.0, 4.0]]}


def stretched(p, sx, sy):
    p = copy.deepcopy(p)
    for k in ("imageBBox", "bounds_imcoords"):
        if k in p:
            p[k] = [p[k][0] * sx, p[k][1] * sy, p[k][2] * sx, p[k][3] * sy]
    if p.get("imageGeometry", {}).get("coordinates"):
        p["imageGeometry"]["coordinates"] = geoms.scaled(p["imageGeometry"]["coordinates"], sx, sy)
    if "geom_imcoords" in p:
        p["geom_imcoords"] = geoms.scaled(p["geom_imcoords"], sx, sy)
    if "detection" in p:
        p["detection"]["pixelCoordinates"] = geoms.scaled(p["detection"]["pixelCoordinates"], sx, sy)
    return p


def wrapped(d):
    return (d + 180.0) % 360.0 - 180.0


@check.sub(
    "features",
    st.tuples(
        sensor,
        st.lists(feature, min_size=0, max_size=6),
        st.sampled_from([2, 3, 5, 11, 11, 21]),
        st.none() | rfl(-200, 4000, 1) | st.tuples(st.just("slope"), rfl(0, 500, 0)) | st.just("nowhere"),
        st.booleans(),
        st.sampled_from([(1, 1), (1, 1), (0.002, 1), (1, 0.002), (1, 7), (9, 1), (0.002, 9)]),
        st.integers(0, 63),
        st.none() | st.tuples(st.lists(feature, min_size=1, max_size=3), st.sampled_from([1, 3, 20])),
    ),
    quick=900,
    shards=4,
    rule="at least two features with image shapes",
)
def features(case):
    s, plist, n, em, dep, stretch, located_before, earlier = case
    plist = [stretched(p, *stretch) for p in plist]
    m = Quadratic(s)
    elevation = None
    if isinstance(em, (list, tuple)):
        elevation = Slope(em[1])
    elif em == "nowhere":
        elevation = Nowhere()
    elif em is not None:
        elevation = ConstantElevationModel(em)
    acc = ImagedFeaturePropertyAccessor(allow_deprecated=dep)
    before = [dict(OLD) if located_before >> i & 1 else None for i in range(len(plist))]
    fs = [geojson.Feature(geometry=copy.deepcopy(g), id=i, properties=copy.deepcopy(p)) for i, (p, g) in enumerate(zip(plist, before))]
    objs = list(fs)
    locator = Geolocator(acc, m, elevation, approximation_grid_size=n)
    if earlier:  # other features are located by the same object before
        k = earlier[1]
        locator.geolocate_features([geojson.Feature(geometry=None, properties=stretched(p, k, k)) for p in earlier[0]])
    locator.geolocate_features(fs)
    if len(fs) != len(objs) or any(a is not b for a, b in zip(fs, objs)):
        fail("the list of features was changed")

    # extent of every shape that is located, in pixels
    pts = []
    for p in plist:
        if "imageGeometry" in p:
            pts += geoms.points(p["imageGeometry"].get("coordinates", []))
        if "imageBBox" in p:
            b = p["imageBBox"]
            pts += [b[:2], b[2:]]
        if "imageGeometry" not in p and "imageBBox" not in p and dep:
            d = deprecated_shape(p)
            if d is not None:
                pts += [d["box"][:2], d["box"][2:]] if "box" in d else geoms.points(d["coordinates"])
    if pts:
        ex = [max(q[i] for q in pts) - min(q[i] for q in pts) + 20 for i in (0, 1)]
        tol = m.bound(ex[0] / (n - 1), ex[1] / (n - 1))
    else:
        tol = (0, 0, 0)

    def near(got, xy, what):
        lon, lat, h = m.at(*xy[:2])
        if not -180.0000005 <= got[0] <= 180.0000005:
            fail("%s: longitude %r", what, got[0])
        close(wrapped(got[0] - lon), 0, 1.05 * tol[0] + 1.2e-6, what=what + " longitude error")
        close(got[1], lat, 1.05 * tol[1] + 1.2e-6, what=what + " latitude")
        if elevation is None or em == "nowhere":
            if len(got) > 2:
                close(got[2], h, 1.05 * tol[2] + 2e-6, what=what + " elevation")
        elif len(got) > 2:
            if isinstance(elevation, Slope):
                # elevation belongs to the location that is reported
                slack = elevation.k * 130 * math.radians(2e-6) + 2e-6
                close(got[2], elevation.value(got[0], got[1]), slack, what=what + " elevation")
            else:
                close(got[2], em, 2e-6, what=what + " elevation")

    located = 0
    for i, (f, p) in enumerate(zip(fs, plist)):
        what = f"feature {i}"
        q = dict(f.properties)
        center = [q.pop("center_longitude", None), q.pop("center_latitude", None)]
        if q != p or f.id != i:
            fail("%s: the other properties changed: %r", what, sorted(set(q) ^ set(p)) or "values")
        g = p.get("imageGeometry")
        box = p.get("imageBBox")
        if g is None and box is None and dep:
            g = deprecated_shape(p)
        if g in geoms.EMPTY:
            g = None  # as good as no geometry
        if g is None:
            if f.geometry != before[i]:
                fail("%s: has geometry %r but no image geometry, it was %r", what, f.geometry, before[i])
        else:
            if f.geometry is None:
                fail("%s: no geometry for image shape %r", what, g.get("type", "box"))
            located += 1
            if "box" in g:
                b = g["box"]
                if f.geometry["type"] != "Polygon" or len(f.geometry["coordinates"]) != 1:
                    fail("%s: %r for a bounding box", what, f.geometry)
                image = shapely.geometry.mapping(shapely.geometry.box(*b))["coordinates"]
            else:
                if f.geometry["type"] != g["type"]:
                    fail("%s: type %r, expected %r", what, f.geometry["type"], g["type"])
                image = g["coordinates"]
            a, b = geoms.lists(f.geometry["coordinates"]), geoms.lists(image)

            def walk(x, y, path):
                if y and not isinstance(y[0], list):
                    if len(x) != 3:
                        fail("%s%s: coordinate %r", what, path, x)
                    near(x, y, f"{what} coordinate{path}")
                    return
                if len(x) != len(y):
                    fail("%s%s: %d parts, expected %d", what, path, len(x), len(y))
                for k in range(len(y)):
                    walk(x[k], y[k], f"{path}[{k}]")

            walk(a, b, "")
        if box is None:
            if f.get("bbox") is not None:
                fail("%s: has a bounding box but no image bounding box", what)
        else:
            located += g is None
            corners = [m.at(x, y) for x in (box[0], box[2]) for y in (box[1], box[3])]
            lons, lats = [c[0] for c in corners], [c[1] for c in corners]
            west, south, east, north = f["bbox"]
            close(wrapped(west - min(lons)), 0, 1.05 * tol[0] + 1.2e-6, what=what + " bbox west error")
            close(wrapped(east - max(lons)), 0, 1.05 * tol[0] + 1.2e-6, what=what + " bbox east error")
            close(south, min(lats), 1.05 * tol[1] + 1.2e-6, what=what + " bbox south")
            close(north, max(lats), 1.05 * tol[1] + 1.2e-6, what=what + " bbox north")
        if g is None and box is None:
            if center != [None, None]:
                fail("%s: has a centre but no image shape", what)
            continue
        if g is not None:
            c = shapely.geometry.box(*g["box"]).centroid if "box" in g else shapely.geometry.shape(g).centroid
            c = (c.x, c.y)
        else:
            c = ((box[0] + box[2]) / 2, (box[1] + box[3]) / 2)
        near(center, c, what + " centre")
    return located >= 2


@check.sub(
    "grid",
    st.tuples(
        sensor,
        st.integers(2, 12),
        st.tuples(rfl(-1000, 5000, 1), rfl(-1000, 5000, 1), rfl(5, 4000, 1), rfl(5, 4000, 1)),
        st.lists(st.tuples(rfl(0, 1, 3), rfl(0, 1, 3)), min_size=1, max_size=6),
    ),
    quick=500,
    shards=2,
    rule="the grid has interior nodes",
)
def grid(case):
    s, n, (x, y, w, h), frac = case
    m = Quadratic(s)
    it = LocationGridInterpolator(m, None, x, y, w, h, n)
    pts = [(x + fx * w, y + fy * h, False) for fx, fy in frac]
    pts += [(x + i * w / (n - 1), y + j * h / (n - 1), True) for i in (0, n // 2, n - 1) for j in (0, n // 2, n - 1)]
    b = m.bound(w / (n - 1), h / (n - 1))
    for px, py, node in pts:
        g = it([px, py])
        lon, lat, ht = m.at(px, py)
        k = 0 if node else 1.02
        close(wrapped(math.degrees(g.longitude) - lon), 0, k * b[0] + 1e-9, what="longitude error")
        close(math.degrees(g.latitude), lat, k * b[1] + 1e-9, what="latitude")
        close(g.elevation, ht, k * b[2] + 1e-6, what="elevation")
    return n > 2


part = st.one_of(geoms.geometry(), geoms.geometry(), geoms.empty, st.just({"type": "Point", "coordinates": []}))
nested = st.recursive(part, lambda p: st.builds(lambda g: {"type": "GeometryCollection", "geometries": g}, st.lists(p, max_size=3)), max_leaves=4)


@check.sub(
    "collections",
    st.tuples(sensor, st.lists(nested, min_size=1, max_size=4)),
    quick=300,
    rule="more than one part",
)
def collections(case):
    """geometry collections of any parts, nested ones and parts without coordinates"""
    s, parts = case
    s = dict(s, q=[0.0] * 5, h=[s["h"][0], s["h"][1], s["h"][2], 0])
    m = Quadratic(s)
    f = geojson.Feature(geometry=None, properties={"imageGeometry": {"type": "GeometryCollection", "geometries": parts}})
    Geolocator(ImagedFeaturePropertyAccessor(), m).geolocate_features([f])

    def compare(got, p):
        if got["type"] != p["type"]:
            fail("%r became %r", p, got)
        if p["type"] == "GeometryCollection":
            if [x["type"] for x in got["geometries"]] != [x["type"] for x in p["geometries"]]:
                fail("a collection of %r became %r", [x["type"] for x in p["geometries"]], got)
            for a, b in zip(got["geometries"], p["geometries"]):
                compare(a, b)
            return
        a, b = geoms.points(geoms.lists(got["coordinates"])), geoms.points(p["coordinates"])
        if len(a) != len(b):
            fail("%d coordinates, expected %d", len(a), len(b))
        for x, y in zip(a, b):
            lon, lat, h = m.at(*y)
            close(wrapped(x[0] - lon), 0, 1.2e-6, what="longitude error")
            close(x[1], lat, 1.2e-6, what="latitude")
            close(x[2], h, 2e-6, what="elevation")

    def shown(g):
        return any(shown(x) for x in g["geometries"]) if g["type"] == "GeometryCollection" else g["coordinates"] != []

    if not any(shown(p) for p in parts):
        if f.geometry is not None:
            fail("a geometry %r of nothing", f.geometry)
        return False
    compare(f.geometry, {"type": "GeometryCollection", "geometries": parts})
    return len(parts) > 1


@check.sub(
    "many",
    st.tuples(sensor, st.integers(20, 300), st.integers(0, 10**6), st.sampled_from(["sorted", "reversed", "mixed"]), st.booleans(), st.integers(3, 400)),
    quick=25,
    shards=2,
    rule="always: dozens of features, and a shape of many vertices",
)
def many(case):
    """collections and shapes of the sizes that detectors produce"""
    s, n, seed, order, deprecated, vertices = case
    m = Quadratic(s)
    r = random.Random(seed)
    spots = [(round(r.uniform(0, 4000), 1), round(r.uniform(0, 4000), 1)) for _ in range(n)]
    if order != "mixed":
        spots.sort(reverse=order == "reversed")
    fs, want = [], []
    for i, (x, y) in enumerate(spots):
        kind = r.choice(["point", "box", "both", "none"])
        p = {}
        if kind in ("point", "both"):
            if deprecated and kind == "point":
                p["detection"] = {"type": "Point", "pixelCoordinates": [x, y]}
            else:
                p["imageGeometry"] = {"type": "Point", "coordinates": [x, y]}
        if kind in ("box", "both"):
            p["imageBBox"] = [x, y, x + 7.0, y + 3.0]
        fs.append(geojson.Feature(geometry=None, id=i, properties=p))
        want.append((kind, x, y))
    ring = [[round(2000 + 1500 * math.cos(2 * math.pi * k / vertices), 2), round(2000 + 1500 * math.sin(2 * math.pi * k / vertices), 2)] for k in range(vertices)]
    at = r.randrange(n + 1)
    fs.insert(at, geojson.Feature(geometry=None, id=n, properties={"imageGeometry": {"type": "Polygon", "coordinates": [ring + [ring[0]]]}}))
    want.insert(at, ("ring", 0, 0))
    grid = 5 + seed % 40
    Geolocator(ImagedFeaturePropertyAccessor(), m, approximation_grid_size=grid).geolocate_features(fs)
    tol = [1.05 * t for t in m.bound(4040 / (grid - 1), 4040 / (grid - 1))]
    tol = [tol[0] + 1.2e-6, tol[1] + 1.2e-6, tol[2] + 2e-6]

    def check_point(c, xy, what):
        lon, lat, h = m.at(*xy)
        close(wrapped(c[0] - lon), 0, tol[0], what=what + " longitude error")
        close(c[1], lat, tol[1], what=what + " latitude")
        if len(c) > 2:
            close(c[2], h, tol[2], what=what + " elevation")

    for k, (f, (kind, x, y)) in enumerate(zip(fs, want)):
        what = f"feature {k} of {n + 1}"
        if kind == "ring":
            got = f["geometry"]["coordinates"][0]
            if len(got) != vertices + 1:
                fail("%s: %d vertices, expected %d", what, len(got), vertices + 1)
            for c, xy in zip(got, ring + [ring[0]]):
                check_point(c, xy, what)
            continue
        if kind in ("point", "both"):
            check_point(f["geometry"]["coordinates"], (x, y), what)
        elif f["geometry"] is not None:
            fail("%s without an image geometry got %r", what, f["geometry"])
        if kind in ("box", "both"):
            corners = [m.at(x + dx, y + dy) for dx in (0, 7) for dy in (0, 3)]
            b = f["bbox"]
            lons = [wrapped(c[0] - corners[0][0]) for c in corners]
            close(wrapped(b[0] - corners[0][0]), min(lons), tol[0], what=what + " west")
            close(wrapped(b[2] - corners[0][0]), max(lons), tol[0], what=what + " east")
            close(b[1], min(c[1] for c in corners), tol[1], what=what + " south")
            close(b[3], max(c[1] for c in corners), tol[1], what=what + " north")
        elif "bbox" in f and f["bbox"]:
            fail("%s without an image box got %r", what, f["bbox"])
    return True
