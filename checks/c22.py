"""C22 spatial index of features."""

import copy

import geojson
import numpy as np
import shapely
import shapely.geometry
from hypothesis import strategies as st

from lib import geoms
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex

check = Check(
    "C22",
    "Spatial queries return exactly the features a brute-force scan of their geometries finds",
    ["valid 2D geometries; distances are planar, in pixels or degrees"],
)



def indexed(lo, hi):
    """also what is rare in practice: empty geometries, collections, heights"""
    g = geoms.geometry(lo, hi)
    collection = st.lists(g, min_size=1, max_size=3).map(lambda c: {"type": "GeometryCollection", "geometries": c})
    high = geoms.pt(lo, hi).map(lambda p: {"type": "Point", "coordinates": [*p, 70.0]})
    return st.one_of(g, g, g, g, g, g, g, g, geoms.empty, collection, high)


image_feature = st.fixed_dictionaries(
    {},
    optional={
        "imageGeometry": indexed(0, 400),
        "imageBBox": geoms.bbox(0, 400),
        "geom_imcoords": geoms.polygon(0, 400, holes=False).map(lambda p: p[0]),
        "bounds_imcoords": geoms.bbox(0, 400),
    },
)
geo_feature = st.one_of(st.none(), indexed(-20, 20))
query = st.one_of(geoms.geometry(-50, 450), geoms.geometry(-50, 450), geoms.small(0, 400))
distance = st.none() | rfl(0.5, 500, 1) | st.sampled_from([0.0, 0.001, 1000.0])


def shape_of(p, deprecated):
    """reference priority of the image shapes"""
    if "imageGeometry" in p:
        return shapely.geometry.shape(p["imageGeometry"])
    if "imageBBox" in p:
        return shapely.geometry.box(*p["imageBBox"])
    if deprecated:
        if "geom_imcoords" in p:
            return shapely.geometry.Polygon(p["geom_imcoords"])
        if "bounds_imcoords" in p:
            return shapely.geometry.box(*p["bounds_imcoords"])
    return None


def ids(found, fs):
    out = []
    for f in found:
        k = [i for i, x in enumerate(fs) if x is f]
        if len(k) != 1:
            fail("a result is not one of the indexed feature objects: %r", f)
        out.append(k[0])
    if len(out) != len(set(out)):
        fail("a feature is reported twice: %r", out)
    return set(out)


def verify(index, fs, shapes, q, max_distance, default):
    g = shapely.geometry.shape(q)
    got = ids(index.find_intersects(g), fs)
    want = {i for i, s in enumerate(shapes) if s is not None and s.intersects(g)}
    if got != want:
        fail("query %s: features %r intersect, expected %r", g.wkt[:80], sorted(got), sorted(want))
    try:
        found = index.find_nearest(g) if max_distance is None else index.find_nearest(g, max_distance)
    except ValueError:
        if max_distance == 0:  # the index may refuse this distance
            return False
        raise
    near = ids(found, fs)
    limit = default if max_distance is None else max_distance
    d = {i: s.distance(g) for i, s in enumerate(shapes) if s is not None and not s.is_empty}
    best = min(d.values(), default=None)
    eps = 1e-9
    if best is None or best > limit + eps:
        if near:
            fail("nearest within %r: %r, but the closest feature is at %r", limit, sorted(near), best)
    elif best < limit - eps:
        must = {i for i, v in d.items() if v <= best}
        may = {i for i, v in d.items() if v <= best + eps}
        if not near or not near <= may or (best == 0 and not must <= near):
            fail("nearest: %r, expected %r at distance %r (distances %r)", sorted(near), sorted(must), best, d)
        if not must <= near:
            fail("nearest: %r, ties missing from %r", sorted(near), sorted(must))
    return bool(want) and len(want) < len([s for s in shapes if s is not None])


queries = st.lists(st.tuples(query, distance), min_size=1, max_size=5)


@check.sub(
    "image",
    st.tuples(st.lists(image_feature, min_size=0, max_size=25), queries, st.booleans()),
    quick=600,
    shards=4,
    rule="a query that intersects some but not all features",
)
def image(case):
    plist, qs, dep = case
    # geographic geometries, which play no part here
    decoy = [None, {"type": "Point", "coordinates": [200.0, 200.0]}]
    fs = [geojson.Feature(geometry=copy.deepcopy(decoy[n % 2]), properties=copy.deepcopy(p)) for n, p in enumerate(plist)]
    fc = geojson.FeatureCollection(fs)
    fs = fc.features
    snap = copy.deepcopy(fs)
    index = (
        STRFeature2DSpatialIndex(fc)
        if dep
        else STRFeature2DSpatialIndex(fc, property_accessor=ImagedFeaturePropertyAccessor(allow_deprecated=False))
    )
    shapes = [shape_of(p, dep) for p in plist]
    r = False
    for q, d in qs:
        r |= verify(index, fs, shapes, q, d, 50)
    if fs != snap:
        fail("the features were changed")
    return r


@check.sub(
    "geographic",
    st.tuples(st.lists(geo_feature, min_size=0, max_size=25), st.lists(st.tuples(geoms.geometry(-25, 25) | geoms.small(-20, 20), st.none() | rfl(0.1, 50, 1) | st.sampled_from([0.0, 0.001])), min_size=1, max_size=5)),
    quick=600,
    shards=4,
    rule="a query that intersects some but not all features",
)
def geographic(case):
    glist, qs = case
    fs = [geojson.Feature(geometry=copy.deepcopy(g), properties={"imageBBox": [0, 0, 5, 5]}) for g in glist]
    fc = geojson.FeatureCollection(fs)
    fs = fc.features
    index = STRFeature2DSpatialIndex(fc, use_image_geometries=False)
    shapes = [None if g is None else shapely.geometry.shape(g) for g in glist]
    r = False
    for q, d in qs:
        r |= verify(index, fs, shapes, q, d, 1.0)
    return r


@check.sub(
    "points",
    st.tuples(
        st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)), min_size=1, max_size=60),
        st.lists(st.tuples(rfl(-5, 35, 1), rfl(-5, 35, 1), st.none() | rfl(0.5, 10, 1)), min_size=1, max_size=8),
        st.booleans(),
    ),
    quick=400,
    shards=2,
    rule="more than ten features",
)
def points(case):
    """dense points on a lattice: ties and duplicates"""
    pts, qs, as_image = case
    gs = [{"type": "Point", "coordinates": [float(x), float(y)]} for x, y in pts]
    fc = geojson.FeatureCollection(
        [geojson.Feature(geometry=None if as_image else g, properties={"imageGeometry": g} if as_image else {}) for g in gs]
    )
    index = STRFeature2DSpatialIndex(fc, use_image_geometries=as_image)
    shapes = [shapely.geometry.shape(g) for g in gs]
    for x, y, d in qs:
        verify(index, fc.features, shapes, {"type": "Point", "coordinates": [x, y]}, d, 50 if as_image else 1.0)
    return len(pts) > 10


@check.sub(
    "many",
    st.tuples(st.integers(100, 900), st.integers(0, 10**6), st.booleans(), st.lists(st.tuples(rfl(0, 1, 3), rfl(0, 1, 3), rfl(0.001, 0.4, 3), st.none() | rfl(0.5, 100, 1)), min_size=1, max_size=4)),
    quick=25,
    shards=2,
    rule="always: hundreds of features, so that the tree has several levels",
)
def many(case):
    """collections that do not fit in one node of the index"""
    n, seed, as_image, qs = case
    r = np.random.default_rng(seed)
    size = 400.0 if as_image else 20.0
    at = np.round(r.uniform(0, size, (n, 2)), 3)
    wh = np.round(r.uniform(0.001, size / 20, (n, 2)), 3)
    kind = r.integers(0, 3, n)
    fs, shapes = [], []
    for (x, y), (w, h), k in zip(at.tolist(), wh.tolist(), kind.tolist()):
        g = [
            {"type": "Point", "coordinates": [x, y]},
            {"type": "LineString", "coordinates": [[x, y], [x + w, y + h]]},
            {"type": "Polygon", "coordinates": [[[x, y], [x + w, y], [x + w, y + h], [x, y]]]},
        ][k]
        fs.append(geojson.Feature(geometry=None if as_image else g, properties={"imageGeometry": g} if as_image else {}))
        shapes.append(shapely.geometry.shape(g))
    fc = geojson.FeatureCollection(fs)
    index = STRFeature2DSpatialIndex(fc, use_image_geometries=as_image)
    for fx, fy, span, d in qs:
        x, y = fx * size, fy * size
        box = {"type": "Polygon", "coordinates": [[[x, y], [x + span * size, y], [x + span * size, y + span * size], [x, y + span * size], [x, y]]]}
        verify(index, fc.features, shapes, box, d, 50 if as_image else 1.0)
        verify(index, fc.features, shapes, {"type": "Point", "coordinates": [x, y]}, d, 50 if as_image else 1.0)
    return True
