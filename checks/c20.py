"""C20 image geometry properties of features."""

import copy

import geojson
import shapely
import shapely.geometry
from hypothesis import strategies as st

from lib import geoms
from lib.pbt import Check
from lib.util import fail

from aws.osml.features import ImagedFeaturePropertyAccessor

check = Check(
    "C20",
    "Image geometry properties are found by priority, written faithfully, and updated everywhere they exist",
    ["geometries are valid 2D shapes with finite coordinates"],
)


def box_coords(b):
    return {(b[0], b[1]), (b[0], b[3]), (b[2], b[1]), (b[2], b[3])}


def same_geometry(got, g, what):
    """exact comparison of a shapely geometry with a GeoJSON-like dictionary"""
    if got is None:
        fail("%s: no geometry, expected %r", what, g)
    m = shapely.geometry.mapping(got)
    if m["type"] != g["type"] or geoms.lists(m["coordinates"]) != geoms.lists(g["coordinates"]):
        fail("%s: geometry %r, expected %r", what, m, g)


def same_box(got, b, what):
    if got is None:
        fail("%s: no geometry, expected box %r", what, b)
    c = set(got.exterior.coords)
    if got.geom_type != "Polygon" or c != box_coords(b):
        fail("%s: %r, expected the box %r", what, got.wkt, b)


ring = geoms.polygon(holes=False).map(lambda p: p[0])
props = st.fixed_dictionaries(
    {},
    optional={
        "imageGeometry": geoms.geometry(),
        "imageBBox": geoms.bbox(),
        "geom_imcoords": ring,
        "detection": st.builds(lambda g, more: {**more, "type": g["type"], "pixelCoordinates": g["coordinates"]}, geoms.geometry(), st.sampled_from([{}, {"ontology": "x", "score": 0.5}])),
        "bounds_imcoords": geoms.bbox(),
        "detection_other": st.just(1),
        "feature_types": st.just({"a": 0.5}),
        "imageGeometries": st.just([1, 2]),
    },
)


def fix(p, detection_without_pixels):
    p = copy.deepcopy(p)
    if detection_without_pixels:
        p["detection"] = {"type": "Polygon", "confidence": 3}
    return p


def lookup(p, deprecated):
    """reference: (kind, value) of the shape a feature with these properties has"""
    if "imageGeometry" in p:
        return "geometry", p["imageGeometry"]
    if "imageBBox" in p:
        return "box", p["imageBBox"]
    if deprecated:
        if "geom_imcoords" in p:
            c = p["geom_imcoords"]
            return "geometry", {"type": "Polygon", "coordinates": [c]}
        if "detection" in p and "pixelCoordinates" in p["detection"]:
            d = p["detection"]
            return "geometry", {"type": d["type"], "coordinates": d["pixelCoordinates"]}
        if "bounds_imcoords" in p:
            return "box", p["bounds_imcoords"]
    return "none", None


def check_lookup(acc, f, p, deprecated, what):
    got = acc.find_image_geometry(f)
    kind, v = lookup(p, deprecated)
    if kind == "none":
        if got is not None:
            fail("%s: geometry %r from properties %r", what, got.wkt, sorted(p))
    elif kind == "box":
        same_box(got, v, what)
    else:
        same_geometry(got, v, what)
    g = acc.get_image_geometry(f)
    if "imageGeometry" in p:
        same_geometry(g, p["imageGeometry"], what + " (imageGeometry)")
    elif g is not None:
        fail("%s: image geometry without the property", what)
    g = acc.get_image_bbox(f)
    if "imageBBox" in p:
        same_box(g, p["imageBBox"], what + " (imageBBox)")
    elif g is not None:
        fail("%s: image bounding box without the property", what)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


@check.sub(
    "find",
    st.tuples(props, st.booleans(), st.booleans(), st.booleans()),
    quick=1000,
    shards=2,
    rule="at least two properties hold a shape",
)
def find(case):
    p, no_px, deprecated, text = case
    p = fix(p, no_px)
    f = geojson.Feature(geometry=None, properties=copy.deepcopy(p))
    if text:
        f = geojson.loads(geojson.dumps(f))
    before = copy.deepcopy(dict(f))
    check_lookup(ImagedFeaturePropertyAccessor(allow_deprecated=deprecated), f, p, deprecated, "find")
    if dict(f) != before:
        fail("looking up the geometry changed the feature")
    if deprecated:
        check_lookup(ImagedFeaturePropertyAccessor(), f, p, True, "find with the default accessor")
    n = sum(k in p for k in ("imageGeometry", "imageBBox", "geom_imcoords", "bounds_imcoords")) + ("pixelCoordinates" in p.get("detection", {}))
    return n >= 2


op = st.tuples(st.sampled_from(["geometry", "bbox", "update", "update", "update_current_only"]), geoms.geometry())


@check.sub(
    "history",
    st.tuples(props, st.booleans(), st.lists(op, min_size=1, max_size=6), st.booleans()),
    quick=900,
    shards=2,
    rule="an update of a feature with at least two shape properties",
)
def history(case):
    p, no_px, ops, text = case
    p = fix(p, no_px)
    f = geojson.Feature(geometry=geojson.Point((1.0, 2.0)), id="x", properties=copy.deepcopy(p))
    acc = {True: ImagedFeaturePropertyAccessor(), False: ImagedFeaturePropertyAccessor(allow_deprecated=False)}
    model = copy.deepcopy(p)
    interesting = False
    for k, g in ops:
        shape = shapely.geometry.shape(g)
        b = geoms.bounds(g)
        wkt = shape.wkt
        held = {x: f.properties[x] for x in ("imageGeometry", "imageBBox", "geom_imcoords", "bounds_imcoords") if x in f.properties}
        kept = copy.deepcopy(held)  # other features may hold the same values
        if k == "geometry":
            ImagedFeaturePropertyAccessor.set_image_geometry(f, shape)
            model["imageGeometry"] = g
        elif k == "bbox":
            ImagedFeaturePropertyAccessor.set_image_bbox(f, shape)
            model["imageBBox"] = b
        else:
            dep = k == "update"
            n = 0
            if "imageGeometry" in model:
                model["imageGeometry"] = g
                n += 1
            if "imageBBox" in model:
                model["imageBBox"] = b
                n += 1
            if dep:
                if "geom_imcoords" in model:
                    model["geom_imcoords"] = g["coordinates"][0] if g["type"] == "Polygon" else g["coordinates"]
                    n += 1
                if "pixelCoordinates" in model.get("detection", {}):
                    model["detection"]["type"] = g["type"]
                    model["detection"]["pixelCoordinates"] = g["coordinates"]
                    n += 1
                if "bounds_imcoords" in model:
                    model["bounds_imcoords"] = b
                    n += 1
            acc[dep].update_existing_image_geometries(f, shape)
            interesting |= n >= 2
        if shape.wkt != wkt:
            fail("the geometry given was changed")
        if held != kept:
            fail("%s changed the value the property had: %r", k, kept)
        if text:
            f = geojson.loads(geojson.dumps(f))
        got = {x: plain(y) for x, y in f.properties.items()}
        if "detection" in got:
            got["detection"].pop("coordinates", None)  # added by the geojson parser itself
        want = plain(model)
        if got != want:
            d = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
            fail("after %s: property %r is %r, expected %r", k, d[0], got.get(d[0]), want.get(d[0]))
        if f.id != "x" or list(f.geometry["coordinates"]) != [1.0, 2.0]:
            fail("the feature's id or geometry was changed")
        simple = {x: y for x, y in model.items() if x != "geom_imcoords"}
        if "geom_imcoords" not in model or "imageGeometry" in model or "imageBBox" in model:
            check_lookup(acc[True], f, model if "geom_imcoords" not in model else simple | {"geom_imcoords": None}, True, f"find after {k}")
        check_lookup(acc[False], f, model, False, f"find (current properties) after {k}")
    return interesting
