"""Generated 2D geometries as GeoJSON-like dictionaries, with their own bounds computation."""

from hypothesis import strategies as st

from lib.util import rfl


def num(lo=-1000, hi=5000):
    return st.one_of(st.integers(lo, hi).map(float), rfl(lo, hi, 2))


def pt(lo=-1000, hi=5000):
    return st.tuples(num(lo, hi), num(lo, hi)).map(list)


@st.composite
def polygon(draw, lo=-1000, hi=5000, holes=True):
    """convex or star shaped shell (valid, non degenerate), optionally with a hole"""
    cx, cy = draw(pt(lo, hi))
    r = draw(rfl(2, 300, 1))
    kind = draw(st.sampled_from(["box", "tri", "diamond", "star"]))
    unit = {
        "box": [(-1, -1), (1, -1), (1, 1), (-1, 1)],
        "tri": [(-1, -1), (1, -0.8), (0.1, 1)],
        "diamond": [(0, -1), (1, 0), (0, 1), (-1, 0)],
        "star": [(0, -1), (0.3, -0.3), (1, 0), (0.3, 0.3), (0, 1), (-0.3, 0.3), (-1, 0), (-0.3, -0.3)],
    }[kind]
    sx = draw(rfl(0.5, 2, 2))
    ring = [[round(cx + r * sx * x, 3), round(cy + r * y, 3)] for x, y in unit]
    if draw(st.booleans()):
        ring.reverse()
    k = draw(st.integers(0, len(ring) - 1))
    ring = ring[k:] + ring[:k]
    rings = [ring + [ring[0]]]
    n = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 9])) if holes else 0
    for j in range(n):
        d, o = (r * 0.1, 0.0) if n == 1 else (r * 0.05, r * 0.14 * (j - 1)) if n <= 3 else (r * 0.015, r * 0.05 * (j - n // 2))
        h = [[round(cx + (o + x * d) * sx, 3), round(cy + y * d, 3)] for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        rings.append(h + [h[0]])
    return rings


def apart(polys):
    """shift polygons in x so that they do not touch: a MultiPolygon of them is valid"""
    out, edge = [], None
    for p in polys:
        x0, x1 = min(q[0] for q in p[0]), max(q[0] for q in p[0])
        d = 0.0 if edge is None or x0 > edge + 1 else edge + 1.5 - x0
        out.append([[[round(q[0] + d, 3), q[1]] for q in r] for r in p])
        edge = x1 + d
    return out


def geometry(lo=-1000, hi=5000, multi=True):
    line = st.lists(pt(lo, hi), min_size=2, max_size=5, unique_by=tuple)
    simple = [
        st.builds(lambda c: {"type": "Point", "coordinates": c}, pt(lo, hi)),
        st.builds(lambda c: {"type": "LineString", "coordinates": c}, line),
        st.builds(lambda c: {"type": "Polygon", "coordinates": c}, polygon(lo, hi)),
        st.builds(lambda c: {"type": "Polygon", "coordinates": c}, polygon(lo, hi)),
    ]
    if not multi:
        return st.one_of(*simple)
    return st.one_of(
        *simple,
        st.builds(lambda c: {"type": "MultiPoint", "coordinates": c}, st.lists(pt(lo, hi), min_size=1, max_size=4)),
        st.builds(lambda c: {"type": "MultiLineString", "coordinates": c}, st.lists(line, min_size=1, max_size=3)),
        st.builds(lambda c: {"type": "MultiPolygon", "coordinates": c}, st.lists(polygon(lo, hi), min_size=1, max_size=3).map(apart)),
    )


def points(c):
    if c and not isinstance(c[0], (list, tuple)):
        return [c]
    return [p for x in c for p in points(x)]


def bounds(g):
    p = points(g["coordinates"])
    return [min(x[0] for x in p), min(x[1] for x in p), max(x[0] for x in p), max(x[1] for x in p)]


def lists(c):
    """nested tuples / lists to nested lists of floats"""
    if isinstance(c, (list, tuple)):
        return [lists(x) for x in c]
    return float(c)


def bbox(lo=-1000, hi=5000):
    return st.builds(lambda x, y, w, h: [x, y, round(x + w, 2), round(y + h, 2)], num(lo, hi), num(lo, hi), rfl(0.5, 400, 2), rfl(0.5, 400, 2))


def scaled(c, sx, sy):
    """coordinates (nested lists) with x and y scaled"""
    if c and not isinstance(c[0], (list, tuple)):
        return [c[0] * sx, c[1] * sy, *c[2:]]
    return [scaled(x, sx, sy) for x in c]


def raised(c, z):
    """coordinates with a third component"""
    if c and not isinstance(c[0], (list, tuple)):
        return [*c, z]
    return [raised(x, z) for x in c]


EMPTY = [{"type": t, "coordinates": []} for t in ("Polygon", "LineString", "MultiPoint", "MultiPolygon")] + [{"type": "GeometryCollection", "geometries": []}]
empty = st.sampled_from(EMPTY)


def geometry3():
    return st.builds(lambda g, z: {"type": g["type"], "coordinates": raised(g["coordinates"], z)}, geometry(), num(-100, 3000))


def small(lo, hi):
    """shapes much smaller than a unit"""
    def make(c, k, kind):
        x, y = c
        d = 10.0**-k
        if kind == "line":
            return {"type": "LineString", "coordinates": [[x, y], [x + d, y + d]]}
        return {"type": "Polygon", "coordinates": [[[x, y], [x + d, y], [x + d, y + d], [x, y + d], [x, y]]]}

    return st.builds(make, pt(lo, hi), st.integers(1, 4), st.sampled_from(["line", "box", "box"]))
