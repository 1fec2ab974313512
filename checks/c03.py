"""C03 tie point (projective) models and chipped image models."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.surfaces import Nowhere
from lib.util import close, fail, rfl, spread

from aws.osml.photogrammetry import (
    ChippedImageSensorModel,
    ElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    ProjectiveSensorModel,
    SensorModel,
)

try:
    from aws.osml.photogrammetry.transforms import ProjectiveTransform
except ImportError:  # a part of the tie point model, not of the documented interface
    ProjectiveTransform = None

check = Check(
    "C03",
    "Tie point and chip models reproduce their correspondences and invert",
    ["tie points in general position: a convex quadrilateral with moderate perspective, plus optional interior points"],
)


def homography(case):
    """image -> ground map (degrees) chosen by the case: rotation, shear, anisotropy, perspective, location"""
    w, h, gsd, ang, shear, aniso, p0, p1, lon, lat, flip = case
    k = gsd / 111319.49
    ca, sa = math.cos(ang), math.sin(ang)
    s = max(w, h)

    def ground(x, y):
        if flip:
            y = h - y
        x, y = x - w / 2, y - h / 2
        d = 1 + p0 * x / s + p1 * y / s
        u = (x + shear * y) / d
        v = aniso * y / d
        return (
            lon + (u * ca - v * sa) * k / math.cos(math.radians(lat)),
            lat - (u * sa + v * ca) * k,
        )

    return ground


geom = st.tuples(
    st.integers(64, 20000),
    st.integers(64, 20000),
    st.one_of(rfl(0.25, 3.0), rfl(3.0, 200.0)),
    rfl(0, 6.283),
    rfl(-0.3, 0.3),
    rfl(0.6, 1.6),
    st.one_of(st.just(0.0), rfl(-0.2, 0.2)),
    st.one_of(st.just(0.0), rfl(-0.2, 0.2)),
    rfl(-170, 170),
    rfl(-70, 70),
    st.booleans(),
)


class Hill(ElevationModel):
    """deterministic surface; remembers what it was asked"""

    def __init__(self):
        self.calls = []

    @staticmethod
    def height(lon, lat):
        return 300 + 120 * math.sin(lon * 5000) + 80 * math.cos(lat * 3000)

    def set_elevation(self, c):
        self.calls.append((c.longitude, c.latitude))
        c.elevation = self.height(c.longitude, c.latitude)

    def describe_region(self, c):
        return None


@check.sub(
    "tie_points",
    st.tuples(
        geom,
        st.lists(st.tuples(rfl(0, 1), rfl(0, 1)), max_size=4),
        st.lists(st.tuples(rfl(-0.1, 1.1), rfl(-0.1, 1.1)), min_size=1, max_size=4),
        st.permutations(list(range(4))),
        spread(-400, 5000),
    ),
    quick=900,
    rule="rotated, or with perspective, or with extra tie points",
)
def tie_points(case):
    g, extra, queries, order, height = case
    if abs(g[9]) > 70 or g[0] / g[1] > 40 or g[1] / g[0] > 40:
        return False
    ground = homography(g)
    w, h, gsd = g[:3]
    corners = [(0, 0), (w, 0), (w, h), (0, h)]
    pts = [corners[i] for i in order] + [(a * w, b * h) for a, b in extra]
    world = [GeodeticWorldCoordinate([math.radians(v) for v in ground(*p)] + [height]) for p in pts]
    image = [ImageCoordinate(list(p)) for p in pts]
    m = ProjectiveSensorModel(world, image)
    tol = 1e-3 + 1e-6 * max(w, h)
    k = math.radians(gsd / 111319.49)
    for p in pts + [(a * w, b * h) for a, b in queries]:
        lon, lat = (math.radians(v) for v in ground(*p))
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, height]))
        close(q.x, p[0], tol, what=f"x of tie point {p}")
        close(q.y, p[1], tol, what=f"y of tie point {p}")
        c = m.image_to_world(ImageCoordinate(list(p)))
        close(c.longitude, lon, tol * k * 4 / math.cos(lat), what=f"longitude of {p}")
        close(c.latitude, lat, tol * k * 4, what=f"latitude of {p}")
        if c.elevation != 0:
            fail("elevation %r without an elevation model", c.elevation)
        e = Hill()
        c2 = m.image_to_world(ImageCoordinate(list(p)), elevation_model=e)
        if (c2.longitude, c2.latitude) != (c.longitude, c.latitude):
            fail("elevation model moved the location")
        if c2.elevation != Hill.height(c2.longitude, c2.latitude):
            fail("elevation is not the elevation model's value at the location")
        if m.image_to_world(ImageCoordinate(list(p)), elevation_model=Nowhere()).coordinate.tolist() != c.coordinate.tolist():
            fail("an elevation model without data changed the location")
    return bool(extra) or g[6] != 0 or g[3] != 0


class Spy(SensorModel):
    """full image model with a known exact mapping that records what it is given"""

    def __init__(self):
        self.calls = []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append((elevation_model, options))
        c = GeodeticWorldCoordinate([image_coordinate.x * 1e-6, image_coordinate.y * 1e-6, 12.0])
        if elevation_model:
            elevation_model.set_elevation(c)
        return c

    def world_to_image(self, world_coordinate):
        return ImageCoordinate([world_coordinate.longitude * 1e6, world_coordinate.latitude * 1e6])


@check.sub(
    "chip",
    st.tuples(
        st.integers(0, 50000),
        st.integers(0, 50000),
        st.integers(8, 8000),
        st.integers(8, 8000),
        st.one_of(st.just(1.0), rfl(0.2, 8)),
        st.one_of(st.just(1.0), rfl(0.2, 8)),
        st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.booleans(),
        rfl(-0.15, 0.15),
        st.lists(st.tuples(rfl(-0.2, 1.2), rfl(-0.2, 1.2)), min_size=1, max_size=4),
        st.booleans(),
    ),
    quick=1500,
    rule="chip does not start at the origin of the full image",
)
def chip(case):
    x0, y0, w, h, sx, sy, rot, mirror, persp, queries, use_options = case
    if max(w, h) / min(w, h) > 20 or not 0.25 < sx / sy < 4:
        return False
    cw, ch = max(4.0, w * sx), max(4.0, h * sy)
    if rot % 2:
        cw, ch = ch, cw
    # chip coordinates of the four corners of the region, optionally rotated by quarter turns and mirrored
    full = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]
    corner = [(0, 0), (cw, 0), (cw, ch), (0, ch)]
    if mirror:
        corner = [corner[1], corner[0], corner[3], corner[2]]
    corner = corner[rot:] + corner[:rot]
    if persp and rot == 0 and not mirror:
        corner[2] = (cw * (1 + persp), ch * (1 + persp))
    inner = Spy()
    m = ChippedImageSensorModel([ImageCoordinate(list(p)) for p in full], [ImageCoordinate(list(p)) for p in corner], inner)
    # reference homography full -> chip, exact solve
    a, b = [], []
    for (x, y), (u, v) in zip([((p[0] - x0) / w, (p[1] - y0) / h) for p in full], corner):
        a += [[x, y, 1, 0, 0, 0, -u * x, -u * y], [0, 0, 0, x, y, 1, -v * x, -v * y]]
        b += [u, v]
    hm = np.append(np.linalg.solve(np.array(a), np.array(b)), 1).reshape(3, 3)
    size = max(cw, ch)
    scale = max(cw / w, ch / h, w / cw, h / ch, 1)
    tol = 1e-5 * scale + 1e-7 * size + 1e-8 * scale * (x0 + y0)
    for qx, qy in [(0, 0), (1, 0), (1, 1), (0, 1)] + list(queries):
        X, Y = x0 + qx * w, y0 + qy * h
        u, v, d = hm @ [qx, qy, 1]
        u, v = u / d, v / d
        p = m.world_to_image(GeodeticWorldCoordinate([X * 1e-6, Y * 1e-6, 0]))
        close(p.x, u, tol, what=f"chip x of full image point {(X, Y)}")
        close(p.y, v, tol, what=f"chip y of full image point {(X, Y)}")
        e = Hill()
        o = {"initial_guess": [1.0, 2.0]} if use_options else None
        inner.calls.clear()
        c = m.image_to_world(ImageCoordinate([u, v]), elevation_model=e, options=o)
        close(c.longitude * 1e6, X, tol, what=f"full image x of chip point {(u, v)}")
        close(c.latitude * 1e6, Y, tol, what=f"full image y of chip point {(u, v)}")
        if c.elevation != Hill.height(c.longitude, c.latitude):
            fail("the elevation model did not reach the full image model")
        if len(inner.calls) != 1 or inner.calls[0][0] is not e or inner.calls[0][1] != o:
            fail("the full image model was called with %r", inner.calls)
        c = m.image_to_world(ImageCoordinate([u, v]))
        if c.elevation != 12.0:
            fail("elevation %r without an elevation model", c.elevation)
    return x0 > 0 and y0 > 0


@check.sub(
    "arrays",
    st.tuples(geom, st.lists(st.tuples(rfl(0, 1), rfl(0, 1)), min_size=1, max_size=6), st.integers(0, 3)),
    quick=200,
    rule="several points at once",
)
def arrays(case):
    """the transform under the tie point model, estimated and applied to whole arrays of points"""
    if ProjectiveTransform is None:
        return False
    g, fr, extra = case
    ground = homography(g)
    w, h = g[0], g[1]
    src = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)] + [(w * 0.3, h * 0.6), (w * 0.7, h * 0.2), (w * 0.5, h * 0.5)][:extra]
    src = np.array(src, dtype=float)
    dst = np.array([ground(x, y) for x, y in src])
    t = ProjectiveTransform.estimate(src, dst)
    pts = np.array([(a * w, b * h) for a, b in fr])
    want = np.array([ground(x, y) for x, y in pts])
    keep = pts.copy()
    got = t.forward(pts)
    back = t.inverse(want)
    if not np.array_equal(pts, keep):
        fail("the transform changed its input")
    if got.shape != want.shape or back.shape != pts.shape:
        fail("shapes %r and %r from %r", got.shape, back.shape, pts.shape)
    size = float(np.ptp(dst, axis=0).max())
    for n in range(len(pts)):
        for i in (0, 1):
            close(got[n][i], want[n][i], 1e-6 * size + 1e-9, what=f"transformed point {n}")
            close(back[n][i], pts[n][i], 1e-4 * max(w, h), what=f"inverse of point {n}")
    return len(fr) > 1
