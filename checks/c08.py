"""C08 - SAR (SICD) world_to_image agrees with the imaging geometry and inverts image_to_world; chips share one geometry."""

import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from lib import sar
from lib.pbt import Check
from lib.util import close, ecef, fail, geodetic, rfl

from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SARImageCoordConverter, WorldCoordinate

check = Check(
    "C08",
    "SAR world_to_image inverts image_to_world, for full images and chips",
    [
        "points on, or within 30 m of, the image's default ground plane (the known finding covers points far off it)",
        "scenes at least 40 times smaller than the slant range",
    ],
)

frac = st.tuples(rfl(-1, 1, 4), rfl(-1, 1, 4))
points = st.lists(frac, min_size=1, max_size=4)


def build(sc):
    m = SICDSensorModelBuilder(sar.sicd_xml(sc)).build()
    if m is None:
        fail("no sensor model for a complete %s SICD", sc.kind)
    return m


def metres(sc, q, x, y):
    return math.hypot((q.x - x) * sc.css, (q.y - y) * sc.rss)


@check.sub("round_trip", st.tuples(sar.scene(), points), quick=600, shards=3, rule="more than one point")
def round_trip(case):
    s, pts = case
    sc = sar.Scene(s)
    m = build(sc)
    for a, b in pts:
        x, y = sc.pixel(a, b)
        w = m.image_to_world(ImageCoordinate([x, y]))
        keep = list(w.coordinate)
        q = m.world_to_image(w)
        if list(w.coordinate) != keep:
            fail("world_to_image changed its input")
        d = metres(sc, q, x, y)
        if not d <= 0.05:  # the iteration stops within 0.01 m on the ground
            fail("(%r, %r) maps to the ground and back to (%r, %r): %.3f m (%s)", x, y, q.x, q.y, d, sc.kind)
    return len(pts) > 1


@check.sub(
    "geometry",
    st.tuples(
        sar.scene(),
        st.lists(st.tuples(rfl(-0.45, 0.45, 4), rfl(-0.45, 0.45, 4), st.lists(st.just(0.0) | rfl(-30, 30, 1), min_size=1, max_size=3)), min_size=1, max_size=3),
    ),
    quick=600,
    shards=3,
    rule="a point is off the default ground plane",
)
def geometry(case):
    """points chosen on the ground, not through image_to_world: the pixel's R/Rdot contour must pass through the point"""
    s, pts = case
    sc = sar.Scene(s)
    m = build(sc)
    n = sc.normal
    e = sar.unit(np.cross([0, 0, 1.0], n))
    nn = np.cross(n, e)
    half = min(s["rows"] * sc.rss, s["cols"] * sc.css)
    for a, b, h in [(a, b, h) for a, b, hs in pts for h in hs]:
        h = max(-0.002 * sc.R, min(0.002 * sc.R, h))
        # heights straight above or below a point of the plane
        lon, lat, hae = geodetic(*(sc.scp + a * half * e + b * half * nn))
        hae += h
        P = np.array(ecef(lon, lat, hae))
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, hae]))
        r, along, look = sc.residual(q.x, q.y, P)
        tol = 0.03 + 3 * (h * h + abs(h) * (half + abs(h))) / sc.R
        close(r, 0.0, tol, what=f"range error of the pixel for a point {h} m off the plane ({sc.kind})")
        close(along, 0.0, tol, what=f"along track error of the pixel for a point {h} m off the plane ({sc.kind})")
    return any(h != 0 for _, _, hs in pts for h in hs)


@check.sub(
    "chips",
    st.tuples(sar.scene(), points, st.integers(-3000, 3000), st.integers(-3000, 3000)),
    quick=300,
    rule="the chip starts at a different pixel",
)
def chips(case):
    """the same collection described with another first pixel: coordinates shift by exactly that offset"""
    s, pts, dr, dc = case
    sc = sar.Scene(s)
    m = build(sc)
    base = sc.first
    chip = (max(0, base[0] + dr), max(0, base[1] + dc))
    dr, dc = chip[0] - base[0], chip[1] - base[1]
    sc.first = chip
    c = build(sc)
    for a, b in pts:
        x, y = sc.pixel(a, b)
        w = m.image_to_world(ImageCoordinate([x, y]))
        u = c.image_to_world(ImageCoordinate([x - dc, y - dr]))
        for i, k in enumerate((1e-12, 1e-12, 1e-6)):
            close(u.coordinate[i], w.coordinate[i], k, what="ground location of the same pixel in a chip")
        q, v = m.world_to_image(w), c.world_to_image(w)
        close(v.x, q.x - dc, 1e-6, what="column in the chip")
        close(v.y, q.y - dr, 1e-6, what="row in the chip")
    return dr != 0 or dc != 0


@check.sub(
    "converter",
    st.tuples(
        sar.scene(),
        rfl(-40, 40, 1),
        st.tuples(rfl(-5000, 5000, 2), rfl(-5000, 5000, 2)),
        st.tuples(rfl(0.01, 20, 3), rfl(0.01, 20, 3)),
        st.lists(st.tuples(rfl(-20000, 20000, 2), rfl(-20000, 20000, 2)), min_size=1, max_size=4),
    ),
    quick=300,
    rule="the axes are not perpendicular",
)
def converter(case):
    """pixel, image plane coordinates and image plane position: each step as defined, and undone by its inverse"""
    s, skew, (sr, scol), (rss, css), pts = case
    sc = sar.Scene(s)
    k = math.radians(skew)
    u, n = sc.urow, sar.unit(np.cross(sc.urow, sc.ucol))
    v = math.cos(k) * np.cross(n, u) + math.sin(k) * u
    c = SARImageCoordConverter(ImageCoordinate([scol, sr]), WorldCoordinate(list(sc.scp)), u, v, rss, css)
    for row, col in pts:
        x, y = c.rowcol_to_xrowycol(np.array([row, col]))
        close(x, (row - sr) * rss, 1e-6, what="row coordinate (m)")
        close(y, (col - scol) * css, 1e-6, what="column coordinate (m)")
        p = c.xrowycol_to_ipp(np.array([x, y]))
        for i in range(3):
            close(p[i], sc.scp[i] + x * u[i] + y * v[i], 1e-5, what="image plane position")
        b = c.ipp_to_xrowycol(np.array(p))
        close(b[0], x, 1e-5, 1e-10, what="row coordinate of the image plane position")
        close(b[1], y, 1e-5, 1e-10, what="column coordinate of the image plane position")
        back = c.xrowycol_to_rowcol(np.array([x, y]))
        close(back[0], row, 1e-6, what="row")
        close(back[1], col, 1e-6, what="column")
    return skew != 0


@check.known_finding(
    "sicd-world-to-image-off-plane",
    "SICD world_to_image intersects the contour with the plane through the SCP, not the plane through the scene point: "
    "example.sicd121.capella.xml pixel (0, 0) at SCP height + 500 m comes back more than 0.5 pixel away",
)
def off_plane():
    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "test/data/sicd/example.sicd121.capella.xml")
    xml = open(path).read()
    hae = float(re.search(r"<HAE>([^<]+)</HAE>", xml).group(1))
    m = SICDSensorModelBuilder(xml).build()
    w = m.image_to_world(ImageCoordinate([0, 0]), elevation_model=ConstantElevationModel(hae + 500))
    q = m.world_to_image(w)
    return math.hypot(q.x, q.y) > 0.5
