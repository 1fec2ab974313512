"""C27 - SIDD plane-projected products: projection, side of track, inverse, and geometric chips."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import sar
from lib.pbt import Check
from lib.util import close, ecef, fail, geodetic, rfl

from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate

check = Check(
    "C27",
    "SIDD products project to and from the ground consistently, including geometric chips",
    ["plane projection products; chip corners describe the corner pixels of the chip (SIDD Volume 1)"],
)

frac = st.tuples(rfl(-1, 1, 4), rfl(-1, 1, 4))
points = st.lists(frac, min_size=1, max_size=4)
version = st.sampled_from(["2.0.0", "3.0.0"])


def make(s, ver, chip=None):
    sc = sar.Scene(s)
    sc.first = (0, 0)
    m = SIDDSensorModelBuilder(sar.sidd_xml(sc, ver, chip)).build()
    if m is None:
        fail("no sensor model for a complete SIDD %s", ver)
    return sc, m


def scenes():
    return sar.scene(("SIDD",))


def on_contour(sc, x, y, P, tol=1e-5):
    r, along, look = sc.residual(x, y, P)
    close(r, 0.0, tol, what="distance off the range sphere (m)")
    close(along, 0.0, tol * 10, what="distance off the Doppler cone (m)")
    if look != sc.s["look"]:
        fail("the point is on the wrong side of the track")


@check.sub("plane", st.tuples(scenes(), version, points), quick=500, shards=3, rule="plane is tilted and the image grid turned")
def plane(case):
    s, ver, pts = case
    sc, m = make(s, ver)
    for a, b in pts:
        x, y = sc.pixel(a, b)
        w = m.image_to_world(ImageCoordinate([x, y]))
        P = np.array(ecef(*w.coordinate))
        expect = sc.scp + (y - sc.scp_row) * sc.rss * sc.urow + (x - sc.scp_col) * sc.css * sc.ucol
        d = float(np.linalg.norm(P - expect))
        if not d <= 1e-4:
            fail("pixel (%r, %r) is %.5f m from its place in the product plane", x, y, d)
        q = m.world_to_image(w)
        close(q.x, x, 1e-3, what="column after the round trip")
        close(q.y, y, 1e-3, what="row after the round trip")
    return s["tilt"] != 0 and s["rot"] != 0


@check.sub(
    "height", st.tuples(scenes(), version, points, rfl(-300, 300, 2)), quick=300, shards=3, rule="surface more than 5 m from the reference height"
)
def height(case):
    s, ver, pts, dh = case
    sc, m = make(s, ver)
    dh = max(-0.02 * sc.R, min(0.02 * sc.R, dh))
    h = s["hae"] + dh
    for a, b in pts:
        x, y = sc.pixel(a, b)
        w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=ConstantElevationModel(h))
        close(w.elevation, h, 1.5e-3, what="height of the result")
        on_contour(sc, x, y, np.array(ecef(*w.coordinate)), 1e-3)
    return abs(dh) > 5


@check.sub(
    "mixed",
    st.tuples(
        st.lists(scenes(), min_size=1, max_size=2),
        version,
        st.lists(st.tuples(st.integers(0, 1), st.sampled_from([(0.0, 0.0), (0.3, -0.2)]) | frac, st.none() | rfl(-300, 300, 2) | st.just(0.0)), min_size=3, max_size=6),
    ),
    quick=150,
    shards=2,
    rule="the same pixel on two surfaces",
)
def mixed(case):
    """one product, or two, asked for pixels on one surface after another"""
    ss, ver, asks = case
    made = [make(s, ver) for s in ss]
    on = {}
    for i, (a, b), dh in asks:
        i %= len(made)
        sc, m = made[i]
        x, y = sc.pixel(a, b)
        on.setdefault((i, x, y), set()).add(dh)
        if dh is None:
            P = np.array(ecef(*m.image_to_world(ImageCoordinate([x, y])).coordinate))
            expect = sc.scp + (y - sc.scp_row) * sc.rss * sc.urow + (x - sc.scp_col) * sc.css * sc.ucol
            d = float(np.linalg.norm(P - expect))
            if not d <= 1e-4:
                fail("pixel (%r, %r) is %.5f m from its place in the product plane", x, y, d)
        else:
            h = sc.s["hae"] + max(-0.02 * sc.R, min(0.02 * sc.R, dh))
            w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=ConstantElevationModel(h))
            close(w.elevation, h, 1.5e-3, what="height of the result")
            on_contour(sc, x, y, np.array(ecef(*w.coordinate)), 1e-3)
    return any(len(v) > 1 for v in on.values())


@check.sub(
    "chips",
    st.tuples(
        scenes(),
        version,
        points,
        st.tuples(*[st.integers(2, 800) | st.integers(2, 800) | st.integers(800, 40000)] * 2),
        st.tuples(rfl(0, 0.6, 3), rfl(0, 0.6, 3)),
        # resampling along each axis: any factor, none, or corners given as far apart as the chip is long
        rfl(0.1, 3, 3) | st.sampled_from([1.0, -1.0, "whole", "-whole"]),
        rfl(0.1, 3, 3) | st.sampled_from([1.0, -1.0, "whole", "-whole"]),
        rfl(-180, 180, 1) | st.sampled_from([0.0, 0.0, 90.0, 180.0, -90.0]),
    ),
    quick=500,
    shards=3,
    rule="the chip is scaled or rotated",
)
def chips(case):
    s, ver, pts, (cr, cc), (fy, fx), sy, sx, rot = case
    sc, full = make(s, ver)
    oy, ox = fy * s["rows"], fx * s["cols"]
    if rot % 90 == 0:
        oy, ox = round(oy), round(ox)
    th = math.radians(rot)
    # a long chip covers at most the extent of the scene
    cr = max(2, min(cr, max(800, int(s["rows"] / abs(sy if not isinstance(sy, str) else 1)))))
    cc = max(2, min(cc, max(800, int(s["cols"] / abs(sx if not isinstance(sx, str) else 1)))))
    whole = lambda f, n: f if not isinstance(f, str) else (-1 if f[0] == "-" else 1) * n / (n - 1)
    sy, sx = whole(sy, cr), whole(sx, cc)

    def to_full(x, y):
        u, v = x * sx, y * sy
        return ox + u * math.cos(th) - v * math.sin(th), oy + u * math.sin(th) + v * math.cos(th)

    def corner(x, y):
        a, b = to_full(x, y)
        return [round(b, 9), round(a, 9)]

    chip = {"size": [cr, cc], "ul": corner(0, 0), "ur": corner(cc - 1, 0), "ll": corner(0, cr - 1), "lr": corner(cc - 1, cr - 1)}
    _, m = make(s, ver, chip)
    for a, b in pts:
        x, y = (a + 1) / 2 * (cc - 1), (b + 1) / 2 * (cr - 1)
        fx_, fy_ = to_full(x, y)
        w = m.image_to_world(ImageCoordinate([x, y]))
        P = np.array(ecef(*w.coordinate))
        expect = sc.scp + (fy_ - sc.scp_row) * sc.rss * sc.urow + (fx_ - sc.scp_col) * sc.css * sc.ucol
        d = float(np.linalg.norm(P - expect))
        if not d <= 2e-3:
            fail("chip pixel (%r, %r) is %.5f m from its place in the product plane", x, y, d)
        q = m.world_to_image(w)
        close(q.x, x, 0.02, what="column after the round trip")
        close(q.y, y, 0.02, what="row after the round trip")
    return rot != 0 or sx != 1 or sy != 1


@check.sub(
    "quad_chips",
    st.tuples(
        scenes(),
        version,
        st.tuples(st.integers(2, 800), st.integers(2, 800)),
        st.tuples(rfl(0, 0.6, 3), rfl(0, 0.6, 3)),
        st.tuples(rfl(0.2, 3, 3), rfl(0.2, 3, 3)),
        st.lists(rfl(-0.15, 0.15, 3), min_size=8, max_size=8),
    ),
    quick=200,
    shards=2,
    rule="the region is not a parallelogram",
)
def quad_chips(case):
    """the corner pixels of a chip of any shape are at the places given for them"""
    s, ver, (cr, cc), (fy, fx), (sy, sx), d = case
    sc, full = make(s, ver)
    oy, ox = fy * s["rows"], fx * s["cols"]
    H, W = (cr - 1) * sy, (cc - 1) * sx
    places = {"ul": [0, 0], "ur": [0, W], "ll": [H, 0], "lr": [H, W]}
    for i, (k, v) in enumerate(places.items()):
        places[k] = [oy + v[0] + d[2 * i] * H, ox + v[1] + d[2 * i + 1] * W]
    _, m = make(s, ver, dict(places, size=[cr, cc]))
    for k, (x, y) in {"ul": (0, 0), "ur": (cc - 1, 0), "ll": (0, cr - 1), "lr": (cc - 1, cr - 1)}.items():
        P = np.array(ecef(*m.image_to_world(ImageCoordinate([float(x), float(y)])).coordinate))
        row, col = places[k]
        expect = sc.scp + (row - sc.scp_row) * sc.rss * sc.urow + (col - sc.scp_col) * sc.css * sc.ucol
        dist = float(np.linalg.norm(P - expect))
        if not dist <= 2e-3:
            fail("corner %s of the chip is %.5f m from its place in the product plane", k, dist)
    return any(d)


@check.sub(
    "geometry",
    st.tuples(scenes(), version, st.lists(st.tuples(rfl(-0.45, 0.45, 4), rfl(-0.45, 0.45, 4)), min_size=1, max_size=4)),
    quick=300,
    rule="always: points chosen in the product plane independently of the forward projection",
)
def geometry(case):
    s, ver, pts = case
    sc, m = make(s, ver)
    for a, b in pts:
        x, y = a * s["rows"] * sc.rss, b * s["cols"] * sc.css
        P = sc.scp + x * sc.urow + y * sc.ucol
        q = m.world_to_image(GeodeticWorldCoordinate(list(geodetic(*P))))
        close(q.y, sc.scp_row + x / sc.rss, 1e-3, what="row")
        close(q.x, sc.scp_col + y / sc.css, 1e-3, what="column")
    return True
