"""C05 RPC sensor model."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.surfaces import Nowhere
from lib.util import close, fail, fl, lon_diff, rfl

from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    RPCPolynomial,
    RPCSensorModel,
    SensorModelOptions,
)

check = Check(
    "C05",
    "RPC models evaluate RPC00B exactly and invert onto the elevation surface",
    [
        "cameras are well-posed rational cubics: dominant linear terms, small higher order terms, denominators near 1",
        "image to world is an iterative solution: one pixel plus 1e-6 degrees on the ground is accepted",
    ],
)

# RPC00B term order, STDI-0002 vol 1 app E: exponents of (L, P, H)
TERMS = [
    (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2),
    (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1), (0, 2, 1), (0, 0, 3),
]  # fmt: skip

small = rfl(-1, 1, 4)


def wrap(lon):
    """a longitude in radians as a location has it, -pi to pi"""
    return lon if abs(lon) <= math.pi else math.remainder(lon, 2 * math.pi)


@st.composite
def camera(draw, everywhere=False):
    gsd = draw(st.one_of(rfl(0.4, 2.0), rfl(2.0, 30.0)))
    cols, rows = draw(st.integers(600, 40000)), draw(st.integers(600, 40000))
    lat = draw(rfl(-72, 72))
    lon = draw(st.one_of(rfl(-178, 178), rfl(-3, 3)))
    if everywhere and draw(st.integers(0, 3)) == 0:
        # next to or across the antimeridian
        lon = draw(rfl(-0.3, 0.3))
        lon = lon - 180 if lon > 0 else lon + 180
    ang = draw(st.one_of(st.just(0.0), rfl(-3.14159, 3.14159)))
    return dict(
        gsd=gsd,
        cols=cols,
        rows=rows,
        lat=lat,
        lon=lon,
        ang=ang,
        hoff=draw(rfl(-300, 4500, 2)),
        hscale=draw(st.one_of(rfl(100, 1500, 2), st.just(500.0))),
        hx=draw(rfl(-0.6, 0.6)),
        hy=draw(rfl(-0.6, 0.6)),
        # every coefficient non-zero so that a wrong term is visible
        hi=draw(st.lists(small, min_size=80, max_size=80)),
        c0=draw(st.tuples(small, small)),
        k=draw(st.sampled_from([0.002, 0.0005])),
    )


def build(c, tame=False):
    size = max(c["cols"], c["rows"])
    half = size * c["gsd"] / 2 / 111319.49
    lat_scale = half * 1.3
    long_scale = lat_scale / math.cos(math.radians(c["lat"]))
    ca, sa = math.cos(c["ang"]), math.sin(c["ang"])
    coef = [[c["k"] * v for v in c["hi"][i * 20 : i * 20 + 20]] for i in range(4)]
    ln, ld, sn, sd = coef
    if tame:
        # The inverse search starts up to half a degree away.  Keep the camera well-posed there, as real cameras
        # (whose higher order coefficients shrink with the extent of the scene) are.
        n = max(1.0, 0.7 / lat_scale)
        for poly, lower in ((ln, 1), (sn, 1), (ld, 0), (sd, 0)):
            for i, t in enumerate(TERMS):
                poly[i] *= n ** -max(0, sum(t) - lower)
    for p in (ld, sd):
        p[0] = 1.0
    # metres on the ground to pixels: 1 normalised unit is lat_scale degrees, size/2 pixels are half degrees
    g = lat_scale / half
    sn[0], ln[0] = c["c0"][0] * 0.01, c["c0"][1] * 0.01
    sn[1], sn[2] = g * ca, g * sa
    ln[1], ln[2] = g * sa, -g * ca
    # height parallax: metres of height -> pixels / (size/2)
    sn[3] = c["hx"] * c["hscale"] / c["gsd"] / (size / 2)
    ln[3] = c["hy"] * c["hscale"] / c["gsd"] / (size / 2)
    p = dict(
        err_bias=1.5,
        err_rand=0.5,
        line_off=c["rows"] / 2 + 0.25,
        samp_off=c["cols"] / 2 - 0.75,
        lat_off=c["lat"],
        long_off=c["lon"],
        height_off=c["hoff"],
        line_scale=size / 2,
        samp_scale=size / 2 + 1,
        lat_scale=lat_scale,
        long_scale=long_scale,
        height_scale=c["hscale"],
    )
    m = RPCSensorModel(
        **p,
        line_num_poly=RPCPolynomial(list(ln)),
        line_den_poly=RPCPolynomial(list(ld)),
        samp_num_poly=RPCPolynomial(list(sn)),
        samp_den_poly=RPCPolynomial(list(sd)),
    )
    return m, p, (ln, ld, sn, sd)


def reference(p, polys, lon, lat, h):
    l_, p_, h_ = (
        math.degrees(wrap(lon - math.radians(p["long_off"]))) / p["long_scale"],
        (math.degrees(lat) - p["lat_off"]) / p["lat_scale"],
        (h - p["height_off"]) / p["height_scale"],
    )
    mono = np.array([l_**a * p_**b * h_**c for a, b, c in TERMS])
    ln, ld, sn, sd = (math.fsum(mono * np.array(q)) for q in polys)
    return sn / sd * p["samp_scale"] + p["samp_off"], ln / ld * p["line_scale"] + p["line_off"]


class Slope(ElevationModel):
    """a smooth surface around the scene"""

    def __init__(self, lon, lat, base, amp):
        self.lon, self.lat, self.base, self.amp = lon, lat, base, amp

    def height(self, lon, lat):
        return self.base + self.amp * math.sin(wrap(lon - self.lon) * 900) + self.amp * (lat - self.lat) * 300

    def set_elevation(self, c):
        c.elevation = self.height(c.longitude, c.latitude)

    def describe_region(self, c):
        return None


@check.sub(
    "forward",
    st.tuples(camera(True), st.lists(st.tuples(rfl(-1, 1), rfl(-1, 1), rfl(-1, 1)), min_size=1, max_size=6)),
    quick=800,
    rule="a query point away from the centre in all three coordinates",
)
def forward(case):
    c, pts = case
    m, p, polys = build(c)
    for a, b, h in pts:
        lon = wrap(math.radians(c["lon"] + a * p["long_scale"]))
        lat = math.radians(c["lat"] + b * p["lat_scale"])
        z = c["hoff"] + h * c["hscale"]
        w = GeodeticWorldCoordinate([lon, lat, z])
        q = m.world_to_image(w)
        x, y = reference(p, polys, lon, lat, z)
        close(q.x, x, 1e-6, 1e-10, "column")
        close(q.y, y, 1e-6, 1e-10, "row")
        if list(w.coordinate) != [lon, lat, z]:
            fail("world_to_image changed its input")
    return any(a and b and h for a, b, h in pts)


query = st.tuples(
    st.integers(0, 1),
    st.sampled_from(["none", "const", "slope", "nowhere"]),
    rfl(-1, 1),
    st.sampled_from(["none", "none", "none", "guess", "guess_array", "guess_distance", "distance", "empty"]),
    rfl(-1, 1),
    rfl(-1, 1),
)


@check.sub(
    "inverse",
    st.tuples(camera(True), st.tuples(rfl(0, 1), rfl(0, 1)), st.tuples(rfl(-0.02, 0.02), rfl(-0.02, 0.02)), st.lists(query, min_size=1, max_size=4)),
    quick=600,
    shards=4,
    rule="with an elevation model, or with search options",
)
def inverse(case):
    """several queries of one model: the same or a nearby pixel, with other elevation models and options"""
    c, f, near, queries = case
    m, p, polys = build(c, tame=True)
    targets = [(f[0] * c["cols"], f[1] * c["rows"]), ((f[0] + near[0]) * c["cols"], (f[1] + near[1]) * c["rows"])]
    return any([inverse_one(c, m, p, polys, targets[q[0]], *q[1:]) for q in queries])


def inverse_one(c, m, p, polys, target, kind, level, opt, gx, gy):
    base = c["hoff"] + level * c["hscale"] * 0.7
    em = None
    if kind == "const":
        em = ConstantElevationModel(base)
    elif kind == "slope":
        em = Slope(math.radians(c["lon"]), math.radians(c["lat"]), base, min(60.0, 0.15 * c["hscale"]))
    elif kind == "nowhere":
        em = Nowhere()
    options = None
    guess = [
        wrap(math.radians(c["lon"] + gx * p["long_scale"] * 0.3)),
        math.radians(c["lat"] + gy * p["lat_scale"] * 0.3),
    ]
    if opt == "empty":
        options = {}
    elif opt == "guess":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess)}
    elif opt == "guess_array":
        options = {SensorModelOptions.INITIAL_GUESS: np.array(guess)}
    elif opt == "guess_distance":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess), SensorModelOptions.INITIAL_SEARCH_DISTANCE: math.radians(0.005)}
    elif opt == "distance":
        options = {SensorModelOptions.INITIAL_SEARCH_DISTANCE: math.radians(0.05)}
    kept = None if options is None else {k: (list(v) if hasattr(v, "__len__") else v) for k, v in options.items()}
    ic = ImageCoordinate(list(target))
    w = m.image_to_world(ic, elevation_model=em, options=options)
    if list(ic.coordinate) != list(target):
        fail("image_to_world changed its input")
    if kept is not None and kept != {k: (list(v) if hasattr(v, "__len__") else v) for k, v in options.items()}:
        fail("image_to_world changed the options")
    want_h = {"none": c["hoff"], "nowhere": c["hoff"], "const": base}.get(kind)
    if want_h is None:
        want_h = em.height(w.longitude, w.latitude)
    close(w.elevation, want_h, 1e-9, 1e-12, "elevation of the result")
    if abs(w.longitude) > math.pi:
        fail("longitude %r of the result", w.longitude)
    x, y = reference(p, polys, w.longitude, w.latitude, w.elevation)
    err = math.hypot(x - target[0], y - target[1])
    tol = 0.5 + 0.15 / c["gsd"]
    if not err <= tol:
        fail("image_to_world(%r) = %r projects back to %r, %.3f pixels away", target, list(w.coordinate), (x, y), err)
    return kind in ("const", "slope") or opt not in ("none", "empty")
