"""C09 composite sensor model."""

import math

import numpy as np
from hypothesis import strategies as st

from checks import c05
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.photogrammetry import (
    CompositeSensorModel,
    ConstantElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    ProjectiveSensorModel,
    SensorModel,
    SensorModelOptions,
)

check = Check(
    "C09",
    "Composite models answer with the precise model, whatever the approximate model's error",
    ["precise models are well-posed RPC cameras; the approximate model is off by at most 0.003 degrees"],
)

unitf = rfl(-0.9, 0.9, 4)


@check.sub(
    "accuracy",
    st.tuples(
        c05.camera(),
        st.lists(st.tuples(rfl(-0.003, 0.003), rfl(-0.003, 0.003)), min_size=4, max_size=4),
        st.lists(st.tuples(unitf, unitf, st.none() | rfl(-0.8, 0.8, 3)), min_size=1, max_size=3),
        st.booleans(),
    ),
    quick=400,
    shards=4,
    rule="the approximate model is more than 10 pixels off at one of the points",
)
def accuracy(case):
    cam, err, pts, opts = case
    m, p, polys = c05.build(cam, tame=True)
    size = max(cam["cols"], cam["rows"])
    # approximate model: a quadrilateral around the scene centre with each corner off by up to 0.003 degrees
    corners = [(0, 0), (cam["cols"], 0), (cam["cols"], cam["rows"]), (0, cam["rows"])]
    world = []
    ca, sa = math.cos(cam["ang"]), math.sin(cam["ang"])
    half = size * cam["gsd"] / 2 / 111319.49
    for (x, y), (ex, ey) in zip(corners, err):
        u, v = (x - cam["cols"] / 2) / (size / 2), (y - cam["rows"] / 2) / (size / 2)
        de, dn = (ca * u + sa * v) * half, (sa * u - ca * v) * half
        world.append(
            GeodeticWorldCoordinate(
                [math.radians(cam["lon"] + de / math.cos(math.radians(cam["lat"])) + ex), math.radians(cam["lat"] + dn + ey), 0.0]
            )
        )
    approx = ProjectiveSensorModel(world, [ImageCoordinate(list(c)) for c in corners])
    comp = CompositeSensorModel(approximate_sensor_model=approx, precision_sensor_model=m)
    far = False
    for a, b, level in pts:
        lon = math.radians(cam["lon"] + a * half * 0.5 / math.cos(math.radians(cam["lat"])))
        lat = math.radians(cam["lat"] + b * half * 0.5)
        h = cam["hoff"] + (level or 0.0) * cam["hscale"]
        target = c05.reference(p, polys, lon, lat, h)
        w = GeodeticWorldCoordinate([lon, lat, h])
        q, d = comp.world_to_image(w), m.world_to_image(w)
        if (q.x, q.y) != (d.x, d.y):
            fail("world_to_image is not the precise model's answer: %r instead of %r", (q.x, q.y), (d.x, d.y))
        em = None if level is None else ConstantElevationModel(h)
        options = {"custom": 1, SensorModelOptions.INITIAL_GUESS: [lon + 0.01, lat + 0.01]} if opts else None
        keep = None if options is None else {k: (list(v) if isinstance(v, list) else v) for k, v in options.items()}
        r = comp.image_to_world(ImageCoordinate(list(target)), elevation_model=em, options=options)
        if options != keep:
            fail("the caller's options were changed to %r", options)
        close(r.elevation, h, 1e-6, what="elevation of the result")
        x, y = c05.reference(p, polys, r.longitude, r.latitude, r.elevation)
        e = math.hypot(x - target[0], y - target[1])
        tol = 0.5 + 0.15 / cam["gsd"]
        if not e <= tol:
            fail("image_to_world(%r) projects back to %r, %.3f pixels away", target, (x, y), e)
        # the same pixel again, now on another surface
        h2 = cam["hoff"] - (level or 0.5) * cam["hscale"] * 0.5
        r2 = comp.image_to_world(ImageCoordinate(list(target)), elevation_model=ConstantElevationModel(h2), options=options)
        close(r2.elevation, h2, 1e-6, what="elevation of the result for the same pixel on another surface")
        x2, y2 = c05.reference(p, polys, r2.longitude, r2.latitude, r2.elevation)
        if not math.hypot(x2 - target[0], y2 - target[1]) <= tol:
            fail("image_to_world(%r) on another surface projects back to %r", target, (x2, y2))
        g = approx.image_to_world(ImageCoordinate(list(target)))
        gx, gy = c05.reference(p, polys, g.longitude, g.latitude, h)
        far = far or math.hypot(gx - target[0], gy - target[1]) > 10
    return far


class Spy(SensorModel):
    def __init__(self, out):
        super().__init__()
        self.out, self.calls, self.worlds = out, [], []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append((list(image_coordinate.coordinate), elevation_model, None if options is None else dict(options)))
        return GeodeticWorldCoordinate(list(self.out))

    def world_to_image(self, world_coordinate):
        self.worlds.append(list(world_coordinate.coordinate))
        return ImageCoordinate([self.out[0] * 3, self.out[1] * 5])


opt_values = st.dictionaries(st.sampled_from(["a", "b", "initial_guess", "initial_search_distance", "tolerance"]), rfl(-5, 5, 2), max_size=4)


@check.sub(
    "delegation",
    st.tuples(
        st.tuples(rfl(-3, 3), rfl(-1.5, 1.5), rfl(-10, 9000, 1)),
        st.tuples(rfl(-3, 3), rfl(-1.5, 1.5), rfl(-10, 9000, 1)),
        st.tuples(rfl(-100, 10000, 2), rfl(-100, 10000, 2)),
        st.booleans(),
        st.none() | opt_values,
    ),
    quick=300,
    rule="options were supplied by the caller",
)
def delegation(case):
    a, b, (x, y), use_em, options = case
    approx, precise = Spy(a), Spy(b)
    comp = CompositeSensorModel(approx, precise)
    em = ConstantElevationModel(12.0) if use_em else None
    keep = None if options is None else dict(options)
    r = comp.image_to_world(ImageCoordinate([x, y]), elevation_model=em, options=options)
    if options != keep:
        fail("the caller's options were changed")
    if list(r.coordinate) != list(b):
        fail("result %r is not the precise model's %r", list(r.coordinate), b)
    if len(precise.calls) != 1:
        fail("precise model asked %d times", len(precise.calls))
    pix, pem, popt = precise.calls[0]
    if pix != [x, y] or pem is not em:
        fail("the precise model was not given the caller's pixel and elevation model")
    for c in approx.calls:
        if c[0] != [x, y] or c[1] is not em:
            fail("the approximate model was not given the caller's pixel and elevation model")
    guess = None if popt is None else popt.get(SensorModelOptions.INITIAL_GUESS)
    if guess is None or list(np.asarray(guess, dtype=float)[:2]) != [a[0], a[1]]:
        fail("the precise model's initial guess is %r, the approximate location is %r", guess, a[:2])
    for k, v in (options or {}).items():
        if k not in (SensorModelOptions.INITIAL_GUESS, SensorModelOptions.INITIAL_SEARCH_DISTANCE) and popt.get(k) != v:
            fail("option %r was lost", k)
    q = comp.world_to_image(GeodeticWorldCoordinate(list(a)))
    if [q.x, q.y] != [b[0] * 3, b[1] * 5] or precise.worlds != [list(a)]:
        fail("world_to_image did not use the precise model")
    return bool(options)
