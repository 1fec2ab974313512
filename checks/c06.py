"""C06 RSM sensor models."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.surfaces import Nowhere
from lib.util import close, ecef, fail, rfl

from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    RSMContext,
    RSMGroundDomain,
    RSMGroundDomainForm,
    RSMImageDomain,
    RSMLowOrderPolynomial,
    RSMPolynomial,
    RSMPolynomialSensorModel,
    RSMSectionedPolynomialSensorModel,
    SensorModelOptions,
    WorldCoordinate,
)

check = Check(
    "C06",
    "RSM models evaluate the RSM equations exactly and invert onto the surface",
    [
        "well-posed rational polynomials; points inside the ground domain; the ground domain covers the footprint",
        "image to world is an iterative solution: half a pixel plus 1e-6 degrees on the ground is accepted",
        "longitudes of results are compared modulo a full turn",
    ],
)

coef = rfl(-1, 1, 4)
powers = st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 2))


@st.composite
def scene(draw):
    form = draw(st.sampled_from(["G", "H", "R"]))
    return dict(
        form=form,
        lon=draw(rfl(-174, 174) if form != "H" else st.one_of(rfl(176, 180), rfl(-180, -176), rfl(20, 170))),
        lat=draw(rfl(-70, 70)),
        half=draw(rfl(0.01, 0.5)),  # half extent of the ground domain in degrees of latitude
        aspect=draw(rfl(0.6, 1.6)),
        hmin=draw(rfl(-300, 3000, 1)),
        hspan=draw(rfl(100, 3000, 1)),
        grp=draw(st.booleans()),
        grp_f=draw(rfl(0, 1)),
        cols=draw(st.integers(800, 40000)),
        rows=draw(st.integers(800, 40000)),
        col0=draw(st.integers(-500, 5000)),
        row0=draw(st.integers(-500, 5000)),
        ang=draw(rfl(-3.1, 3.1)),
        rot=draw(rfl(-3.1, 3.1)),
        hx=draw(rfl(-0.05, 0.05)),
        hy=draw(rfl(-0.05, 0.05)),
        pn=draw(powers),
        pd=draw(powers),
        k=draw(st.sampled_from([0.003, 0.0006])),
        seed=draw(st.integers(0, 2**31)),
    )


class Ground:
    """the ground coordinate system of a scene, from the RSM definition"""

    def __init__(self, s):
        self.s = s
        self.lon = math.radians(s["lon"])
        if s["form"] == "H":
            self.lon %= 2 * math.pi
        self.lat = math.radians(s["lat"])
        self.dy = math.radians(s["half"])
        self.dx = self.dy * s["aspect"] / math.cos(self.lat)
        self.h0 = s["hmin"] + s["hspan"] / 2
        self.dh = s["hspan"] / 2
        lo, la = self.lon, self.lat
        east = np.array([-math.sin(lo), math.cos(lo), 0])
        north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
        up = np.cross(east, north)
        c, sn = math.cos(s["rot"]), math.sin(s["rot"])
        self.m = np.array([c * east + sn * north, -sn * east + c * north, up])
        self.o = np.array(ecef(lo, la, self.h0 - 37.0))

    def local(self, lon, lat, h):
        """geodetic -> ground domain x, y, z"""
        f = self.s["form"]
        if f == "R":
            return self.m @ (np.array(ecef(lon, lat, h)) - self.o)
        if f == "H":
            return np.array([lon % (2 * math.pi), lat, h])
        return np.array([lon, lat, h])

    def geo(self, a, b, c):
        """normalised domain position -> geodetic, longitude in the usual range (-pi, pi]"""
        lon = self.lon + a * self.dx
        lon = (lon + math.pi) % (2 * math.pi) - math.pi
        return lon, self.lat + b * self.dy, self.h0 + c * self.dh

    def vertices(self):
        out = []
        for c in (-1, 1):
            for b, a in ((-1, -1), (-1, 1), (1, -1), (1, 1)):
                lon, lat, h = self.lon + a * self.dx, self.lat + b * self.dy, self.h0 + c * self.dh
                out.append(self.local(lon, lat, h) if self.s["form"] == "R" else np.array([lon, lat, h]))
        return out

    def norm(self):
        """normalisation offsets and scales for x, y, z"""
        if self.s["form"] == "R":
            r = 6378137.0 * self.dy * 1.5
            return (self.m @ (np.array(ecef(self.lon, self.lat, self.h0)) - self.o)), np.array([r, r, 2 * self.dh + 500])
        return np.array([self.lon, self.lat, self.h0]), np.array([self.dx, self.dy, self.dh * 1.1])


def rng_coefs(rng, p, k):
    return list(rng.uniform(-k, k, (p[0] + 1) * (p[1] + 1) * (p[2] + 1)))


def at(p, i, j, k):
    return (k * (p[1] + 1) + j) * (p[0] + 1) + i


def poly(p, c, n):
    """sum over z, then y, then x powers, x fastest (RSM term order)"""
    t = []
    for k in range(p[2] + 1):
        for j in range(p[1] + 1):
            for i in range(p[0] + 1):
                t.append(c[at(p, i, j, k)] * n[0] ** i * n[1] ** j * n[2] ** k)
    return math.fsum(t)


def make_polys(s, g, shift=(0.0, 0.0)):
    """row/column rational polynomials: rotation about the scene centre plus small terms of every order"""
    rng = np.random.default_rng(s["seed"])
    pn = (max(1, s["pn"][0]), max(1, s["pn"][1]), max(1, s["pn"][2]))
    pd = s["pd"]
    rn, cn = rng_coefs(rng, pn, s["k"]), rng_coefs(rng, pn, s["k"])
    rd, cd = rng_coefs(rng, pd, s["k"]), rng_coefs(rng, pd, s["k"])
    rd[0] = cd[0] = 1.0
    ca, sa = math.cos(s["ang"]), math.sin(s["ang"])
    cn[at(pn, 1, 0, 0)], cn[at(pn, 0, 1, 0)], cn[at(pn, 0, 0, 1)], cn[0] = ca, sa, s["hx"], shift[0]
    rn[at(pn, 1, 0, 0)], rn[at(pn, 0, 1, 0)], rn[at(pn, 0, 0, 1)], rn[0] = sa, -ca, s["hy"], shift[1]
    return pn, pd, rn, rd, cn, cd


def context(s, g):
    grp = None
    h_def = g.h0
    if s["grp"]:
        h_def = s["hmin"] + s["grp_f"] * s["hspan"]
        v = g.local(g.lon, g.lat, h_def)
        grp = WorldCoordinate(list(v))
    else:
        # mean height of the eight vertices
        h_def = g.h0
    form = {"G": RSMGroundDomainForm.GEODETIC, "H": RSMGroundDomainForm.GEODETIC_2PI, "R": RSMGroundDomainForm.RECTANGULAR}[s["form"]]
    kw = {}
    if s["form"] == "R":
        kw = dict(rectangular_coordinate_origin=WorldCoordinate(list(g.o)), rectangular_coordinate_unit_vectors=g.m.tolist())
    gd = RSMGroundDomain(form, [WorldCoordinate(list(v)) for v in g.vertices()], ground_reference_point=grp, **kw)
    idom = RSMImageDomain(s["row0"], s["row0"] + s["rows"], s["col0"], s["col0"] + s["cols"])
    return RSMContext(gd, idom), h_def


class Camera:
    """reference evaluation of one polynomial section"""

    def __init__(self, s, g, shift=(0.0, 0.0)):
        self.s, self.g = s, g
        self.p = make_polys(s, g, shift)
        self.off, self.scale = g.norm()
        self.size = max(s["rows"], s["cols"])
        self.r_off, self.c_off = s["row0"] + s["rows"] / 2 + 0.5, s["col0"] + s["cols"] / 2 - 0.25
        self.r_scale, self.c_scale = self.size / 2.0, self.size / 2.0 + 1

    def model(self, ctx, section=(1, 1)):
        pn, pd, rn, rd, cn, cd = self.p
        return RSMPolynomialSensorModel(
            ctx, section[0], section[1], self.r_off, self.c_off, *[float(v) for v in self.off], self.r_scale, self.c_scale,
            *[float(v) for v in self.scale], RSMPolynomial(*pn, list(rn)), RSMPolynomial(*pd, list(rd)),
            RSMPolynomial(*pn, list(cn)), RSMPolynomial(*pd, list(cd)),
        )  # fmt: skip

    def project(self, lon, lat, h):
        n = (self.g.local(lon, lat, h) - self.off) / self.scale
        pn, pd, rn, rd, cn, cd = self.p
        return (
            poly(pn, cn, n) / poly(pd, cd, n) * self.c_scale + self.c_off,
            poly(pn, rn, n) / poly(pd, rd, n) * self.r_scale + self.r_off,
        )

    def gsd(self):
        return self.scale[1] / (self.size / 2) * (1 if self.s["form"] == "R" else 6378137.0)


class Slope(ElevationModel):
    def __init__(self, g, base):
        self.g, self.base, self.amp = g, base, min(40.0, g.dh * 0.2)

    def height(self, lon, lat):
        return self.base + self.amp * math.sin((lon - self.g.lon) / self.g.dx) + self.amp * (lat - self.g.lat) / self.g.dy

    def set_elevation(self, c):
        c.elevation = self.height(c.longitude, c.latitude)

    def describe_region(self, c):
        return None


def tol_forward(cam):
    # ECEF round-off: 1e-8 m; pixels are metres wide
    return 1e-6 + 3e-9 * cam.size


inside = st.tuples(rfl(-0.95, 0.95), rfl(-0.95, 0.95), rfl(-1, 1))


@check.sub(
    "forward",
    st.tuples(scene(), st.lists(inside, min_size=1, max_size=5)),
    quick=900,
    shards=2,
    rule="polynomials have a term of order two or higher",
)
def forward(case):
    s, pts = case
    g = Ground(s)
    cam = Camera(s, g)
    ctx, _ = context(s, g)
    m = cam.model(ctx)
    for a, b, c in pts:
        lon, lat, h = g.geo(a, b, c)
        if s["form"] != "H":
            lon = g.lon + a * g.dx
        w = GeodeticWorldCoordinate([lon, lat, h])
        q = m.world_to_image(w)
        x, y = cam.project(lon, lat, h)
        close(q.x, x, tol_forward(cam), 1e-10, "column")
        close(q.y, y, tol_forward(cam), 1e-10, "row")
        if list(w.coordinate) != [lon, lat, h]:
            fail("world_to_image changed its input")
        # the normalisations of the model invert each other
        p0 = np.array(g.local(lon, lat, h), dtype=float)
        off, scale = g.norm()
        n = m.normalize_world_coordinate(WorldCoordinate(list(p0)))
        for i, v in enumerate(n.coordinate):
            close(v, (p0[i] - off[i]) / scale[i], 1e-12 * abs(off[i] / scale[i]) + 1e-12, 1e-12, f"normalised ground component {i}")
        for i, v in enumerate(m.denormalize_world_coordinate(n).coordinate):
            close(v, p0[i], 1e-14 * abs(off[i]), 1e-12, f"ground component {i} after normalising and back")
        back = m.denormalize_image_coordinate(m.normalize_image_coordinate(ImageCoordinate([x, y])))
        close(back.x, x, 1e-9, 1e-11, "column after normalising and back")
        close(back.y, y, 1e-9, 1e-11, "row after normalising and back")
    return max(s["pn"]) >= 2


query = st.tuples(
    st.integers(0, 1),
    st.sampled_from(["none", "const", "slope", "nowhere"]),
    rfl(-0.8, 0.8),
    st.sampled_from(["none", "none", "none", "guess", "guess_array", "guess_distance"]),
    rfl(-0.1, 0.1),
    rfl(-0.1, 0.1),
)


@check.sub(
    "inverse",
    st.tuples(
        scene(),
        st.tuples(rfl(-0.75, 0.75), rfl(-0.75, 0.75)),
        st.tuples(rfl(-0.05, 0.05), rfl(-0.05, 0.05)),
        st.lists(query, min_size=1, max_size=4),
    ),
    quick=700,
    shards=5,
    rule="with an elevation model or a search hint",
)
def inverse(case):
    """several queries of one model: the same or a nearby place, with other elevation models and options"""
    s, f, near, queries = case
    g = Ground(s)
    cam = Camera(s, g)
    ctx, h_def = context(s, g)
    m = cam.model(ctx)
    places = [f, (f[0] + near[0], f[1] + near[1])]
    pixel = cam.project(g.lon + f[0] * g.dx, g.lat + f[1] * g.dy, h_def)
    return any([inverse_one(s, g, cam, m, h_def, None if q[0] else pixel, *places[q[0]], *q[1:]) for q in queries])


def inverse_one(s, g, cam, m, h_def, pixel, a, b, kind, level, opt, gx, gy):
    base = g.h0 + level * g.dh
    em = ConstantElevationModel(base) if kind == "const" else Slope(g, base) if kind == "slope" else Nowhere() if kind == "nowhere" else None
    lon, lat = g.lon + a * g.dx, g.lat + b * g.dy
    h = base if kind == "const" else em.height(lon, lat) if kind == "slope" else h_def
    target = pixel or cam.project(lon, lat, h)
    options = None
    guess = [lon + gx * g.dx, lat + gy * g.dy]
    if opt == "guess":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess)}
    elif opt == "guess_array":
        options = {SensorModelOptions.INITIAL_GUESS: np.array(guess)}
    elif opt == "guess_distance":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess), SensorModelOptions.INITIAL_SEARCH_DISTANCE: math.radians(0.005)}
    w = m.image_to_world(ImageCoordinate(list(target)), elevation_model=em, options=options)
    if kind in ("const", "slope"):
        close(w.elevation, em.height(w.longitude, w.latitude) if kind == "slope" else base, 1e-6, what="elevation of the result")
    else:
        # the reference height of a rectangular domain goes through an ECEF conversion
        close(w.elevation, h_def, 1e-4, what="default elevation of the result")
    x, y = cam.project(w.longitude, w.latitude, w.elevation)
    err = math.hypot(x - target[0], y - target[1])
    tol = 0.5 + 0.3 / cam.gsd()
    if not err <= tol:
        fail("image_to_world(%r) = %r projects back to %r, %.3f pixels away", target, list(w.coordinate), (x, y), err)
    return em is not None or options is not None


@check.sub(
    "sections",
    st.tuples(
        scene(),
        st.integers(1, 4),
        st.integers(1, 4),
        st.lists(inside, min_size=1, max_size=6),
        st.lists(st.tuples(rfl(-0.7, 0.7), rfl(-0.7, 0.7)), min_size=1, max_size=2),
        st.lists(coef, min_size=12, max_size=12),
        st.booleans(),
        st.sampled_from([3.0, 60.0, 0.3]),
    ),
    quick=500,
    shards=5,
    rule="more than one section",
)
def sections(case):
    s, nr, nc, pts, inv, low, outside, weight = case
    if weight < 1:
        weight *= max(s["rows"], s["cols"])
    g = Ground(s)
    ctx, h_def = context(s, g)
    base = Camera(s, g)
    # sections differ by a few pixels so the section that was used shows in the result
    cams = [
        [Camera(s, g, (0.0004 * (i + 2 * j + 1), -0.0003 * (3 * i + j))) for i in range(nc)] for j in range(nr)
    ]
    # low order polynomials: the linear part of the camera in unnormalised coordinates plus small second order terms
    def low_order(axis):
        pn = base.p[0]
        c = base.p[4] if axis == "c" else base.p[2]
        sc, of = (base.c_scale, base.c_off) if axis == "c" else (base.r_scale, base.r_off)
        lin = np.array([c[at(pn, 1, 0, 0)], c[at(pn, 0, 1, 0)], c[at(pn, 0, 0, 1)]]) / base.scale * sc
        v = [of - float(lin @ base.off)] + [float(x) for x in lin]
        # second order terms of a few pixels up to a good part of the image, all of them of the same importance
        mag = [max(abs(base.off[i]) + base.scale[i], 1e-3) for i in range(3)]
        pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
        k = 0 if axis == "c" else 6
        for n, (i, j) in enumerate(pairs):
            v.append(low[k + n] * weight / (mag[i] * mag[j]))
        return v

    lr, lc = low_order("r"), low_order("c")
    frac = 0.8 if outside else 1.0  # sections that do not reach the far edge: points beyond use the closest section
    rss, css = s["rows"] * frac / nr, s["cols"] * frac / nc
    m = RSMSectionedPolynomialSensorModel(
        ctx, nr, nc, rss, css, RSMLowOrderPolynomial(list(lr)), RSMLowOrderPolynomial(list(lc)),
        [[cams[j][i].model(ctx, (j + 1, i + 1)) for i in range(nc)] for j in range(nr)],
    )  # fmt: skip

    def ev(v, p):
        x, y, z = p
        return math.fsum([v[0], v[1] * x, v[2] * y, v[3] * z, v[4] * x * x, v[5] * x * y, v[6] * x * z, v[7] * y * y, v[8] * y * z, v[9] * z * z])

    def pick(col, row):
        fr, fc = (row - s["row0"]) / rss, (col - s["col0"]) / css
        if min(abs(fr - round(fr)) * rss, abs(fc - round(fc)) * css) < 0.01:
            return None  # too close to a section boundary to call
        return cams[min(max(math.floor(fr), 0), nr - 1)][min(max(math.floor(fc), 0), nc - 1)]

    for a, b, c in pts:
        lon, lat, h = g.geo(a, b, c)
        if s["form"] != "H":
            lon = g.lon + a * g.dx
        p = g.local(lon, lat, h)
        cam = pick(ev(lc, p), ev(lr, p))
        if cam is None:
            continue
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        x, y = cam.project(lon, lat, h)
        close(q.x, x, tol_forward(cam), 1e-10, "column")
        close(q.y, y, tol_forward(cam), 1e-10, "row")
    for a, b in inv:
        lon, lat = g.lon + a * g.dx, g.lat + b * g.dy
        target = base.project(lon, lat, g.h0)
        cam = pick(*target)
        if cam is None:
            continue
        w = m.image_to_world(ImageCoordinate(list(target)), elevation_model=ConstantElevationModel(g.h0))
        x, y = cam.project(w.longitude, w.latitude, w.elevation)
        err = math.hypot(x - target[0], y - target[1])
        if not err <= 0.5 + 0.3 / cam.gsd():
            fail("image_to_world(%r) = %r projects back to %r, %.3f pixels away", target, list(w.coordinate), (x, y), err)
        close(w.elevation, g.h0, 1e-6, what="elevation of the result")
        w = m.image_to_world(ImageCoordinate(list(target)))
        close(w.elevation, h_def, 1e-4, what="default elevation of the result")
    return nr * nc > 1


@check.sub(
    "low_order",
    st.tuples(
        st.lists(rfl(-5, 5, 3), min_size=10, max_size=10),
        st.lists(st.tuples(rfl(-9, 9, 3), rfl(-9, 9, 3), rfl(-9, 9, 3)), min_size=1, max_size=4),
    ),
    quick=200,
    rule="no coordinate is zero",
)
def low_order(case):
    """all ten terms of the polynomial that selects the image section, in the order of the specification"""
    v, pts = case
    poly = RSMLowOrderPolynomial(list(v))
    for p in pts:
        got = poly.evaluate(WorldCoordinate(list(p)))
        x, y, z = p
        want = math.fsum([v[0], v[1] * x, v[2] * y, v[3] * z, v[4] * x * x, v[5] * x * y, v[6] * x * z, v[7] * y * y, v[8] * y * z, v[9] * z * z])
        close(got, want, 1e-9, 1e-12, "low order polynomial")
    return all(c != 0 for p in pts for c in p)


@check.sub(
    "malformed",
    st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(-3, 3), st.integers(0, 12), st.integers(0, 20)),
    quick=300,
    rule="the number of coefficients is wrong",
)
def malformed(case):
    x, y, z, d, nv, nl = case
    n = (x + 1) * (y + 1) * (z + 1)

    def rejects(f):
        try:
            f()
        except ValueError:
            return True
        return False

    if rejects(lambda: RSMPolynomial(x, y, z, [0.5] * max(0, n + d))) != (max(0, n + d) != n):
        fail("polynomial of order %r with %d coefficients", (x, y, z), n + d)
    if rejects(lambda: RSMLowOrderPolynomial([0.5] * nl)) != (nl != 10):
        fail("low order polynomial with %d coefficients", nl)
    v = [WorldCoordinate([0.1, 0.2, 3.0])] * nv
    if rejects(lambda: RSMGroundDomain(RSMGroundDomainForm.GEODETIC, v)) != (nv != 8):
        fail("ground domain with %d vertices", nv)
    if not rejects(lambda: RSMGroundDomain(RSMGroundDomainForm.RECTANGULAR, v)):
        fail("rectangular ground domain without a coordinate system")
    return d != 0
