"""C25 sensor models built from image metadata."""

import math
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from checks import c03, c05, c06
from lib import rasters, tres
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import ChippedImageInfoFacade, SensorModelFactory, SensorModelTypes, load_gdal_dataset
from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate

check = Check(
    "C25",
    "Models built from NITF metadata evaluate exactly the camera the metadata describes",
    ["TREs in the layout GDAL reports; well-posed cameras", "sectioned models are compared away from section boundaries"],
)

T = SensorModelTypes
style = st.sampled_from([0, 1])
order = st.none() | st.integers(0, 40)
unit = rfl(-0.9, 0.9, 4)
pts3 = st.lists(st.tuples(unit, unit, unit), min_size=1, max_size=4)


def factory(xml, w=2048, h=2048, types=None, **kw):
    return SensorModelFactory(w, h, xml_tres=ET.fromstring(xml), selected_sensor_model_types=types, **kw).build()


@check.sub("rpc", st.tuples(c05.camera(), style, order, pts3, st.booleans()), quick=300, shards=2, rule="always")
def rpc(case):
    cam, sty, odr, pts, only = case
    _, p, polys = c05.build(cam)
    p = dict(p, err_bias=cam["hoff"] / 7, err_rand=cam["gsd"])
    junk = tres.tre("USE00A", tres.field("MEAN_GSD", "12"))
    x = tres.tres(junk, tres.rpc(p, polys, 1, sty, odr), junk)
    m = factory(x, types=[T.RPC] if only else None)
    if m is None:
        fail("no model from a valid RPC00B TRE")
    for a, b, c in pts:
        lon = math.radians(p["long_off"] + a * p["long_scale"])
        lat = math.radians(p["lat_off"] + b * p["lat_scale"])
        h = p["height_off"] + c * p["height_scale"]
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        u, v = c05.reference(p, polys, lon, lat, h)
        close(q.x, u, 1e-5, 1e-9, "sample")
        close(q.y, v, 1e-5, 1e-9, "line")
    for k in ("err_bias", "err_rand"):
        if hasattr(m, k):
            close(getattr(m, k), p[k], 1e-9, 1e-9, k)
    for s in (0, 2):
        if factory(tres.tres(tres.rpc(p, polys, s, sty, odr)), types=[T.RPC]) is not None:
            fail("a model from an RPC00B TRE with SUCCESS=%d", s)
    return True


def rsm_tres(s, g, cams, sty, odr, extra=""):
    grp = None
    h_def = g.h0
    if s["grp"]:
        h_def = s["hmin"] + s["grp_f"] * s["hspan"]
        grp = list(g.local(g.lon, g.lat, h_def))
    kw = dict(origin=list(g.o), axes=g.m) if s["form"] == "R" else {}
    out = [
        tres.rsmida(
            s["form"], g.vertices(), (s["row0"], s["row0"] + s["rows"], s["col0"], s["col0"] + s["cols"]), grp=grp, style=sty, **kw
        )
    ]
    for (j, i), cam in cams:
        pn, pd, rn, rd, cn, cd = cam.p
        norm = [cam.r_off, cam.c_off, *cam.off, cam.r_scale, cam.c_scale, *cam.scale]
        out.append(tres.rsmpca((j, i), norm, {"RN": (pn, rn), "RD": (pd, rd), "CN": (pn, cn), "CD": (pd, cd)}, sty, odr))
    return out, h_def


@check.sub("rsm", st.tuples(c06.scene(), style, order, pts3, st.booleans()), quick=250, shards=2, rule="always")
def rsm(case):
    s, sty, odr, pts, rpc_too = case
    s = dict(s, row0=max(0, s["row0"]), col0=max(0, s["col0"]))
    g = c06.Ground(s)
    cam = c06.Camera(s, g)
    items, h_def = rsm_tres(s, g, [((1, 1), cam)], sty, odr)
    if rpc_too:
        # an RPC for somewhere else: RSM replaces it
        polys = [[0.0] * 20 for _ in range(4)]
        polys[0][2] = polys[2][1] = polys[1][0] = polys[3][0] = 1.0
        p = dict(
            err_bias=1, err_rand=1, line_off=5, samp_off=5, lat_off=0, long_off=0, height_off=0, line_scale=9, samp_scale=9, lat_scale=9, long_scale=9, height_scale=9
        )  # fmt: skip
        items.insert(0, tres.rpc(p, polys))
    m = factory(tres.tres(*items))
    if m is None:
        fail("no model from valid RSM TREs")
    for a, b, c in pts:
        lon, lat, h = g.geo(a, b, c)
        if s["form"] != "H":
            lon = g.lon + a * g.dx
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        x, y = cam.project(lon, lat, h)
        close(q.x, x, c06.tol_forward(cam), 1e-10, "column")
        close(q.y, y, c06.tol_forward(cam), 1e-10, "row")
    # the default surface is the height of the ground reference point (or the middle of the ground domain); the image domain
    # bounds the solution
    w = m.image_to_world(ImageCoordinate(list(cam.project(g.lon, g.lat, h_def))))
    close(w.elevation, h_def, 1e-4 if s["form"] != "R" else 0.1, what="default elevation")
    return True


@check.sub(
    "rsm_sections",
    st.tuples(
        c06.scene(), st.integers(1, 3), st.integers(1, 3), style, order, pts3, st.lists(rfl(-1, 1, 4), min_size=12, max_size=12), st.integers(0, 50)
    ),
    quick=200,
    shards=2,
    rule="more than one section",
)
def rsm_sections(case):
    s, nr, nc, sty, odr, pts, low, shuffle = case
    s = dict(s, row0=max(0, s["row0"]), col0=max(0, s["col0"]))
    g = c06.Ground(s)
    base = c06.Camera(s, g)
    cams = [[c06.Camera(s, g, (0.0004 * (i + 2 * j + 1), -0.0003 * (3 * i + j))) for i in range(nc)] for j in range(nr)]

    def low_order(axis):
        pn = base.p[0]
        c = base.p[4] if axis == "c" else base.p[2]
        sc, of = (base.c_scale, base.c_off) if axis == "c" else (base.r_scale, base.r_off)
        lin = np.array([c[c06.at(pn, 1, 0, 0)], c[c06.at(pn, 0, 1, 0)], c[c06.at(pn, 0, 0, 1)]]) / base.scale * sc
        v = [of - float(lin @ base.off)] + [float(x) for x in lin]
        mag = [max(abs(base.off[i]) + base.scale[i], 1e-3) for i in range(3)]
        k = 0 if axis == "c" else 6
        for n, (i, j) in enumerate([(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]):
            v.append(low[k + n] * 3.0 / (mag[i] * mag[j]))
        return v

    lr, lc = low_order("r"), low_order("c")
    rss, css = s["rows"] / nr, s["cols"] / nc
    secs = [((j + 1, i + 1), cams[j][i]) for j in range(nr) for i in range(nc)]
    secs.sort(key=lambda t: (t[0][0] * 31 + t[0][1] * 17 + shuffle * 7) % 23)
    items, _ = rsm_tres(s, g, secs, sty, odr)
    items.insert(shuffle % (len(items) + 1), tres.rsmpia((nr, nc), (rss, css), lr, lc, sty))
    m = factory(tres.tres(*items))
    if m is None:
        fail("no model from valid RSM TREs")

    def ev(v, p):
        x, y, z = p
        return math.fsum([v[0], v[1] * x, v[2] * y, v[3] * z, v[4] * x * x, v[5] * x * y, v[6] * x * z, v[7] * y * y, v[8] * y * z, v[9] * z * z])

    for a, b, c in pts:
        lon, lat, h = g.geo(a, b, c)
        if s["form"] != "H":
            lon = g.lon + a * g.dx
        p = g.local(lon, lat, h)
        fr, fc = (ev(lr, p) - s["row0"]) / rss, (ev(lc, p) - s["col0"]) / css
        if min(abs(fr - round(fr)) * rss, abs(fc - round(fc)) * css) < 0.01:
            continue
        cam = cams[min(max(math.floor(fr), 0), nr - 1)][min(max(math.floor(fc), 0), nc - 1)]
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        x, y = cam.project(lon, lat, h)
        close(q.x, x, c06.tol_forward(cam), 1e-10, "column")
        close(q.y, y, c06.tol_forward(cam), 1e-10, "row")
    if nr * nc > 1:
        # a section that is missing: there is no camera for part of the image
        gone = [x for k, x in enumerate(items) if k != next(i for i, t in enumerate(items) if 'name="RSMPCA"' in t)]
        if sum('name="RSMPCA"' in t for t in gone) > 1 and factory(tres.tres(*gone), types=[T.RSM]) is not None:
            fail("a model although a section is missing")
    return nr * nc > 1


chip_case = st.fixed_dictionaries(
    {
        "x0": st.integers(0, 20000),
        "y0": st.integers(0, 20000),
        "w": st.integers(8, 4000),
        "h": st.integers(8, 4000),
        "sx": st.sampled_from([1.0, 1.0, 0.5, 2.0, 4.0, 0.25]),
        "sy": st.sampled_from([1.0, 1.0, 0.5, 2.0]),
        "turn": st.sampled_from([0, 0, 0, 1, 2, 3]),
        "extra": st.tuples(st.integers(1, 9000), st.integers(1, 9000)),
    }
)


def chip_points(k):
    """op (chip) and fi (full) grid points 11 12 21 22, the full image size and the exact full -> chip map"""
    w, h = k["w"], k["h"]
    cw, ch = max(2, round(w * k["sx"])), max(2, round(h * k["sy"]))
    fi = [(k["x0"] + 0.5, k["y0"] + 0.5), (k["x0"] + w - 0.5, k["y0"] + 0.5), (k["x0"] + 0.5, k["y0"] + h - 0.5), (k["x0"] + w - 0.5, k["y0"] + h - 0.5)]
    if k["turn"] % 2:
        cw, ch = ch, cw
    ring = [(0.5, 0.5), (cw - 0.5, 0.5), (cw - 0.5, ch - 0.5), (0.5, ch - 0.5)]  # ul ur lr ll
    r = ring[k["turn"] :] + ring[: k["turn"]]
    op = [r[0], r[1], r[3], r[2]]

    def to_chip(x, y):
        a, b = (x - fi[0][0]) / (w - 1), (y - fi[0][1]) / (h - 1)
        return tuple(op[0][i] + a * (op[1][i] - op[0][i]) + b * (op[2][i] - op[0][i]) for i in (0, 1))

    size = (k["x0"] + w + k["extra"][0], k["y0"] + h + k["extra"][1])
    scale = max(abs(op[1][0] - op[0][0] + op[1][1] - op[0][1]) / (w - 1), abs(op[2][0] - op[0][0] + op[2][1] - op[0][1]) / (h - 1))
    return op, fi, size, (cw, ch), to_chip, scale


@check.sub(
    "chip",
    st.tuples(c05.camera(), chip_case, style, st.lists(st.tuples(rfl(-0.2, 1.2, 3), rfl(-0.2, 1.2, 3)), min_size=1, max_size=3), st.booleans()),
    quick=300,
    shards=2,
    rule="the chip is not at the origin of the full image",
)
def chip(case):
    """ICHIPB: the model of a chip is the model of the full image seen through the chip's grid points"""
    cam, k, sty, fr, corners = case
    op, fi, size, csize, to_chip, scale = chip_points(k)
    cam = dict(cam, cols=max(600, size[0]), rows=max(600, size[1]))
    _, p, polys = c05.build(cam)
    t = tres.ichipb(op, fi, size, sty)
    f = ChippedImageInfoFacade(ET.fromstring(t))
    for got, want, what in ((f.full_image_coordinates, fi, "full"), (f.chipped_image_coordinates, op, "chip")):
        if [tuple(float(v) for v in c.coordinate) for c in got] != [tuple(map(float, w)) for w in want]:
            fail("%s image grid points %r, expected %r", what, [tuple(c.coordinate) for c in got], want)
    if (f.full_image_width, f.full_image_height) != size:
        fail("full image size %r, expected %r", (f.full_image_width, f.full_image_height), size)
    m = factory(tres.tres(tres.rpc(p, polys, 1, sty), t), *csize)
    full = factory(tres.tres(tres.rpc(p, polys, 1, sty)), *size)
    for a, b in fr:
        lon = math.radians(p["long_off"] + (a - 0.5) * p["long_scale"])
        lat = math.radians(p["lat_off"] + (b - 0.5) * p["lat_scale"])
        h = p["height_off"]
        x, y = c05.reference(p, polys, lon, lat, h)
        u, v = to_chip(x, y)
        q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        tol = max(1, scale) * (2e-4 + 1e-7 * max(size)) * (1 + math.hypot(x - fi[0][0], y - fi[0][1]) / min(k["w"], k["h"]) * 1e-1)
        close(q.x, u, tol, what="chip column")
        close(q.y, v, tol, what="chip row")
        q = full.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        close(q.x, x, 1e-5, 1e-9, what="full image column")
    return k["x0"] + k["y0"] > 0


@check.sub(
    "corners",
    st.tuples(c03.geom, chip_case, st.booleans(), style, st.lists(st.tuples(rfl(-0.1, 1.1, 3), rfl(-0.1, 1.1, 3)), min_size=1, max_size=3)),
    quick=300,
    shards=2,
    rule="the image is a chip",
)
def corners(case):
    """CSCRNA corner coordinates, of the full image when the image is a chip"""
    g, k, chipped, sty, fr = case
    op, fi, size, csize, to_chip, scale = chip_points(k)
    if not 0.1 < size[0] / size[1] < 10:
        return False
    w, h = size
    gsd = min(g[2], 200.0 * 2000 / max(w, h))
    ground = c03.homography((w, h, gsd) + tuple(g[3:]))
    cs = [(*ground(x, y), 100.0 * i) for i, (x, y) in enumerate([(0, 0), (w, 0), (w, h), (0, h)])]
    items = [tres.cscrna(cs, sty)]
    if chipped:
        items.append(tres.ichipb(op, fi, size, sty))
    m = factory(tres.tres(*items), *(csize if chipped else size))
    if m is None:
        fail("no model from valid CSCRNA corners")
    for a, b in fr + [(0, 0), (1, 0), (1, 1), (0, 1)]:
        x, y = a * w, b * h
        lon, lat = ground(x, y)
        u, v = to_chip(x, y) if chipped else (x, y)
        q = m.world_to_image(GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 0]))
        tol = 0.02 + 2e-6 * max(w, h)
        if chipped:
            tol *= max(1, scale) * (1 + math.hypot(x - fi[0][0], y - fi[0][1]) / min(k["w"], k["h"]) * 1e-1)
        close(q.x, u, tol, what="column")
        close(q.y, v, tol, what="row")
    return chipped


@check.sub(
    "nitf_file",
    st.tuples(c05.camera(), chip_case, st.booleans(), st.booleans(), st.lists(st.tuples(unit, unit), min_size=1, max_size=3)),
    quick=120,
    shards=2,
    rule="always: a NITF file with TREs, written and read by GDAL",
)
def nitf_file(case):
    """the same, from a file: RPC00B, ICHIPB and CSCRNA in a NITF"""
    cam, k, chipped, corner, fr = case
    op, fi, size, csize, to_chip, scale = chip_points(k)
    cam = dict(cam, cols=max(600, min(size[0], 40000)), rows=max(600, min(size[1], 40000)), gsd=max(cam["gsd"], 1.0))
    _, p, polys = c05.build(cam)
    p["height_scale"] = round(p["height_scale"])
    raw, p, polys = tres.raw_rpc(p, polys)
    if min(p["lat_scale"], p["long_scale"]) < 0.002:
        return False
    opts = ["TRE=RPC00B=" + raw]
    if chipped:
        opts.append("TRE=ICHIPB=" + tres.raw_ichipb(op, fi, size))
    if corner:
        d = p["lat_scale"]
        opts.append(
            "TRE=CSCRNA="
            + tres.raw_cscrna(
                [(p["long_off"] + a * d, p["lat_off"] + b * d, 10.0) for a, b in ((-1, 1), (1, 1), (1, -1), (-1, -1))]
            )
        )
    src, _ = rasters.dataset(np.zeros((1, 8, 8), dtype=np.uint8))
    path = rasters.temp(".ntf")
    ds = gdal.GetDriverByName("NITF").CreateCopy(path, src, options=opts)
    ds = None
    try:
        ds, m = load_gdal_dataset(path)
        if ds is None or ds.RasterXSize != 8 or m is None:
            fail("load_gdal_dataset returned %r, %r", ds, m)
        for a, b in fr:
            lon = math.radians(p["long_off"] + a * p["long_scale"])
            lat = math.radians(p["lat_off"] + b * p["lat_scale"])
            x, y = c05.reference(p, polys, lon, lat, p["height_off"] + 7)
            u, v = to_chip(x, y) if chipped else (x, y)
            q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, p["height_off"] + 7]))
            tol = 1e-5 + 1e-9 * max(abs(x), abs(y))
            if chipped:
                tol += max(1, scale) * (2e-4 + 1e-7 * max(size)) * (1 + math.hypot(x - fi[0][0], y - fi[0][1]) / min(k["w"], k["h"]) * 1e-1)
            close(q.x, u, tol, what="column")
            close(q.y, v, tol, what="row")
        ds = None
    finally:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return True


@check.sub(
    "corner_file",
    st.tuples(
        st.integers(4, 90), st.integers(4, 90), rfl(-170, 170, 3), rfl(-70, 70, 3), rfl(0.3, 2, 3), rfl(0.3, 2, 3), rfl(-0.2, 0.2, 3), st.booleans()
    ),
    quick=60,
    rule="always: a NITF file whose only georeferencing is CSCRNA",
)
def corner_file(case):
    """corners of an image of any shape, from a file"""
    w, h, lon, lat, dx, dy, skew, south = case
    f = -1 if south else 1
    at = lambda u, v: (round(lon + u * dx + v * skew * dx, 5), round(lat - f * v * dy + u * skew * dy, 5))
    cs = [(*at(u, v), 10.0) for u, v in ((0, 0), (1, 0), (1, 1), (0, 1))]
    src, _ = rasters.dataset(np.zeros((1, h, w), dtype=np.uint8))
    path = rasters.temp(".ntf")
    ds = gdal.GetDriverByName("NITF").CreateCopy(path, src, options=["TRE=CSCRNA=" + tres.raw_cscrna(cs)])
    ds = None
    try:
        ds, m = load_gdal_dataset(path)
        if m is None:
            fail("no model from the CSCRNA corners of a file")
        for (x, y), c in zip(((0, 0), (w, 0), (w, h), (0, h)), cs):
            g = m.image_to_world(ImageCoordinate([x, y]))
            close(math.degrees(g.longitude), c[0], 1e-4, what=f"longitude of corner {(x, y)} of {(w, h)}")
            close(math.degrees(g.latitude), c[1], 1e-4, what=f"latitude of corner {(x, y)} of {(w, h)}")
        ds = None
    finally:
        rasters.unlink(path)
        rasters.unlink(path + ".aux.xml")
    return True
