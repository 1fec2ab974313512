"""C15 corner coordinates (IGEOLO) written into NITF tiles."""

import math
import re

from hypothesis import strategies as st

from checks.c14 import win
from lib import rasters
from lib.pbt import Check
from lib.util import fail, rfl

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModel

check = Check(
    "C15",
    "NITF tiles carry the ground locations of their own four corners",
    ["corners are written as whole seconds of arc (ICORDS=G), truncation within one second accepted", "longitudes within 179 degrees"],
)


class Twisted(SensorModel):
    """a smooth, invertible-enough mapping with known ground locations (radians)"""

    def __init__(self, p):
        super().__init__()
        self.p = p

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        lon, lat, s, ang, k = self.p
        x, y = float(image_coordinate.x), float(image_coordinate.y)
        u, v = x * math.cos(ang) - y * math.sin(ang), x * math.sin(ang) + y * math.cos(ang)
        return GeodeticWorldCoordinate([math.radians(lon + s * u + k * s * x * y), math.radians(lat - s * v), 123.0])

    def world_to_image(self, world_coordinate):
        return ImageCoordinate([0.0, 0.0])


def parse(igeolo):
    m = re.fullmatch(r"((\d\d)(\d\d)(\d\d)([NS])(\d\d\d)(\d\d)(\d\d)([EW])){4}", igeolo)
    if not m:
        fail("IGEOLO %r is not four ddmmssXdddmmssY corners", igeolo)
    out = []
    for i in range(0, 60, 15):
        t = igeolo[i : i + 15]
        lat = int(t[0:2]) + int(t[2:4]) / 60 + int(t[4:6]) / 3600
        lon = int(t[7:10]) + int(t[10:12]) / 60 + int(t[12:14]) / 3600
        if int(t[2:4]) > 59 or int(t[4:6]) > 59 or int(t[10:12]) > 59 or int(t[12:14]) > 59:
            fail("minutes or seconds of 60 or more in %r", t)
        out.append((lon * (-1 if t[14] == "W" else 1), lat * (-1 if t[6] == "S" else 1)))
    return out


window = st.tuples(rfl(0, 1, 3), rfl(0, 1, 3), rfl(0, 1, 3), rfl(0, 1, 3))


real = st.integers(61, 4000) | st.sampled_from([512, 1000, 1024, 2048, 3000])
geo = st.tuples(
    st.one_of(rfl(-178, 178, 4), rfl(-0.05, 0.05, 5)),
    st.one_of(rfl(-80, 80, 4), rfl(-0.05, 0.05, 5)),
    rfl(0.0003, 0.01, 6),
    rfl(-3.1, 3.1, 3),
    rfl(-0.004, 0.004, 4),
)


@check.sub(
    "real_sizes",
    st.tuples(
        real,
        real,
        st.sampled_from(["affine", "twisted"]),
        geo,
        st.lists(st.tuples(window, st.none() | st.tuples(st.integers(1, 300), st.integers(1, 300))), min_size=1, max_size=3),
    ),
    quick=12,
    shards=2,
    rule="several tiles from one factory",
)
def real_sizes(case):
    """images of thousands of pixels"""
    w, h, kind, p, wins = case
    f = 60 / max(w, h)
    return corners((w, h, kind, (p[0], p[1], p[2] * f, p[3], p[4] * f), wins, "NONE"))


@check.sub(
    "corners",
    st.tuples(
        st.integers(2, 60),
        st.integers(2, 60),
        st.sampled_from(["affine", "twisted"]),
        st.tuples(
            st.one_of(rfl(-178, 178, 4), rfl(-0.05, 0.05, 5)),
            st.one_of(rfl(-85, 85, 4), rfl(-0.05, 0.05, 5)),
            rfl(0.0003, 0.01, 6),
            rfl(-3.1, 3.1, 3),
            rfl(-0.004, 0.004, 4),
        ),
        st.lists(st.tuples(window, st.none() | st.tuples(st.integers(1, 40), st.integers(1, 40))), min_size=1, max_size=5),
        st.sampled_from(["NONE", "J2K"]),
    ),
    quick=500,
    shards=4,
    rule="several tiles from one factory",
)
def corners(case):
    w, h, kind, p, wins, comp = case
    a = rasters.pixels(3, 1, h, w, "uint8")
    ds, _ = rasters.dataset(a)
    if kind == "affine":
        lon, lat, s, ang, _ = p
        gt = [lon, s * math.cos(ang), -s * math.sin(ang), lat, -s * math.sin(ang), -s * math.cos(ang)]
        model = GDALAffineSensorModel(gt)

        def ground(x, y):
            return gt[0] + gt[1] * x + gt[2] * y, gt[3] + gt[4] * x + gt[5] * y
    else:
        model = Twisted(p)

        def ground(x, y):
            c = model.image_to_world(ImageCoordinate([x, y]))
            return math.degrees(c.longitude), math.degrees(c.latitude)

    f = GDALTileFactory(ds, model, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions[comp])
    for wf, size in wins:
        x, y, sw, sh = win(wf, w, h)
        buf = f.create_encoded_tile([x, y, sw, sh], size)
        with rasters.decoded(buf) as t:
            md = t.GetMetadata()
            if (t.RasterXSize, t.RasterYSize) != (size or (sw, sh)):
                fail("tile size %r", (t.RasterXSize, t.RasterYSize))
        if md.get("NITF_ICORDS") != "G":
            fail("ICORDS is %r", md.get("NITF_ICORDS"))
        got = parse(md.get("NITF_IGEOLO", ""))
        want = [ground(*c) for c in ((x, y), (x + sw, y), (x + sw, y + sh), (x, y + sh))]
        for n, (g, e) in enumerate(zip(got, want)):
            for i, what in enumerate(("longitude", "latitude")):
                if not abs(g[i] - e[i]) * 3600 <= 1.01:
                    fail("%s of corner %d of window %r is %r, the sensor model says %r", what, n, [x, y, sw, sh], g[i], e[i])
    return len(wins) > 1


@check.sub(
    "without_model",
    st.tuples(st.integers(2, 40), st.integers(2, 40), st.lists(window, min_size=1, max_size=3)),
    quick=60,
    rule="always: no ground locations are invented without a sensor model",
)
def without_model(case):
    w, h, wins = case
    ds, _ = rasters.dataset(rasters.pixels(3, 1, h, w, "uint8"))
    f = GDALTileFactory(ds, None, tile_format=GDALImageFormats.NITF)
    for wf in wins:
        with rasters.decoded(f.create_encoded_tile(win(wf, w, h))) as t:
            md = t.GetMetadata()
        if md.get("NITF_ICORDS", " ").strip() not in ("",) or re.search(r"\d", md.get("NITF_IGEOLO", "")):
            fail("a tile without a sensor model has corners %r", md.get("NITF_IGEOLO"))
    return True
