"""C11 DEM tile names."""

import math

from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import fail, rfl

from aws.osml.photogrammetry import GenericDEMTileSet, GeodeticWorldCoordinate, SRTMTileSet

check = Check(
    "C11",
    "DEM tile sets name exactly the one-degree cell that contains a location",
    ["locations at least 1e-9 degrees from a cell boundary, or on a boundary that is exactly representable"],
)


def cell(v):
    return math.floor(v)


EDGE = [-180.0, -179.5, -1.0, -0.5, -1e-6, 0.0, 1e-6, 0.5, 1.0, 9.99, 10.0, 99.5, 100.0, 179.999999]
LATS = [-90.0, -56.5, -56.0, -55.5, -1.0, -0.25, 0.0, 0.25, 9.5, 10.0, 59.0, 59.99, 60.0, 60.5, 89.9]


def near(v, back):
    """the degree value survives the conversion to radians and back"""
    return math.floor(math.degrees(back)) == math.floor(v)


def beside(lo, hi):
    """next to a cell boundary"""
    return st.builds(lambda i, s, k: i + s * 10.0**-k, st.integers(lo, hi), st.sampled_from([-1, 1]), st.integers(1, 9))


loc = st.tuples(
    st.one_of(rfl(-180, 179.999, 5), st.sampled_from(EDGE), st.integers(-180, 179).map(float), beside(-179, 179)),
    st.one_of(rfl(-90, 89.999, 5), st.sampled_from(LATS), st.integers(-90, 89).map(float), beside(-89, 89)),
    rfl(-100, 9000, 1),
)


@check.sub(
    "srtm",
    st.tuples(loc, st.sampled_from(["", "srtm/", "a_b/"]), st.sampled_from(["1arc_v3", "3arc_v2"]), st.sampled_from([".tif", ".dt2"])),
    quick=1500,
    shards=2,
    rule="location in the southern or western hemisphere",
    examples=[[[a, b, 0.0], "", "1arc_v3", ".tif"] for a in EDGE for b in LATS],
)
def srtm(case):
    (lon, lat, h), prefix, version, ext = case
    c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])
    if not (near(lon, c.longitude) and near(lat, c.latitude)):
        return False
    got = SRTMTileSet(prefix=prefix, version=version, format_extension=ext).find_tile_id(c)
    x, y = cell(lon), cell(lat)
    if y < -56 or y > 59:
        want = None
    else:
        want = f"{prefix}{'s' if y < 0 else 'n'}{abs(y):02d}_{'w' if x < 0 else 'e'}{abs(x):03d}_{version}{ext}"
    if got != want:
        fail("tile for %r, %r is %r, expected %r", lon, lat, got, want)
    if [c.longitude, c.latitude, c.elevation] != [math.radians(lon), math.radians(lat), h]:
        fail("the query changed the coordinate")
    return lon < 0 or lat < 0


FORMATS = {
    "%od%oh/%ld%lh.dt2": lambda x, y: f"{abs(x):03d}{'w' if x < 0 else 'e'}/{abs(y):02d}{'s' if y < 0 else 'n'}.dt2",
    "%lh%ld_%oh%od.tif": lambda x, y: f"{'s' if y < 0 else 'n'}{abs(y):02d}_{'w' if x < 0 else 'e'}{abs(x):03d}.tif",
    "%lH%ld/%oH%od": lambda x, y: f"{'S' if y < 0 else 'N'}{abs(y):02d}/{'W' if x < 0 else 'E'}{abs(x):03d}",
    "dem/%od%oH%ld%lH": lambda x, y: f"dem/{abs(x):03d}{'W' if x < 0 else 'E'}{abs(y):02d}{'S' if y < 0 else 'N'}",
}


@check.sub(
    "generic",
    st.tuples(
        loc,
        st.sampled_from(sorted(FORMATS)),
        st.none()
        | st.tuples(st.integers(-90, 80), st.integers(0, 90), st.integers(-180, 170), st.integers(0, 180)),
    ),
    quick=1500,
    shards=2,
    rule="location in the southern or western hemisphere",
    examples=lambda: [[[a, b, 0.0], f, None] for a in EDGE for b in LATS for f in sorted(FORMATS)],
)
def generic(case):
    (lon, lat, h), fmt, box = case
    c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])
    if not (near(lon, c.longitude) and near(lat, c.latitude)):
        return False
    kw = {}
    x, y = cell(lon), cell(lat)
    want = FORMATS[fmt](x, y)
    if box is not None:
        a, da, o, do = box
        kw = dict(
            min_latitude_degrees=float(a), max_latitude_degrees=float(a + da), min_longitude_degrees=float(o), max_longitude_degrees=float(o + do)
        )
        if not (a <= y <= a + da and o <= x <= o + do):
            want = None
    got = GenericDEMTileSet(format_spec=fmt, **kw).find_tile_id(c)
    if got != want:
        fail("tile for %r, %r is %r, expected %r", lon, lat, got, want)
    return lon < 0 or lat < 0
