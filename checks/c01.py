"""C01 geodetic / geocentric coordinate conversion."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import close, dist, ecef, fail, fl, geodetic, lat_deg, lon_deg, lon_diff, spread

from aws.osml.photogrammetry import (
    GeodeticWorldCoordinate,
    ImageCoordinate,
    WorldCoordinate,
    geocentric_to_geodetic,
    geodetic_to_geocentric,
)

check = Check("C01", "Geodetic and geocentric coordinates convert exactly both ways", ["WGS 84; |height| up to 50,000 km"])

heights = st.one_of(spread(-11000, 9000), fl(0, 1.0e6), fl(0, 5.0e7), st.just(0.0))


def round_trip_tolerance(h):
    """PROJ's closed form inverse is good to micrometres on the terrain and degrades with height"""
    return 1e-5 if -11000 <= h <= 9000 else 1e-5 + 3e-8 * abs(h)


@check.sub(
    "forward",
    st.tuples(lon_deg(), lat_deg(), heights),
    quick=3000,
    rule="off the equator and prime meridian with non-zero height",
)
def forward(case):
    lon, lat = math.radians(case[0]), math.radians(case[1])
    h = case[2]
    c = GeodeticWorldCoordinate([lon, lat, h])
    g = geodetic_to_geocentric(c)
    if (c.longitude, c.latitude, c.elevation) != (lon, lat, h):
        fail("conversion changed its input to %r", c)
    if not isinstance(g, WorldCoordinate):
        fail("geocentric result is %r", type(g))
    e = ecef(lon, lat, h)
    tol = 1e-6 + 1e-14 * abs(h)
    if dist(g.coordinate, e) > tol:
        fail("geodetic %r -> geocentric %r, closed form %r", case, list(g.coordinate), e)
    before = [g.x, g.y, g.z]
    back = geocentric_to_geodetic(g)
    if [g.x, g.y, g.z] != before:
        fail("inverse conversion changed its input")
    if not isinstance(back, GeodeticWorldCoordinate):
        fail("geodetic result is %r", type(back))
    tol = round_trip_tolerance(h)
    close(back.elevation, h, tol, what="height after round trip")
    close(back.latitude, lat, tol / 6.3e6, what="latitude after round trip")
    if abs(case[1]) < 89.999999:
        d = lon_diff(back.longitude, lon)
        if abs(d) * math.cos(lat) > tol / 6.3e6:
            fail("longitude after round trip of %r: %r", case, back.longitude)
    if not (-math.pi - 1e-12 <= back.longitude <= math.pi + 1e-12):
        fail("longitude %r outside [-pi, pi]", back.longitude)
    return case[0] != 0 and case[1] != 0 and h != 0


@check.sub(
    "inverse",
    st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1), st.one_of(fl(6.33e6, 6.4e6), fl(6.33e6, 4.5e7))),
    quick=3000,
    rule="direction vector is not along an axis",
)
def inverse(case):
    n = math.sqrt(sum(v * v for v in case[:3]))
    if n < 1e-3:
        return False
    p = [v / n * case[3] for v in case[:3]]
    g = geocentric_to_geodetic(WorldCoordinate(p))
    e = ecef(g.longitude, g.latitude, g.elevation)
    ref = geodetic(*p)
    if dist(e, p) > round_trip_tolerance(ref[2]):
        fail("geocentric %r -> geodetic %r which is at %r", p, list(g.coordinate), e)
    if abs(g.latitude) > math.pi / 2 + 1e-12:
        fail("latitude %r out of range", g.latitude)
    close(g.elevation, ref[2], round_trip_tolerance(ref[2]), what="height")
    return sum(abs(v) > 1e-6 for v in case[:3]) >= 2


@check.sub(
    "components",
    st.tuples(fl(-1e7, 1e7), fl(-1e7, 1e7), fl(-1e7, 1e7), fl(-1e7, 1e7), st.integers(0, 5)),
    quick=600,
    rule="components distinct",
)
def components(case):
    a, b, c, v, n = case
    src = [a, b, c]
    w, g, i = WorldCoordinate(src), GeodeticWorldCoordinate(src), ImageCoordinate([a, b])
    src[0] = src[1] = src[2] = 77.0
    if [w.x, w.y, w.z] != [a, b, c] or [g.longitude, g.latitude, g.elevation] != [a, b, c]:
        fail("components do not read back")
    if [i.x, i.y] != [a, b] or [i.c, i.r] != [a, b]:
        fail("image components do not read back")
    # assigning one component changes that component only
    g.elevation = v
    if list(g.coordinate) != [a, b, v] or g.z != v:
        fail("setting the elevation gives %r", list(g.coordinate))
    g.longitude = v
    if list(g.coordinate) != [v, b, v]:
        fail("setting the longitude gives %r", list(g.coordinate))
    g.latitude = a
    if list(g.coordinate) != [v, a, v]:
        fail("setting the latitude gives %r", list(g.coordinate))
    i.r = v
    if list(i.coordinate) != [a, v] or i.y != v:
        fail("setting the row gives %r", list(i.coordinate))
    i.x = c
    if list(i.coordinate) != [c, v] or i.c != c:
        fail("setting x gives %r", list(i.coordinate))
    for cls, k in ((WorldCoordinate, 3), (GeodeticWorldCoordinate, 3), (ImageCoordinate, 2)):
        if n != k:
            try:
                cls([1.0] * n)
            except ValueError:
                continue
            fail("%s accepted %d components", cls.__name__, n)
    # coordinates built from each other's arrays are independent values
    arr = np.array([a, b, c])
    for cls, k in ((WorldCoordinate, 3), (GeodeticWorldCoordinate, 3), (ImageCoordinate, 2)):
        p = cls(arr[:k])
        q = cls(p.coordinate)
        q.y = v
        p.x = v
        if list(q.coordinate) != [a, v, c][:k] or list(p.coordinate) != [v, b, c][:k] or list(arr) != [a, b, c]:
            fail("%s built from an array shares it: %r %r %r", cls.__name__, p, q, arr)
    # default coordinates are independent values
    d1, d2 = GeodeticWorldCoordinate(), GeodeticWorldCoordinate()
    d1.longitude = v
    if list(d2.coordinate) != [0, 0, 0]:
        fail("default coordinates share state")
    return len({a, b, c, v}) == 4
