"""C13 web mercator map tiles."""

import math

from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.image_processing import MapTileId, MapTileSetFactory, WellKnownMapTileSet
from aws.osml.image_processing.map_tileset_wmq import WebMercatorQuadMapTileSet
from aws.osml.photogrammetry import GeodeticWorldCoordinate

LIMIT = math.degrees(2 * math.atan(math.exp(math.pi)) - math.pi / 2)  # the latitude of the northern edge of the tile set

check = Check(
    "C13",
    "Map tiles partition the web mercator world; a location's tile contains it",
    ["latitudes within the web mercator limit of 85.0511 degrees; tile row 0 is the southernmost row"],
)

SETS = {"WebMercatorQuad": 256, "WebMercatorQuadx2": 512}
zoom = st.integers(0, 24)


def lat_of(z, row):
    return math.atan(math.sinh(math.pi * (2.0 * row / 2**z - 1.0)))


def lon_of(z, col):
    return math.pi * (2.0 * col / 2**z - 1.0)


def tile_xy(z, lon, lat):
    """continuous (column, row) coordinates of a location"""
    return (lon / math.pi + 1) / 2 * 2**z, (math.asinh(math.tan(lat)) / math.pi + 1) / 2 * 2**z


@check.sub("ids", st.sampled_from(sorted(SETS) + ["", "webmercatorquad", "WorldCRS84Quad", "WebMercatorQuad "]), quick=20, rule="known id")
def ids(name):
    s = MapTileSetFactory.get_for_id(name)
    if (s is not None) != (name in SETS):
        fail("tile set for id %r is %r", name, s)
    if s is not None:
        if s.tile_matrix_set_id != name:
            fail("tile set %r says it is %r", name, s.tile_matrix_set_id)
        if WellKnownMapTileSet(name).value != name:
            fail("id %r is not well known", name)
    return s is not None


@check.sub(
    "bounds",
    st.tuples(st.sampled_from(sorted(SETS)), zoom, rfl(0, 0.9999999, 7), rfl(0, 0.9999999, 7)),
    quick=700,
    rule="zoom level above 2",
    examples=lambda: [[n, z, r / 2**z, c / 2**z] for n in sorted(SETS) for z in range(4) for r in range(2**z) for c in range(2**z)],
)
def bounds(case):
    name, z, fr, fc = case
    s = MapTileSetFactory.get_for_id(name)
    n = 2**z
    row, col = int(fr * n), int(fc * n)
    t = s.get_tile(MapTileId(tile_matrix=z, tile_row=row, tile_col=col))
    if tuple(t.id) != (z, row, col):
        fail("asked for tile %r, got %r", (z, row, col), t.id)
    if tuple(t.size) != (SETS[name], SETS[name]):
        fail("tile size %r", t.size)
    tol = 1e-11
    b = t.bounds
    close(b[0], lon_of(z, col), tol, what="minimum longitude")
    close(b[1], lat_of(z, row), tol, what="minimum latitude")
    close(b[2], lon_of(z, col + 1), tol, what="maximum longitude")
    close(b[3], lat_of(z, row + 1), tol, what="maximum latitude")
    # a point inside is located in this very tile
    for fx, fy in ((0.5, 0.5), (0.01, 0.99), (0.99, 0.02)):
        lon = lon_of(z, col + fx)
        lat = lat_of(z, row + fy)
        u = s.get_tile_for_location(GeodeticWorldCoordinate([lon, lat, 17.0]), z)
        if tuple(u.id) != (z, row, col) or tuple(u.bounds) != tuple(b) or tuple(u.size) != tuple(t.size):
            fail("a point inside tile %r is located in %r", (z, row, col), u.id)
    return z > 2


@check.sub(
    "sizes",
    st.tuples(
        st.lists(st.sampled_from([256, 512]) | st.integers(1, 2048), min_size=2, max_size=3, unique=True),
        st.lists(st.tuples(st.integers(0, 24), rfl(0, 0.9999999, 7), rfl(0, 0.9999999, 7)), min_size=1, max_size=3),
        st.booleans(),
    ),
    quick=150,
    rule="zoom level above 2",
)
def sizes(case):
    """tile sets of other tile sizes have the same tiles, with their own size in pixels"""
    ns, ids, same_name = case
    sets = [(n, WebMercatorQuadMapTileSet(tile_size=n) if same_name else WebMercatorQuadMapTileSet(n, f"Quad{n}")) for n in ns]
    for z, fr, fc in ids:
        row, col = int(fr * 2**z), int(fc * 2**z)
        for n, s in sets:
            lon, lat = lon_of(z, col + 0.5), lat_of(z, row + 0.5)
            for t in (s.get_tile(MapTileId(tile_matrix=z, tile_row=row, tile_col=col)), s.get_tile_for_location(GeodeticWorldCoordinate([lon, lat, 0.0]), z)):
                if tuple(t.id) != (z, row, col) or tuple(t.size) != (n, n):
                    fail("tile %r of a set with tiles of %d pixels is %r with size %r", (z, row, col), n, t.id, t.size)
                for g, w in zip(t.bounds, (lon_of(z, col), lat_of(z, row), lon_of(z, col + 1), lat_of(z, row + 1))):
                    close(g, w, 1e-11, what=f"bounds of tile {(z, row, col)} of a set with tiles of {n} pixels")
    return any(z > 2 for z, _, _ in ids)


@check.sub(
    "locate",
    st.tuples(
        st.sampled_from(sorted(SETS)),
        zoom,
        st.one_of(rfl(-180, 180, 7), st.sampled_from([-180.0, 180.0, 0.0, -90.0, 90.0])),
        st.one_of(rfl(-85.05, 85.05, 7), st.sampled_from([0.0, 66.51326044, -66.51326044, LIMIT, -LIMIT])),
    ),
    quick=1200,
    shards=2,
    rule="zoom level above 2",
    examples=lambda: [[n, z, lon, lat] for n in sorted(SETS) for z in (0, 1, 2, 5, 18) for lon in (-180.0, -90.0, 0.0, 180.0) for lat in (-LIMIT, -85.05, -40.0, 0.0, 85.05, LIMIT)],
)
def locate(case):
    name, z, lon, lat = case
    s = MapTileSetFactory.get_for_id(name)
    n = 2**z
    t = s.get_tile_for_location(GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 5.0]), z)
    if t.id.tile_matrix != z or not (0 <= t.id.tile_row < n and 0 <= t.id.tile_col < n):
        fail("location %r, %r is in tile %r, outside the %d x %d tiles of zoom %d", lon, lat, t.id, n, n, z)
    x, y = tile_xy(z, math.radians(lon), math.radians(lat))
    tol = 1e-9 * n + 1e-9
    if not (t.id.tile_col - tol <= x <= t.id.tile_col + 1 + tol and t.id.tile_row - tol <= y <= t.id.tile_row + 1 + tol):
        fail("location %r, %r (tile coordinates %r) is not in tile %r", lon, lat, (x, y), t.id)
    b = t.bounds
    e = 1e-10
    if not (b[0] - e <= math.radians(lon) <= b[2] + e and b[1] - e <= math.radians(lat) <= b[3] + e):
        fail("location %r, %r is outside the bounds %r of its tile", lon, lat, b)
    return z > 2


@check.sub(
    "limits",
    st.tuples(st.sampled_from(sorted(SETS)), st.integers(0, 24), st.lists(st.tuples(rfl(-180, 180, 6), rfl(-85.05, 85.05, 6) | st.sampled_from([LIMIT, -LIMIT, 0.0])), min_size=1, max_size=8)),
    quick=500,
    rule="at least three locations",
)
def limits(case):
    name, z, pts = case
    s = MapTileSetFactory.get_for_id(name)
    got = s.get_tile_matrix_limits_for_area([GeodeticWorldCoordinate([math.radians(a), math.radians(b), 0.0]) for a, b in pts], z)
    xy = [tile_xy(z, math.radians(a), math.radians(b)) for a, b in pts]
    want = [min(p[0] for p in xy), min(p[1] for p in xy), max(p[0] for p in xy), max(p[1] for p in xy)]
    tol = 1e-9 * 2**z + 1e-9
    for g, w, what in zip(got, want, ("minimum column", "minimum row", "maximum column", "maximum row")):
        if not (g - tol <= w <= g + 1 + tol):
            fail("%s is %r, the extreme location lies at %r", what, g, w)
        if not 0 <= g < 2**z:
            fail("%s is %r, outside the %d tiles of zoom %d", what, g, 2**z, z)
    return len(pts) >= 3
