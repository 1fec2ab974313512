"""C10 digital elevation model: interpolation over any query history."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.photogrammetry import (
    DigitalElevationModel,
    DigitalElevationModelTileFactory,
    DigitalElevationModelTileSet,
    ElevationRegionSummary,
    GDALAffineSensorModel,
    GeodeticWorldCoordinate,
)

check = Check(
    "C10",
    "DEM elevations are the bilinear surface of the right tile, for any query history",
    ["elevation posts sit at the integer image coordinates of a tile, values are held constant beyond the edge posts"],
)


def grid(w, h, seed, dtype):
    r = np.random.default_rng(seed)
    g = r.uniform(-400, 4000, (h, w))
    if dtype == "int16":
        return g.astype(np.int16)
    if dtype == "uint8":
        return (np.abs(g) % 256).astype(np.uint8)
    return g.astype(dtype)


def bilinear(g, x, y):
    """value at column x, row y; clamped to the outermost posts"""
    h, w = g.shape
    x, y = min(max(x, 0.0), w - 1.0), min(max(y, 0.0), h - 1.0)
    i, j = min(int(x), w - 2), min(int(y), h - 2)
    fx, fy = x - i, y - j
    g = g.astype(float)
    return (
        g[j, i] * (1 - fx) * (1 - fy) + g[j, i + 1] * fx * (1 - fy) + g[j + 1, i] * (1 - fx) * fy + g[j + 1, i + 1] * fx * fy
    )


def weights_on_voids(v, x, y):
    """the largest weight of a post without data in the interpolation at column x, row y"""
    h, w = v.shape
    x, y = min(max(x, 0.0), w - 1.0), min(max(y, 0.0), h - 1.0)
    i, j = min(int(x), w - 2), min(int(y), h - 2)
    fx, fy = x - i, y - j
    return max(v[j, i] * (1 - fx) * (1 - fy), v[j, i + 1] * fx * (1 - fy), v[j + 1, i] * (1 - fx) * fy, v[j + 1, i + 1] * fx * fy)


class Tiles(DigitalElevationModelTileSet):
    """one degree cells; some cells have no coverage at all"""

    def __init__(self, cells):
        super().__init__()
        self.cells = cells

    def find_tile_id(self, c):
        k = (math.floor(math.degrees(c.longitude)), math.floor(math.degrees(c.latitude)))
        return self.cells.get(k)


class Factory(DigitalElevationModelTileFactory):
    def __init__(self, tiles):
        super().__init__()
        self.tiles, self.loads = tiles, []

    def get_tile(self, path):
        self.loads.append(path)
        t = self.tiles.get(path)
        if t is None:
            return None, None, None
        return t["grid"], GDALAffineSensorModel(t["gt"]), t["summary"]


tile = st.fixed_dictionaries(
    {
        "lon": st.integers(-3, 2) | st.sampled_from([-180, -101, 99, 179]),
        "lat": st.integers(-3, 2) | st.sampled_from([-90, -61, 45, 89]),
        "w": st.integers(2, 14),
        "h": st.integers(2, 14),
        "seed": st.integers(0, 10**6),
        "dtype": st.sampled_from(["int16", "float32", "float64", "uint8"]),
        "kind": st.sampled_from(["ok", "ok", "ok", "ok", "missing", "uncovered"]),
        "skew": st.sampled_from([0.0, 0.0, 0.02]),
        "voids": st.sampled_from([0, 0, 0, 0, 0.02, 0.3, 1]),
        "nodata": st.sampled_from([-32768, -32767, 0, None, float("nan")]),
    }
)
query = st.tuples(st.integers(0, 7) | st.integers(0, 15), rfl(0.0005, 0.9995, 4), rfl(0.0005, 0.9995, 4), st.booleans(), rfl(-100, 100, 1))


@check.sub(
    "history",
    st.tuples(
        st.lists(tile, min_size=1, max_size=8, unique_by=lambda t: (t["lon"], t["lat"]))
        | st.lists(tile, min_size=11, max_size=16, unique_by=lambda t: (t["lon"], t["lat"])),
        st.integers(1, 4) | st.just(10),
        st.lists(query, min_size=1, max_size=40) | st.lists(query, min_size=30, max_size=60),
        st.integers(0, 3),
    ),
    quick=1800,
    shards=8,
    rule="more tiles queried than the cache holds",
)
def history(case):
    tiles, cache, queries, style = case
    cells, store = {}, {}
    for n, t in enumerate(tiles):
        if t["kind"] == "uncovered":
            continue
        # names in the style of the tile sets: a directory per longitude, the same file name for every longitude
        name = [f"t{n}", f"{t['lon']}/{t['lat']}.dt2", f"{t['lat']}/{t['lon']}.tif", f"{n}.v{n % 2}.tif"][style]
        cells[(t["lon"], t["lat"])] = name
        if t["kind"] == "missing":
            continue
        g = grid(t["w"], t["h"], t["seed"], t["dtype"])
        # north-up (optionally slightly sheared) tile covering its cell
        gt = [t["lon"], 1.0 / t["w"], t["skew"] / t["h"], t["lat"] + 1.0, -t["skew"] / t["w"], -1.0 / t["h"]]
        nodata, voids = t["nodata"], np.zeros(g.shape, bool)
        if nodata != nodata and not t["dtype"].startswith("float"):
            nodata = -32768
        if nodata == 0:
            g[g == 0] = 1
        if nodata is not None and not (t["dtype"] == "uint8" and nodata):
            voids = np.random.default_rng(t["seed"] + 1).random(g.shape) < t["voids"]
            g[voids] = nodata
        valid = g[~voids] if not voids.all() else np.zeros(1)
        s = ElevationRegionSummary(float(valid.min()), float(valid.max()), nodata, 30.0 + n)
        store[name] = {"grid": g, "gt": gt, "summary": s, "voids": voids}
    fac = Factory(store)
    dem = DigitalElevationModel(Tiles(cells), fac, raster_cache_size=cache)
    used = []
    for k, fx, fy, describe, elev in queries:
        t = tiles[k % len(tiles)]
        name = cells.get((t["lon"], t["lat"]))
        lon, lat = math.radians(t["lon"] + fx), math.radians(t["lat"] + fy)
        c = GeodeticWorldCoordinate([lon, lat, elev])
        loads = len(fac.loads)
        if describe:
            got = dem.describe_region(c)
            want = store[name]["summary"] if name in store else None
            if got is not want and repr(got) != repr(want):
                fail("summary of the region is %r, the tile's is %r", got, want)
            if c.elevation != elev:
                fail("describe_region changed the coordinate")
        else:
            dem.set_elevation(c)
            if name in store:
                g, gt = store[name]["grid"], store[name]["gt"]
                dx, dy = math.degrees(lon) - gt[0], math.degrees(lat) - gt[3]
                det = gt[1] * gt[5] - gt[2] * gt[4]
                x, y = (gt[5] * dx - gt[2] * dy) / det, (-gt[4] * dx + gt[1] * dy) / det
                void = weights_on_voids(store[name]["voids"], x, y)
                if void > 1e-6:
                    if c.elevation != elev:
                        fail("next to a post without data the elevation changed from %r to %r", elev, c.elevation)
                elif void < 1e-12 and not (void > 0):
                    g = np.where(store[name]["voids"], 0, g)
                    close(c.elevation, bilinear(g, x, y), 1e-5, 1e-9, f"elevation at column {x}, row {y}")
            elif c.elevation != elev:
                fail("no elevation data, but the elevation changed from %r to %r", elev, c.elevation)
        if c.longitude != lon or c.latitude != lat:
            fail("the query moved the coordinate")
        if name is not None:
            if used and used[-1] == name and len(fac.loads) != loads:
                fail("the tile used by the previous query was loaded again")
            used.append(name)
    return len(set(used)) > cache


@check.sub(
    "posts",
    st.tuples(st.integers(2, 30), st.integers(2, 30), st.integers(0, 10**6), st.sampled_from(["int16", "float32", "float64"]), st.integers(0, 10**6)),
    quick=300,
    rule="non-square tile",
)
def posts(case):
    """exactly at a post the post's value is returned (distinguishes rows from columns), and the bilinear value between"""
    w, h, seed, dtype, k = case
    g = grid(w, h, seed, dtype)
    gt = [10.0, 1.0 / w, 0.0, 21.0, 0.0, -1.0 / h]
    fac = Factory({"t": {"grid": g, "gt": gt, "summary": None}})
    dem = DigitalElevationModel(Tiles({(10, 20): "t"}), fac)
    r = np.random.default_rng(k)
    for _ in range(5):
        i, j = int(r.integers(0, w)), int(r.integers(0, h))
        c = GeodeticWorldCoordinate([math.radians(10.0 + i / w + 1e-9), math.radians(21.0 - j / h - 1e-9), 0.0])
        dem.set_elevation(c)
        close(c.elevation, float(g[j, i]), 1e-5 * max(w, h) + 0.02, what=f"elevation at post column {i}, row {j}")
        x, y = r.uniform(0, w), r.uniform(0, h)
        c = GeodeticWorldCoordinate([math.radians(10.0 + x / w), math.radians(21.0 - y / h), 0.0])
        dem.set_elevation(c)
        close(c.elevation, bilinear(g, x, y), 1e-5, 1e-9, what=f"elevation at column {x}, row {y}")
    return w != h


sides = st.integers(31, 1500) | st.sampled_from([1200, 1201, 3600, 3601])


@check.sub(
    "real_sizes",
    st.tuples(sides, sides, st.integers(0, 10**6), st.sampled_from(["int16", "float32", "float64"]), st.integers(0, 10**6)),
    quick=20,
    shards=4,
    rule="always: tiles of the sizes in which elevation data is distributed",
)
def real_sizes(case):
    posts(case)
    return True
