"""C17 orthophoto (map) tiles."""

import math

import cv2
import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from checks import c18
from lib import rasters
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import GDALImageFormats, RangeAdjustmentType
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

check = Check(
    "C17",
    "Orthophoto tiles show each map location the image pixel the sensor model puts there, and nothing elsewhere",
    [
        "the first and last column / row of a tile are the edges of the requested box; positions are accepted within about a pixel of the resolution level read",
        "pixels of value zero are transparent (no data)",
        "smooth test images: a shifted, mirrored or mis-scaled tile shows as a wrong grey value",
    ],
)

R = RangeAdjustmentType


class Model(SensorModel):
    """affine ground <-> image model with height parallax; the default surface is a plane in the image"""

    def __init__(self, s, w, h):
        self.lon, self.lat = math.radians(s["lon"]), math.radians(s["lat"])
        self.k = s["gsd"] / 6378137.0
        a = math.radians(s["ang"])
        self.m = np.array([[math.cos(a), math.sin(a)], [math.sin(a), -math.cos(a)]])  # metres east, north -> pixels
        self.c = (w / 2, h / 2)
        self.px, self.h0, self.slope = s["parallax"], s["h0"], s["slope"]
        self.limit = s["limit"]

    def at(self, lon, lat, h):
        e = np.array([(lon - self.lon) * math.cos(self.lat), lat - self.lat]) / self.k
        x, y = self.m @ e
        return x + self.c[0] + self.px[0] * h, y + self.c[1] + self.px[1] * h

    def world_to_image(self, w):
        if self.limit and abs(w.latitude - self.lat) > math.radians(self.limit):
            raise RuntimeError("outside the domain of the model")
        return ImageCoordinate(list(self.at(*w.coordinate)))

    def height(self, x, y):
        return self.h0 + self.slope[0] * (x - self.c[0]) + self.slope[1] * (y - self.c[1])

    def image_to_world(self, p, elevation_model=None, options=None):
        h = self.height(p.x, p.y)
        e = np.linalg.inv(self.m) @ np.array([p.x - self.c[0] - self.px[0] * h, p.y - self.c[1] - self.px[1] * h]) * self.k
        return GeodeticWorldCoordinate([self.lon + e[0] / math.cos(self.lat), self.lat + e[1], h])


scene = st.fixed_dictionaries(
    {
        "lon": rfl(-170, 170, 3),
        "lat": rfl(-60, 60, 3),
        "gsd": rfl(0.3, 30, 2),
        "ang": st.one_of(st.just(0.0), rfl(-180, 180, 1)),
        "parallax": st.tuples(st.one_of(st.just(0.0), rfl(-0.3, 0.3, 2)), st.one_of(st.just(0.0), rfl(-0.3, 0.3, 2))),
        "h0": rfl(-200, 3000, 0),
        "slope": st.sampled_from([(0.0, 0.0), (0.0, 0.0), (0.1, 0.0), (0.0, 0.2), (-0.2, 0.1), (0.3, -0.3)]),
        "limit": st.just(0.0),
    }
)
shape = st.fixed_dictionaries(
    {
        "w": st.integers(24, 300),
        "h": st.integers(24, 300),
        "bands": st.sampled_from([1, 1, 3, 3, 4, 6]),
        "dir": st.tuples(rfl(-1, 1, 2), rfl(-1, 1, 2)),
        "overviews": st.sampled_from([0, 0, 1, 2, 3]),
        "folded": st.booleans(),
    }
)
# the tile: centre relative to the image (fractions), ground size relative to the image, pixels
tile = st.tuples(rfl(-0.8, 0.8, 2), rfl(-0.8, 0.8, 2), rfl(0.05, 2.5, 2), rfl(0.05, 2.5, 2), st.integers(4, 90), st.integers(4, 90))


def ramp(i):
    """bands of a linear ramp with grey values 20..240, and the function of the pixel position it samples"""
    h, w = i["h"], i["w"]
    fs = []
    for b in range(i["bands"]):
        dx, dy = [(i["dir"][0], i["dir"][1]), (-i["dir"][1], i["dir"][0]), (i["dir"][0], -i["dir"][1])][b % 3]
        if abs(dx) + abs(dy) < 0.2:
            dx = 1.0
        span = abs(dx) * w + abs(dy) * h
        if "wave" in i:  # the ramp is folded: steep enough to show small displacements in a large image
            span = min(span, i["wave"] * (1 + 0.37 * (b % 3)))
        gx, gy = 180 * dx / span, 180 * dy / span
        base = 130 + (b - 1) * 8
        fs.append((base, gx, gy))
    yy, xx = np.mgrid[0:h, 0:w]
    a = np.stack([np.round(grey(f, i, xx, yy)) for f in fs]).astype(np.uint8)
    return a, fs


def grey(f, i, x, y):
    """value of a band at image coordinates x, y"""
    base, gx, gy = f
    u = gx * (x - i["w"] / 2) + gy * (y - i["h"] / 2)
    return base + (np.abs((u + 90) % 360 - 180) - 90 if "wave" in i else u)


def geo_box(m, i, t):
    """geographic box (radians) for tile t, and its size in pixels"""
    cx, cy, fw, fh, tw, th = t
    w, h = i["w"], i["h"]
    c = m.image_to_world(ImageCoordinate([w / 2 + cx * w, h / 2 + cy * h]))
    half_x = fw * w / 2 * m.k / math.cos(m.lat)
    half_y = fh * h / 2 * m.k
    return (c.longitude - half_x, c.latitude - half_y, c.longitude + half_x, c.latitude + half_y), (tw, th)


def positions(m, box, size, h):
    """image coordinates of every pixel of the tile: arrays (rows, cols)"""
    lon = np.linspace(box[0], box[2], size[0])
    lat = np.linspace(box[3], box[1], size[1])
    lo, la = np.meshgrid(lon, lat)
    e = (lo - m.lon) * math.cos(m.lat) / m.k
    n = (la - m.lat) / m.k
    x = m.m[0, 0] * e + m.m[0, 1] * n + m.c[0] + m.px[0] * h
    y = m.m[1, 0] * e + m.m[1, 1] * n + m.c[1] + m.px[1] * h
    return x, y


def make_dataset(a, overviews, statistics=True):
    ds, _ = rasters.dataset(a)
    if overviews:
        ds.BuildOverviews("AVERAGE", [2**k for k in range(1, overviews + 1)])
    if statistics:
        for b in range(a.shape[0]):
            ds.GetRasterBand(b + 1).ComputeStatistics(False)
    return ds


def decode(buf):
    img = cv2.imdecode(np.frombuffer(bytes(bytearray(buf)), dtype=np.uint8), cv2.IMREAD_UNCHANGED)
    if img is None or img.ndim != 3 or img.shape[2] != 4:
        fail("the tile is not a PNG with transparency: %r", None if img is None else img.shape)
    return img[:, :, [2, 1, 0, 3]].astype(float)  # red green blue alpha


def level(x, y, overviews):
    """the coarsest resolution level that may be read"""
    ex = max(np.ptp(x), np.ptp(y)) + 2
    return min(overviews, max(0, int(math.log2(max(1.0, ex / min(x.shape))) + 0.01)))


def reach(k):
    """accepted position error in pixels of the image; in an overview of factor k the region read is truncated to whole
    overview pixels and the last one may cover less than k pixels"""
    return 1.3 if k == 1 else 2.2 * k


def overlap(x, y, w, h, margin):
    """True: the tile surely shows part of the image; False: surely not; None: near the edge"""
    inside = (x > margin) & (x < w - margin) & (y > margin) & (y < h - margin)
    if inside.any():
        return True
    lo, hi = (x.min(), y.min()), (x.max(), y.max())
    if lo[0] > w + margin or lo[1] > h + margin or hi[0] < -margin or hi[1] < -margin:
        return False
    return None


def run(f, box, size):
    buf = f.create_orthophoto_tile(box, size)
    return None if buf is None else decode(buf)


@check.sub("geometry", st.tuples(scene, shape, tile, st.booleans()), quick=2500, shards=8, rule="the tile shows part of the image and part of its surroundings, or a turned image")
def geometry(case):
    s, i, t, second = case
    if i["folded"] and "wave" not in i:
        i = dict(i, wave=30 * 2 ** i["overviews"])
    a, fs = ramp(i)
    m = Model(s, i["w"], i["h"])
    ds = make_dataset(a, i["overviews"])
    f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.PNG, range_adjustment=R.NONE)
    box, size = geo_box(m, i, t)
    if second:  # another request first: no state is carried over
        f.create_orthophoto_tile((box[0], box[1], box[0] + (box[2] - box[0]) / 3, box[3]), (size[1], size[0]))
    img = run(f, box, size)
    h = m.height(i["w"] / 2, i["h"] / 2)
    x, y = positions(m, box, size, h)
    k = 2.0 ** level(x, y, i["overviews"])
    k *= math.ceil(max(min(np.ptp(x), i["w"]), min(np.ptp(y), i["h"])) / k / 32000)  # OpenCV takes up to 32766 pixels
    o = overlap(x, y, i["w"], i["h"], 3 * k)
    if o is False:
        if img is not None:
            fail("there is a tile for a box that does not touch the image%s", ", with visible pixels" if img[:, :, 3].any() else "")
        return False
    if img is None:
        if o:
            fail("no tile although part of the box is inside the image")
        return False
    if img.shape[:2] != (size[1], size[0]):
        fail("tile of %r pixels, requested %r", (img.shape[1], img.shape[0]), size)
    if o is None:
        return False
    inside = (x > 2 * k) & (x < i["w"] - 2 * k) & (y > 2 * k) & (y < i["h"] - 2 * k)
    outside = (x < -4 * k) | (x > i["w"] + 4 * k) | (y < -4 * k) | (y > i["h"] + 4 * k)
    if not np.all(img[inside][:, 3] == 255):
        fail("a location inside the image is transparent")
    if np.any(img[outside][:, 3] != 0):
        fail("a location outside the image is visible")
    for b in range(3):
        base, gx, gy = fs[b if i["bands"] >= 3 else 0]
        want = grey(fs[b if i["bands"] >= 3 else 0], i, x, y)
        tol = reach(k) * (abs(gx) + abs(gy)) + 1.6
        d = np.where(inside, np.abs(img[:, :, b] - want), 0)
        if d.max() > tol:
            r, c = np.unravel_index(d.argmax(), d.shape)
            fail("channel %d at tile pixel (%d, %d), image (%.2f, %.2f): %r, expected %.1f +- %.1f", b, c, r, x[r, c], y[r, c], img[r, c, b], want[r, c], tol)
        # (the pixels at the last row and column of the region may be repeated)
        unfolded = inside & (x < x.max() - 1) & (y < y.max() - 1) & (np.abs(want - (base + gx * (x - i["w"] / 2) + gy * (y - i["h"] / 2))) < 1e-6)
        if k == 1 and unfolded.sum() >= 25:  # on average, whatever the rounding: half a pixel for corners or centres of pixels
            off = float(np.mean((img[:, :, b] - want)[unfolded]))
            if abs(off) > 0.5 * (abs(gx) + abs(gy)) + 0.25:
                fail("channel %d is %.2f grey values off on average over %d pixels, at most %.2f for half a pixel", b, off, unfolded.sum(), 0.5 * (abs(gx) + abs(gy)))
    return bool(outside.any()) or s["ang"] != 0


@check.sub(
    "zoom_pyramid",
    st.tuples(scene, shape, rfl(-0.3, 0.3, 2), rfl(-0.3, 0.3, 2), st.integers(8, 40)),
    quick=150,
    shards=2,
    rule="always: the same place in tiles of different sizes",
)
def zoom_pyramid(case):
    """the grey value of a place is the same in tiles of every scale"""
    s, i, cx, cy, n = case
    i = dict(i, bands=1, w=max(i["w"], 150), h=max(i["h"], 150))
    a, fs = ramp(i)
    m = Model(s, i["w"], i["h"])
    f = GDALTileFactory(make_dataset(a, i["overviews"]), m, tile_format=GDALImageFormats.PNG, range_adjustment=R.NONE)
    base, gx, gy = fs[0]
    n = n // 2 * 2 + 1
    hc = m.height(i["w"] / 2, i["h"] / 2)
    got = []
    for ext in (0.05, 0.1, 0.2, 0.35):
        box, size = geo_box(m, i, (cx, cy, ext, ext, n, n))
        x, y = positions(m, box, size, hc)
        X, Y = x[n // 2, n // 2], y[n // 2, n // 2]
        if not (12 < X < i["w"] - 12 and 12 < Y < i["h"] - 12):
            return False
        img = run(f, box, size)
        if img is None:
            fail("no tile inside the image")
        k = 2.0 ** level(x, y, i["overviews"])
        want = base + gx * (X - i["w"] / 2) + gy * (Y - i["h"] / 2)
        close(img[n // 2, n // 2, 0], want, reach(k) * (abs(gx) + abs(gy)) + 1.6, what=f"grey value at the centre of a tile of {ext} of the image")
    return True


@check.sub(
    "sequence",
    st.tuples(
        scene,
        shape,
        st.sampled_from(["NONE", "MINMAX", "DRA"]),
        st.integers(4, 40),
        st.lists(
            st.one_of(
                tile,
                st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 3)),  # corner anchored, a power of two of the tile's pixels
            ),
            min_size=2,
            max_size=5,
        ),
    ),
    quick=250,
    shards=3,
    rule="two requests that yield a tile",
)
def sequence(case):
    """a tile is the same whatever was requested before it from the same factory"""
    s, i, adjust, n, requests = case
    s = dict(s, slope=(0.0, 0.0))
    if any(len(t) == 3 for t in requests):
        s = dict(s, ang=0.0, parallax=(0.0, 0.0))
    rng = np.random.default_rng(i["w"] * 1000 + i["h"])
    a = rng.integers(1, 256, (i["bands"], i["h"], i["w"])).astype(np.uint8)
    m = Model(s, i["w"], i["h"])

    def make():
        return GDALTileFactory(make_dataset(a, i["overviews"]), Model(s, i["w"], i["h"]), tile_format=GDALImageFormats.PNG, range_adjustment=R[adjust])

    f = make()
    some = 0
    for t in requests:
        if len(t) == 3:
            k = 2 ** t[2] * n
            x, y = (i["w"] - k) * t[0], (i["h"] - k) * t[1]
            p, q = (m.image_to_world(ImageCoordinate([u, v])) for u, v in ((x, y + k), (x + k, y)))
            box, size = (p.longitude, p.latitude, q.longitude, q.latitude), (n, n)
        else:
            box, size = geo_box(m, i, t)
        got, want = f.create_orthophoto_tile(box, size), make().create_orthophoto_tile(box, size)
        if (got is None) != (want is None) or (got is not None and not np.array_equal(decode(got), decode(want))):
            fail("the tile of %r differs from the one a new factory makes", box)
        some += got is not None
    return some > 1


@check.sub(
    "range",
    st.tuples(
        scene,
        st.integers(40, 160),
        st.integers(24, 120),
        st.integers(1, 5),
        st.sampled_from(["uint8", "uint16", "int16", "float32"]),
        st.sampled_from(["MINMAX", "DRA"]),
        st.sampled_from(["ramp", "outlier", "steps"]),
        st.integers(1, 100),
        rfl(0.2, 1, 2),
        tile,
        st.sampled_from([True, True, True, False]),
    ),
    quick=1200,
    shards=4,
    rule="the tile shows part of a multi-band image, or a part of the image with a range of its own",
)
def range_(case):
    """values are stretched by statistics of the whole image, the same in every tile, whether they are stored with the image
    or not; at most the first three bands are shown"""
    s, w, h, bands, dtype, kind, style, base, spread, t, known = case
    if bands == 2:
        bands = 3
    top = {"uint8": 150, "uint16": 20000, "int16": 9000, "float32": 900}[dtype]
    rows = []
    for b in range(bands):
        v = base + np.linspace(0, top * spread / (b + 1), w)
        if b % 2:
            v = v[::-1].copy()
        if style == "outlier":
            v[:2] = base + top
        if style == "steps":
            v = base + np.round((v - base) / (top / 8)) * (top / 8)
        rows.append(v)
    a = np.stack([np.tile(v, (h, 1)) for v in rows]).astype(dtype)
    i = {"w": w, "h": h, "bands": bands}
    m = Model(s, w, h)
    ds = make_dataset(a, 0, known)
    f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.PNG, range_adjustment=R[kind])
    box, size = geo_box(m, i, (t[0] * 0.4, t[1] * 0.4, min(t[2], 1.5), min(t[3], 1.5), t[4], t[5]))
    img = run(f, box, size)
    x, y = positions(m, box, size, m.height(w / 2, h / 2))
    inside = (x > 2) & (x < w - 3) & (y > 2) & (y < h - 3)
    if img is None:
        if inside.any():
            fail("no tile although part of the box is inside the image")
        return False
    if not inside.any():
        return False
    for c in range(3):
        b = c if bands >= 3 else 0
        v = a[b, 0].astype(float)
        ranges = [(v.min(), v.max())]
        slack = 0.0
        if kind == "DRA":
            lo, hi = ranges[0]
            n = min(max(256, int(hi - lo)), 2**16)
            step = (hi - lo) / n
            ranges = []
            for u in (v, v[v < hi]):  # pixels of the largest value may be counted in the last bucket or not at all
                idx = np.clip(((u - lo) / step).astype(int), 0, n - 1)
                counts = np.bincount(idx, minlength=n).tolist()
                e0, e1 = c18.quantile_low(counts, 0.02), c18.quantile_high(counts, 0.97)
                occ = np.flatnonzero(counts)
                ranges.append((lo + max(occ[0], e0 - 0.2 * (e1 - e0)) * step, lo + min(occ[-1], e1 + 0.4 * (e1 - e0)) * step))
            slack = 3 * step + (hi - lo) / w  # GDAL may count a sample of the rows; values sit at bucket borders
        if any(hi - lo < 30 or hi - lo < 6 * slack for lo, hi in ranges):
            continue
        # range of grey values within a pixel and a half of the location
        xi = np.clip(np.floor(x).astype(int), 0, w - 1)
        near = [np.clip(xi + d, 0, w - 1) for d in (-1, 0, 1, 2)]
        vmin = np.min([v[q] for q in near], axis=0)
        vmax = np.max([v[q] for q in near], axis=0)
        low = np.min([np.clip((vmin - lo - slack) / (hi - lo + 2 * slack), 0, 1) for lo, hi in ranges], axis=0) * 255 - 2
        high = np.max([np.clip((vmax - lo + slack) / (hi - lo - 2 * slack), 0, 1) for lo, hi in ranges], axis=0) * 255 + 2
        g = img[:, :, c]
        bad = inside & ((g < low) | (g > high))
        if bad.any():
            r, q = np.argwhere(bad)[0]
            fail("%s band %d: grey %r at image column %.2f, expected %.1f to %.1f", kind, b + 1, g[r, q], x[r, q], low[r, q], high[r, q])
    return bands > 1 or float(np.ptp(x)) < 0.7 * w


@check.sub(
    "complex",
    st.tuples(scene, st.integers(40, 120), st.integers(40, 120), tile, st.integers(0, 10**5), st.sampled_from(["MINMAX", "DRA", "NONE"]), st.sampled_from(["known", "unknown"])),
    quick=120,
    shards=2,
    rule="the tile shows part of the image",
)
def complex_(case):
    """two-band images are shown as magnitudes: grey in proportion to the magnitude whatever its phase, the mean magnitude
    (of the image when its statistics are known, otherwise of the tile) near a third of the scale, and when the statistics
    are known the same grey for the same magnitude in every tile"""
    s, w, h, t, seed, kind, stats = case
    r = np.random.default_rng(seed)
    xx = np.tile(np.arange(w), (h, 1))
    ph = r.uniform(0, 2 * math.pi, w)[None, :] + np.zeros((h, 1))
    top = r.choice([2.0, 200.0, 30000.0])
    mag = top * (0.02 + (xx / w) ** 2)
    a = np.stack([mag * np.cos(ph), mag * np.sin(ph)]).astype(np.float32)
    m = Model(s, w, h)
    ds = make_dataset(a, 0, stats == "known")
    if kind != "NONE":
        stats = "known"  # the factory computes them
    f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.PNG, range_adjustment=R[kind])
    box, size = geo_box(m, {"w": w, "h": h}, (t[0] * 0.3, t[1] * 0.3, min(t[2], 1.2), min(t[3], 1.2), t[4], t[5]))
    img = run(f, box, size)
    x, y = positions(m, box, size, m.height(w / 2, h / 2))
    inside = (x > 2) & (x < w - 3) & (y > 2) & (y < h - 3)
    if img is None:
        if inside.any():
            fail("no tile although part of the box is inside the image")
        return False
    if np.any(img[:, :, 0] != img[:, :, 1]) or np.any(img[:, :, 0] != img[:, :, 2]):
        fail("a magnitude image has colours")
    if inside.sum() < 2:
        return False
    v = mag[0]
    xi = np.clip(np.floor(x).astype(int), 0, w - 1)
    near = [np.clip(xi + d, 0, w - 1) for d in (-1, 0, 1, 2)]
    vmin, vmax = np.min([v[q] for q in near], axis=0), np.max([v[q] for q in near], axis=0)
    g = img[:, :, 0].astype(float)
    # the factors that explain each pixel: vmin * k - 1 <= g <= vmax * k + 1, unless clipped
    k_low = np.max(np.where(inside, (g - 1) / vmax, 0))
    mid = inside & (g < 255)
    k_high = np.min(((g + 1) / vmin)[mid]) if mid.any() else np.inf
    if k_low > k_high:
        fail("grey values are not proportional to the magnitude: factors %.4g and %.4g", k_low, k_high)
    if stats == "known":
        mean = float(np.mean(mag))
        whole = run(f, *geo_box(m, {"w": w, "h": h}, (0.0, 0.0, 1.0, 1.0, 64, 64)))
        b2, s2 = geo_box(m, {"w": w, "h": h}, (0.0, 0.0, 1.0, 1.0, 64, 64))
        x2, y2 = positions(m, b2, s2, m.height(w / 2, h / 2))
        in2 = (x2 > 2) & (x2 < w - 3) & (y2 > 2) & (y2 < h - 3)
        if whole is not None and in2.any():
            g2 = whole[:, :, 0].astype(float)
            q = np.clip(np.floor(x2).astype(int), 0, w - 1)
            n2 = [np.clip(q + d, 0, w - 1) for d in (-1, 0, 1, 2)]
            lo2 = np.max(np.where(in2, (g2 - 1) / np.max([v[z] for z in n2], axis=0), 0))
            m2 = in2 & (g2 < 255)
            hi2 = np.min(((g2 + 1) / np.min([v[z] for z in n2], axis=0))[m2]) if m2.any() else np.inf
            if max(lo2, k_low) > min(hi2, k_high):
                fail("two tiles of an image have different brightness: %.4g..%.4g and %.4g..%.4g", k_low, k_high, lo2, hi2)
        means = (mean, mean)
    else:
        # the mean of the tile's region, known to a pixel
        c0, c1 = int(np.floor(np.clip(x.min(), 0, w - 1))), int(np.floor(np.clip(x.max(), 0, w - 1)))
        means = [float(np.mean(v[max(c0 + d, 0) : min(c1 + d, w - 1) + 1])) for d in (-1, 1)]
    if k_high * means[1] * 3 / 255 < 0.4 or k_low * means[0] * 3 / 255 > 2.5:
        fail("the mean magnitude %.4g has grey %.4g to %.4g (%s statistics)", means[0], k_low * means[0], k_high * means[1], stats)
    return True


@check.sub("domain", st.tuples(scene, shape, tile, rfl(0.001, 0.02, 4)), quick=100, rule="the box leaves the domain of the model")
def domain(case):
    """where the model has no solution there is no tile, and no error"""
    s, i, t, lim = case
    m = Model(dict(s, limit=lim), i["w"], i["h"])
    a, _ = ramp(i)
    f = GDALTileFactory(make_dataset(a, 0), m, tile_format=GDALImageFormats.PNG)
    d = math.radians(lim) * 1.5
    if f.create_orthophoto_tile((m.lon - d, m.lat - d, m.lon + d, m.lat + d), (t[4], t[5])) is not None:
        fail("a tile although the model has no solution for its corners")
    return True


@check.sub(
    "detail",
    st.tuples(scene, st.sampled_from([0, 90, 180, 270]), st.integers(120, 700), st.integers(120, 700), st.integers(1, 4), st.tuples(rfl(-0.3, 0.3, 2), rfl(-0.3, 0.3, 2), rfl(0.02, 0.9, 3), rfl(0.02, 0.9, 3)), st.integers(4, 120)),
    quick=400,
    shards=2,
    rule="an overview is coarse enough to matter: the tile has fewer pixels than the region it shows",
)
def detail(case):
    """the tile is taken from the overview that matches its scale: never one coarser than the tile's own pixels, never one
    less than half as detailed as it could be"""
    s, ang, w, h, n, (cx, cy, fw, fh), size = case
    s = dict(s, ang=float(ang), slope=(0.0, 0.0))
    a = np.full((1, h, w), 40, dtype=np.uint8)
    ds = make_dataset(a, n)
    band = ds.GetRasterBand(1)
    for k in range(n):
        o = band.GetOverview(k)
        o.WriteArray(np.full((o.YSize, o.XSize), 40 * (k + 2), dtype=np.uint8))
    m = Model(s, w, h)
    f = GDALTileFactory(ds, m, tile_format=GDALImageFormats.PNG, range_adjustment=R.NONE)
    box, sz = geo_box(m, {"w": w, "h": h}, (cx, cy, fw, fh, size, size))
    x, y = positions(m, box, sz, m.height(w / 2, h / 2))
    inside = (x > 40) & (x < w - 40) & (y > 40) & (y < h - 40)
    img = run(f, box, sz)
    if img is None or not inside.any():
        return False
    values = set(img[inside][:, 0].tolist())
    if len(values) != 1 or next(iter(values)) % 40:
        fail("the tile mixes resolution levels: %r", sorted(values)[:5])
    k = int(next(iter(values)) // 40) - 1
    ext = min(np.ptp(x), np.ptp(y))
    most, least = (ext + 2.01) / size, (ext - 0.01) / size
    if k > 0 and 2**k > most:
        fail("overview %d (1 pixel per %d) for a tile with %.2f image pixels per tile pixel", k, 2**k, ext / size)
    if k < n and 2 ** (k + 1) <= least:
        fail("resolution level %d of %d for a tile with %.2f image pixels per tile pixel", k, n, ext / size)
    return least > 2


@check.sub(
    "opaque",
    st.tuples(scene, st.integers(24, 150), st.integers(24, 150), st.sampled_from([1, 3, 4, 5]), st.integers(1, 6), st.integers(0, 10**5), tile),
    quick=300,
    shards=2,
    rule="the image has more than one band",
)
def opaque(case):
    """dark is not empty: every location inside the image whose pixels are not zero is opaque, in every band combination"""
    s, w, h, bands, top, seed, t = case
    a = np.random.default_rng(seed).integers(1, top, (bands, h, w), endpoint=True).astype(np.uint8)
    m = Model(s, w, h)
    f = GDALTileFactory(make_dataset(a, 0), m, tile_format=GDALImageFormats.PNG, range_adjustment=R.NONE)
    box, size = geo_box(m, {"w": w, "h": h}, t)
    x, y = positions(m, box, size, m.height(w / 2, h / 2))
    inside = (x > 2) & (x < w - 3) & (y > 2) & (y < h - 3)
    img = run(f, box, size)
    if not inside.any():
        return False
    if img is None:
        fail("no tile although part of the box is inside the image")
    if np.any(img[inside][:, 3] != 255):
        fail("a dark location of the image is transparent")
    return bands > 1


@check.sub(
    "real_sizes",
    st.tuples(
        scene,
        shape,
        tile,
        st.integers(500, 3000),
        st.integers(500, 3000),
        st.sampled_from([(256, 256), (256, 256), (512, 512), (512, 256), (300, 200)]),
        st.booleans(),
    ),
    quick=40,
    shards=4,
    rule="the tile shows part of the image and part of its surroundings, or a turned image",
)
def real_sizes(case):
    """images and tiles of the sizes of map services"""
    s, i, t, w, h, size, second = case
    k = 2 ** min(i["overviews"], math.log2(max(1.0, t[2] * w / size[0], t[3] * h / size[1])))
    return geometry((s, dict(i, w=w, h=h, wave=40 * k), (*t[:4], *size), second))


@check.sub(
    "strips",
    st.tuples(
        scene,
        shape,
        st.tuples(rfl(-0.3, 0.3, 2), rfl(-0.3, 0.3, 2), rfl(0.3, 2.5, 2), rfl(0.3, 2.5, 2), st.integers(32, 90), st.integers(32, 90)),
        st.sampled_from([32700, 32762, 32763, 32766, 32767, 32768, 65535, 65600]) | st.integers(20000, 70000),
        st.integers(24, 80),
        st.booleans(),
    ),
    quick=12,
    shards=2,
    rule="a region of more than 32766 pixels",
)
def strips(case):
    """images longer than a 16 bit integer counts"""
    s, i, t, n, w, across = case
    i = dict(i, w=n if across else w, h=w if across else n, wave=n / 20)
    s = dict(s, ang=[0.0, 90.0, 180.0][n % 3], gsd=min(s["gsd"], 3.0), parallax=(0.0, 0.0), lat=s["lat"] / 2)
    geometry((s, i, t, False))
    return n * min(1, t[2 if across == (n % 3 != 1) else 3]) > 40000
