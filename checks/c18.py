"""C18 dynamic range selection and range adjustment."""

import math

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from lib import rasters
from lib.pbt import Check
from lib.util import close, fail, rfl

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, get_type_and_scales
from aws.osml.gdal.gdal_utils import get_minmax_for_type
from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
from aws.osml.image_processing import GDALTileFactory

check = Check(
    "C18",
    "Range adjustment selects the documented pixel range and maps it linearly onto the output",
    [
        "GDAL may estimate statistics from a sample of rows: every generated row holds the same values",
        "the selected limits are resolved to one histogram bucket",
    ],
)

R = RangeAdjustmentType
counts = st.lists(st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 100000)), min_size=1, max_size=400).filter(lambda c: sum(c) > 0)


def quantile_low(c, p):
    """first index at which at least a fraction p of the counts is at or below"""
    t = p * sum(c)
    acc = 0
    for i, v in enumerate(c):
        acc += v
        if acc >= t:
            return i
    return len(c) - 1


def quantile_high(c, p):
    """last index at which no more than a fraction p of the counts is at or below (0 if none)"""
    t = p * sum(c)
    acc, best = 0, 0
    for i, v in enumerate(c):
        acc += v
        if acc <= t:
            best = i
    return best


TYPE_RANGES = [("GDT_Byte", "uint8"), ("GDT_UInt16", "uint16"), ("GDT_Int16", "int16"), ("GDT_UInt32", "uint32"), ("GDT_Int32", "int32")]
TYPE_RANGES += [("GDT_UInt64", "uint64"), ("GDT_Int64", "int64"), ("GDT_Float32", "float32"), ("GDT_Float64", "float64")]


@check.sub("types", None, quick=0, examples=[list(t) for t in TYPE_RANGES], rule="always")
def types(case):
    """the full range of a pixel type is the range of values it can hold"""
    gdal_name, name = case
    t = np.dtype(name)
    lo, hi = get_minmax_for_type(getattr(gdal, gdal_name))
    if t.kind == "f":
        i = np.finfo(t)
        close(lo, float(i.min), 0, 1e-7, "smallest value")
        close(hi, float(i.max), 0, 1e-7, "largest value")
    else:
        i = np.iinfo(t)
        if (lo, hi) != (i.min, i.max):
            fail("the range of %s is given as %r", name, (lo, hi))
    return True


@check.sub(
    "dra",
    st.tuples(
        counts,
        st.none() | st.tuples(rfl(-1000, 1000, 2), rfl(0, 70000, 2)),
        st.none() | st.tuples(st.sampled_from([0.0, 0.01, 0.02, 0.1]), st.sampled_from([0.9, 0.97, 0.98, 1.0]), rfl(0, 0.6, 2), rfl(0, 0.6, 2)),
        st.booleans(),
    ),
    quick=1500,
    shards=2,
    rule="more than one histogram bucket is occupied",
)
def dra(case):
    c, span, par, as_float = case
    c = [float(v) for v in c] if as_float else list(c)
    kw = {}
    lo, hi = 0, len(c)
    if span is not None:
        lo, hi = span[0], span[0] + span[1]
        kw.update(first_bucket_value=lo, last_bucket_value=hi)
    p0, p1, a, b = par or (0.02, 0.98, 0.2, 0.4)
    if par is not None:
        kw.update(min_percentage=p0, max_percentage=p1, a=a, b=b)
    keep = list(c)
    d = DRAParameters.from_counts(c, **kw)
    if c != keep:
        fail("the histogram was changed")
    step = (hi - lo) / len(c)
    occ = [i for i, v in enumerate(c) if v]
    e0, e1 = quantile_low(c, p0), quantile_high(c, p1)
    want = (
        (d.actual_min_value, occ[0], "actual minimum"),
        (d.actual_max_value, occ[-1], "actual maximum"),
        (d.suggested_min_value, max(occ[0], e0 - a * (e1 - e0)), "suggested minimum"),
        (d.suggested_max_value, min(occ[-1], e1 + b * (e1 - e0)), "suggested maximum"),
    )
    for got, i, what in want:
        close(got, lo + i * step, 1e-6 + 1e-9 * abs(hi), what=f"{what} of histogram {keep if len(keep) < 30 else len(keep)}")
    return len(occ) > 1


@check.sub(
    "limits",
    st.sampled_from(sorted(rasters.TYPES)),
    quick=1,
    examples=sorted(rasters.TYPES),
    rule="always: every supported pixel type",
)
def limits(dtype):
    got = get_minmax_for_type(rasters.TYPES[dtype])
    t = np.dtype(dtype)
    i = np.finfo(t) if t.kind == "f" else np.iinfo(t)
    for g, w in zip(got, (i.min, i.max)):
        close(g, float(w), 0, 1e-7, f"limit of {dtype}")
    return True


image = st.fixed_dictionaries(
    {
        "w": st.integers(2, 60),
        "h": st.integers(1, 24),
        "bands": st.integers(1, 6),
        "dtype": st.sampled_from(["uint8", "uint16", "int16", "float32", "float64", "int32", "uint32"]),
        "seed": st.integers(0, 10**6),
        "shape": st.sampled_from(["uniform", "outlier", "two", "constant", "bright", "wide"]),
        "base": st.integers(0, 100),
        "spread": st.integers(2, 150) | st.integers(2, 20000),
    }
)


def make(i):
    t = np.dtype(i["dtype"])
    r = np.random.default_rng(i["seed"])
    spread = i["spread"] if i["dtype"] != "uint8" else min(i["spread"], 150)
    if i["shape"] == "wide" and i["dtype"] in ("int32", "uint32"):
        spread = 2**31 - 1000
    out = []
    for b in range(i["bands"]):
        base = i["base"] if t.kind == "u" else i["base"] - 50
        if i["shape"] == "constant":
            v = np.full(i["w"], base + b)
        elif i["shape"] == "two":
            v = np.where(np.arange(i["w"]) % 2 == 0, base, base + spread)
        else:
            v = base + r.integers(0, max(2, spread // 2), i["w"]).astype(float)
            if i["shape"] == "outlier":
                v[0] = base + spread
            if i["shape"] == "bright":
                v = base + spread - (v - base) // 8
            if i["shape"] == "wide":
                v = base + (r.uniform(0, 1, i["w"]) * spread).astype(np.int64)
        v = np.asarray(v)
        if t.kind == "f":
            v = v * 0.37
        # every row is a permutation of the same values
        out.append(np.stack([r.permutation(v) for _ in range(i["h"])]))
    return np.stack(out).astype(t)


def reference_range(band, dtype, kind):
    """(min, max, bucket width) selected for one band"""
    lo, hi = float(band.min()), float(band.max())
    if hi == lo:
        return lo, hi, 0.0
    n = 255 if dtype.startswith("float") else min(int(hi - lo), 2**16)
    step = (hi - lo) / n
    if kind is R.MINMAX:
        return lo, hi, step
    idx = np.clip(((band.astype(float) - lo) / step).astype(int), 0, n - 1)
    c = np.bincount(idx.ravel(), minlength=n).tolist()
    e0, e1 = quantile_low(c, 0.02), quantile_high(c, 0.98)
    occ = np.flatnonzero(c)
    return lo + max(occ[0], e0 - 0.2 * (e1 - e0)) * step, lo + min(occ[-1], e1 + 0.4 * (e1 - e0)) * step, step


@check.sub(
    "scales",
    st.tuples(image, st.sampled_from(["NONE", "MINMAX", "DRA"]), st.none() | st.sampled_from(["uint8", "uint16", "int16"])),
    quick=700,
    shards=3,
    rule="a range adjustment is requested and the pixels are not constant",
)
def scales(case):
    i, kind, out = case
    kind = R[kind]
    a = make(i)
    ds, _ = rasters.dataset(a)
    got_type, got = get_type_and_scales(ds, None if out is None else rasters.TYPES[out], kind)
    if got_type != rasters.TYPES[out or i["dtype"]]:
        fail("output type %r for %r -> %r", got_type, i["dtype"], out)
    if len(got) != i["bands"]:
        fail("%d scale parameters for %d bands", len(got), i["bands"])
    o = get_minmax_for_type(rasters.TYPES[out or i["dtype"]])
    s = get_minmax_for_type(rasters.TYPES[i["dtype"]])
    for b, p in enumerate(got):
        if tuple(p[2:]) != tuple(o):
            fail("band %d is mapped to %r, the output range is %r", b, p[2:], o)
        if kind is R.NONE:
            if tuple(p[:2]) != tuple(s):
                fail("band %d: range %r without adjustment, the type's is %r", b, p[:2], s)
            continue
        lo, hi, step = reference_range(a[b], i["dtype"], kind)
        tol = 1.01 * step * (2.5 if kind is R.DRA else 1) + 1e-6 * abs(hi) + 1e-6
        close(p[0], lo, tol, what=f"{kind.name} minimum of band {b} ({i['dtype']}, {i['shape']})")
        close(p[1], hi, tol, what=f"{kind.name} maximum of band {b} ({i['dtype']}, {i['shape']})")
    if not np.array_equal(rasters.array(ds), a):
        fail("the image was modified")
    return kind is not R.NONE and i["shape"] != "constant"


@check.sub(
    "adjusted_tiles",
    st.tuples(
        image,
        st.sampled_from(["MINMAX", "DRA"]),
        st.sampled_from(["uint8", "uint16", "uint8", "uint16", "int16", "uint32", "int32", None]),
        st.tuples(rfl(0, 0.9, 2), rfl(0, 0.9, 2)),
    ),
    quick=500,
    shards=3,
    rule="more than four different values in the tile",
)
def adjusted_tiles(case):
    """pixels of an adjusted tile: monotone, clamped, linear between the selected limits, using statistics of the whole image"""
    i, kind, out, (fx, fy) = case
    if out is None and i["dtype"].startswith("float"):
        out = "uint8"  # see the known finding below
    kind = R[kind]
    a = make(i)
    ds, _ = rasters.dataset(a)
    f = GDALTileFactory(
        ds, tile_format=GDALImageFormats.GTIFF, tile_compression=GDALCompressionOptions.NONE, output_type=out and rasters.TYPES[out], range_adjustment=kind
    )
    out = out or i["dtype"]
    x, y = int(fx * i["w"]), int(fy * i["h"])
    sw = [x, y, i["w"] - x, i["h"] - y]
    with rasters.decoded(f.create_encoded_tile(sw)) as t:
        if t.GetRasterBand(1).DataType != rasters.TYPES[out]:
            fail("the pixels are %s, expected %s", gdal.GetDataTypeName(t.GetRasterBand(1).DataType), out)
        got = rasters.array(t).astype(float)
    limits = np.finfo(out) if out.startswith("float") else np.iinfo(out)
    # what is compared: 0 to top, however the output type writes it
    top = min(float(limits.max) - float(limits.min), 2.0**32)
    got = (got / 2 - float(limits.min) / 2) * (top / (float(limits.max) / 2 - float(limits.min) / 2))
    eps = 1.5 + 4e-7 * top
    for b in range(i["bands"]):
        v = a[b, y:, x:].astype(float)
        lo, hi, step = reference_range(a[b], i["dtype"], kind)
        if i["shape"] == "constant" or hi - lo <= 4 * step:
            order = np.argsort(v.ravel(), kind="stable")
            if np.any(np.diff(got[b].ravel()[order]) < 0):
                fail("brighter pixels became darker")
            continue
        k = 2.5 if kind is R.DRA else 1.0
        upper = np.clip((v - lo + k * step) / max(hi - lo - k * step, 1e-9), 0, 1) * top
        lower = np.clip((v - lo - k * step) / (hi - lo + 2 * k * step), 0, 1) * top
        g = got[b]
        bad = (g > upper + eps) | (g < lower - eps) | ~np.isfinite(g)
        if bad.any():
            r, c = np.argwhere(bad)[0]
            fail("band %d: value %r becomes %r, expected %.1f to %.1f (%s %r..%r)", b, v[r, c], g[r, c], lower[r, c], upper[r, c], kind.name, lo, hi)
        order = np.argsort(v.ravel(), kind="stable")
        if np.any(np.diff(g.ravel()[order]) < 0):
            fail("brighter pixels became darker")
    return len(np.unique(a)) > 4


@check.known_finding(
    "adjusted-float-output",
    "a range adjusted tile with floating point output pixels contains infinities (Float32) or only NaN (Float64): the output "
    "range is the whole range of the type, whose width overflows",
)
def adjusted_float():
    bad = []
    for dtype in ("float32", "float64"):
        ds, _ = rasters.dataset(np.arange(64, dtype=dtype).reshape(1, 8, 8))
        f = GDALTileFactory(ds, tile_format=GDALImageFormats.GTIFF, tile_compression=GDALCompressionOptions.NONE, range_adjustment=R.MINMAX)
        with rasters.decoded(f.create_encoded_tile([0, 0, 8, 8])) as t:
            bad.append(not np.all(np.isfinite(rasters.array(t))))
    return any(bad)
