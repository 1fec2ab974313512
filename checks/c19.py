"""C19 SAR pixel operations."""

import math

import numpy as np
from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import fail, rfl

from aws.osml.image_processing import histogram_stretch, quarter_power_image
from aws.osml.image_processing.sar_complex_imageop import (
    complex_to_power_value,
    get_value_bounds,
    histogram_stretch_mag_values,
    image_pixels_to_complex,
    linear_mapping,
    power_value_in_decibels,
    quarter_power_mag_values,
)

check = Check(
    "C19",
    "SAR pixels become complex, power, decibel and display values by the SICD / SAND2019-2371 equations",
    ["images with at least one non-zero pixel (the display scaling divides by the mean)"],
)

kinds = ["AMP8I_PHS8I", "AMP8I_PHS8I_LUT", "RE32F_IM32F", "RE16I_IM16I", None]
image = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(kinds),
        "w": st.integers(1, 40),
        "h": st.integers(1, 40),
        "seed": st.integers(0, 10**6),
        "shape": st.sampled_from(["normal", "extreme", "sparse", "bright"]),
        "gain": st.sampled_from([1e-3, 1.0, 30.0, 1000.0]),
    }
)


def make(i):
    """(pixels, pixel type, amplitude table, reference complex values as float64 (2, h, w))"""
    r = np.random.default_rng(i["seed"])
    h, w = i["h"], i["w"]
    kind = i["kind"]
    if kind in ("AMP8I_PHS8I", "AMP8I_PHS8I_LUT"):
        if i["shape"] == "extreme":
            px = r.choice(np.array([0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255], dtype=np.uint8), (2, h, w))
        else:
            px = r.integers(0, 256, (2, h, w), dtype=np.uint8)
        if i["shape"] == "sparse":
            px[0] *= r.random((h, w)) < 0.2
        px[0].flat[0] = 200
        lut = None
        amp = px[0].astype(float)
        if kind.endswith("LUT"):
            lut = np.sort(r.uniform(0, 1000 * i["gain"], 256)) if i["shape"] != "bright" else np.exp(np.arange(256) / 30.0)
            lut[0] = 0.0
            amp = lut[px[0].astype(int)]
        ph = 2 * math.pi * px[1].astype(float) / 256.0
        ref = np.stack([amp * np.cos(ph), amp * np.sin(ph)])
        return px, "AMP8I_PHS8I", lut, ref
    if kind == "RE16I_IM16I":
        if i["shape"] == "extreme":
            px = r.choice(np.array([-32768, -32767, -182, -181, 0, 1, 181, 182, 32767], dtype=np.int16), (2, h, w))
        else:
            px = np.clip(r.normal(0, 5000, (2, h, w)), -32768, 32767).astype(np.int16)
    else:
        px = (r.normal(0, i["gain"], (2, h, w))).astype(np.float32)
    if i["shape"] == "sparse":
        px = px * (r.random((2, h, w)) < 0.2).astype(px.dtype)
    if i["shape"] == "bright":
        px[:, -1, -1] = 32000
    px[0].flat[0] = 3
    return px, kind, None, px.astype(float)


def same(got, want, rtol, atol, what):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        fail("%s: shape %r, expected %r", what, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        fail("%s: pixel %r is %r, expected %r", what, k, got[k], want[k])


@check.sub("complex_power", image, quick=1200, shards=2, rule="more than one pixel")
def complex_power(i):
    px, kind, lut, ref = make(i)
    keep = px.copy()
    tables = (lut,) if lut is None else (lut, list(lut))
    for t in tables:
        c = image_pixels_to_complex(px, pixel_type=kind, amplitude_table=t)
        same(c, ref, 1e-6, 1e-6 * float(np.abs(ref).max()), f"{kind} complex values")
    p = complex_to_power_value(c)
    want = ref[0] ** 2 + ref[1] ** 2
    same(p, want, 1e-5, 1e-30, f"{kind} power")
    nz = want > 0
    db = power_value_in_decibels(p[nz])
    same(db, 10 * np.log10(want[nz]), 0, 1e-3, "decibels")
    lo, hi = get_value_bounds(p)
    if lo != p.min() or hi != p.max():
        fail("bounds %r of %r..%r", (lo, hi), p.min(), p.max())
    if not np.array_equal(px, keep):
        fail("the pixels were modified")
    return px.size > 2


@check.sub(
    "display",
    st.tuples(image, st.none() | rfl(0.5, 12, 2), st.none() | rfl(0.1, 50, 2)),
    quick=1200,
    shards=2,
    rule="the output has dark, bright and intermediate pixels",
)
def display(case):
    i, scale, mean = case
    px, kind, lut, ref = make(i)
    keep = px.copy()
    power = ref[0] ** 2 + ref[1] ** 2
    kw = {} if scale is None else {"scale_factor": scale}
    h = histogram_stretch(px, pixel_type=kind, amplitude_table=lut, **kw)
    want = np.clip(255 * power / ((scale or 8.0) * power.mean()), 0, 255)
    same(h, want, 1e-4, 1e-3, f"{kind} histogram stretch")
    h2 = histogram_stretch_mag_values(power, **kw)
    same(h2, want, 1e-4, 1e-3, "histogram stretch of power values")
    q = quarter_power_image(px, pixel_type=kind, amplitude_table=lut, precomputed_mean=mean, **kw)
    root = np.sqrt(power)
    want_q = np.clip(255 * root / ((scale or 3.0) * (root.mean() if mean is None else mean)), 0, 255)
    same(q, want_q, 1e-4, 1e-3, f"{kind} quarter power image")
    same(quarter_power_mag_values(-power, precomputed_mean=mean, **kw), want_q, 1e-4, 1e-3, "quarter power of values")
    # a pixel that is not finite does not disturb the scaling of the others
    if px.dtype == np.float32 and px[0].size > 1:
        for badv in (np.nan, np.inf):
            pw = power.copy()
            pw.flat[-1] = badv
            g = histogram_stretch_mag_values(pw, **kw)
            w = np.clip(255 * pw.flat[:-1] / ((scale or 8.0) * pw.flat[:-1].mean()), 0, 255)
            same(g.ravel()[:-1], w, 1e-4, 1e-3, f"histogram stretch beside {badv}")
            g = quarter_power_mag_values(pw, **kw)
            rt = np.sqrt(pw.flat[:-1])
            same(g.ravel()[:-1], np.clip(255 * rt / ((scale or 3.0) * rt.mean()), 0, 255), 1e-4, 1e-3, f"quarter power beside {badv}")
    # brighter never becomes darker, whatever the parameters
    order = np.argsort(power.ravel(), kind="stable")
    for name, o in (("histogram stretch", h), ("quarter power", q)):
        o = np.asarray(o, dtype=float).ravel()
        if o.min() < 0 or o.max() > 255:
            fail("%s leaves 0..255: %r..%r", name, o.min(), o.max())
        if np.any(np.diff(o[order]) < -1e-2):
            fail("%s: brighter pixels became darker", name)
    if not np.array_equal(px, keep):
        fail("the pixels were modified")
    return bool((want < 1).any() and (want > 250).any() and ((want > 5) & (want < 250)).any())


@check.sub(
    "linear_mapping",
    st.tuples(
        st.sampled_from(["uint8", "int16", "uint16", "float32"]),
        st.lists(st.integers(-100, 100) | st.integers(-32768, 32767), min_size=1, max_size=60),
        st.integers(1, 3),
    ),
    quick=1500,
    shards=2,
    rule="at least three different values",
)
def linear(case):
    t, v, shape = case
    i = None if t == "float32" else np.iinfo(t)
    a = np.array([x if i is None else min(max(x, i.min), i.max) for x in v]).astype(t)
    if shape == 2:
        a = a.reshape(1, -1)
    elif shape == 3:
        a = a.reshape(a.size, 1, 1) if a.size % 2 else a.reshape(2, 1, -1)
    keep = a.copy()
    g = np.asarray(linear_mapping(a), dtype=float)
    f = a.astype(float)
    if f.max() == f.min():
        if g.shape != a.shape or g.min() < 0 or g.max() > 1:
            fail("constant values map to %r", g)
    else:
        same(g, (f - f.min()) / (f.max() - f.min()), 0, 1e-5, "linear mapping")
        if g.min() != 0 or g.max() != 1:
            fail("range %r..%r", g.min(), g.max())
    if not np.array_equal(a, keep):
        fail("the values were modified")
    return len(set(f.ravel().tolist())) > 2


@check.sub(
    "unknown",
    st.text(max_size=12).filter(lambda s: s not in ("AMP8I_PHS8I", "RE32F_IM32F", "RE16I_IM16I")),
    quick=100,
    examples=["RE32F", "amp8i_phs8i", "RE16I_IM16I ", ""],
    rule="always",
)
def unknown(t):
    px = np.ones((2, 3, 3), dtype=np.float32)
    for fn in (image_pixels_to_complex, histogram_stretch, quarter_power_image):
        try:
            fn(px, pixel_type=t)
        except ValueError:
            continue
        fail("pixel type %r was accepted", t)
    return True


sides = st.sampled_from([1, 512, 1000, 1024, 1500, 2049]) | st.integers(41, 1500)


@check.sub(
    "real_sizes",
    st.tuples(image, sides, sides, st.none() | rfl(0.5, 12, 2), st.none() | rfl(0.1, 50, 2)),
    quick=10,
    shards=4,
    rule="always: images of the sizes in which they are read",
)
def real_sizes(case):
    i, w, h, scale, mean = case
    i = dict(i, w=w, h=h)
    complex_power(i)
    display((i, scale, mean))
    return True
