"""Shared generators, reference mathematics and comparison helpers (independent of the code under test)."""

import math

from hypothesis import strategies as st

A = 6378137.0
F = 1 / 298.257223563
B = A * (1 - F)
E2 = F * (2 - F)


class Mismatch(AssertionError):
    pass


def fail(msg, *args):
    raise Mismatch(msg % args if args else msg)


def close(a, b, atol, rtol=0.0, what="value"):
    a = float(a)
    b = float(b)
    if not (abs(a - b) <= atol + rtol * abs(b)):
        raise Mismatch(f"{what}: got {a!r}, expected {b!r} (difference {a - b:.6g}, tolerance {atol + rtol * abs(b):.3g})")


def lon_diff(a, b):
    """smallest signed difference between two angles in radians"""
    return (a - b + math.pi) % (2 * math.pi) - math.pi


def ecef(lon, lat, h):
    """closed form geodetic (radians, metres) to ECEF"""
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return (
        (n + h) * math.cos(lat) * math.cos(lon),
        (n + h) * math.cos(lat) * math.sin(lon),
        (n * (1 - E2) + h) * math.sin(lat),
    )


def geodetic(x, y, z):
    """ECEF to geodetic by fixed-point iteration (independent of PROJ); good to ~1e-9 m near the Earth"""
    lon = math.atan2(y, x)
    p = math.hypot(x, y)
    lat = math.atan2(z, p * (1 - E2))
    for _ in range(60):
        s = math.sin(lat)
        n = A / math.sqrt(1 - E2 * s * s)
        new = math.atan2(z + E2 * n * s, p)
        if abs(new - lat) < 1e-15:
            lat = new
            break
        lat = new
    s, c = math.sin(lat), math.cos(lat)
    n = A / math.sqrt(1 - E2 * s * s)
    h = p * c + z * s - A * math.sqrt(1 - E2 * s * s) if True else 0
    return lon, lat, h


def dist(a, b):
    return math.sqrt(sum((float(i) - float(j)) ** 2 for i, j in zip(a, b)))


def fl(lo, hi, **kw):
    """floats in [lo, hi], no NaN / infinities / subnormals"""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


def rfl(lo, hi, digits=6):
    """well spread floats: Hypothesis favours round values, this draws uniformly on a decimal lattice"""
    k = 10**digits
    return st.integers(math.ceil(lo * k), math.floor(hi * k)).map(lambda i: i / k)


def spread(lo, hi):
    """mixture of uniform lattice and Hypothesis' own interesting floats"""
    return st.one_of(rfl(lo, hi), fl(lo, hi))


def lon_deg():
    return st.one_of(
        spread(-180, 180),
        st.integers(-180, 180).map(float),
        st.sampled_from([-180.0, 180.0, -179.9999999, 179.9999999, 0.0, -1e-9, 1e-9, -90.0, 90.0]),
        st.builds(lambda d, s: d + s / 3600, st.integers(-180, 179), rfl(0, 3600, 3)),
    )


def lat_deg(lim=90):
    return st.one_of(
        spread(-lim, lim),
        st.integers(-int(lim), int(lim)).map(float),
        st.sampled_from([v for v in (0.0, -1e-9, 1e-9, 59.999999, 60.0, -56.0, -56.000001, 89.9999, -89.9999) if abs(v) <= lim]),
        st.builds(lambda d, s: d + s / 3600, st.integers(-int(lim), int(lim) - 1), rfl(0, 3600, 3)),
    )
