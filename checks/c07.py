"""C07 - SAR (SICD) image_to_world: the result lies on the pixel's R/Rdot contour and on the requested surface."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import sar
from lib.pbt import Check
from lib.util import close, ecef, fail, rfl

from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    ElevationRegionSummary,
    ImageCoordinate,
    INCAProjectionSet,
    PFAProjectionSet,
    PlaneProjectionSet,
    Polynomial2D,
    PolynomialXYZ,
    RGAZCOMPProjectionSet,
    WorldCoordinate,
)
from aws.osml.photogrammetry.sicd_sensor_model import GroundPlaneRRDotSurfaceProjection

check = Check(
    "C07",
    "SAR image_to_world meets range, range-rate, side-of-track and surface constraints",
    [
        "scenes are at least 40 times smaller than the slant range, grazing angles 22-68 degrees, squint within 15 degrees",
        "the reference R/Rdot equations (SICD Volume 3 section 4) are evaluated by this harness from the generated metadata",
    ],
)

frac = st.tuples(rfl(-1, 1, 4), rfl(-1, 1, 4))
points = st.lists(frac, min_size=1, max_size=4)


def build(sc):
    m = SICDSensorModelBuilder(sar.sicd_xml(sc)).build()
    if m is None:
        fail("no sensor model for a complete %s SICD", sc.kind)
    return m


def on_contour(sc, x, y, P, tol=1e-5, what=""):
    r, along, look = sc.residual(x, y, P)
    close(r, 0.0, tol, what=f"{what}distance off the range sphere (m), {sc.kind}")
    close(along, 0.0, tol * 10, what=f"{what}distance off the Doppler cone (m), {sc.kind}")
    if look != sc.s["look"]:
        fail("%sthe point is on the wrong side of the track (%s)", what, sc.kind)


@check.sub(
    "plane",
    st.tuples(sar.scene(), points),
    quick=700,
    shards=3,
    rule="the aperture time or the pixel grid offset varies (every generated scene with a non-constant COA time polynomial)",
)
def plane(case):
    s, pts = case
    sc = sar.Scene(s)
    m = build(sc)
    for a, b in pts:
        x, y = sc.pixel(a, b)
        q = ImageCoordinate([x, y])
        w = m.image_to_world(q)
        if list(q.coordinate) != [x, y]:
            fail("image_to_world changed its input")
        P = np.array(ecef(*w.coordinate))
        on_contour(sc, x, y, P)
        close(float((P - sc.scp) @ sc.normal), 0.0, 1e-5, what="distance from the default ground plane")
    # the scene centre pixel is the scene centre point
    x, y = sc.scp_col - sc.first[1], sc.scp_row - sc.first[0]
    w = m.image_to_world(ImageCoordinate([x, y]))
    d = float(np.linalg.norm(np.array(ecef(*w.coordinate)) - sc.scp))
    if sc.kind != "INCA" and not d <= 1e-3:  # the generated INCA metadata is only second order accurate
        fail("scene centre pixel is %.4f m from the scene centre point (%s)", d, sc.kind)
    return bool(np.any(sc.time_c.ravel()[1:] != 0))


@check.sub(
    "height",
    st.tuples(sar.scene(), points, rfl(-400, 400, 2)),
    quick=400,
    shards=3,
    rule="the surface is more than 5 m from the scene centre height",
)
def height(case):
    s, pts, dh = case
    sc = sar.Scene(s)
    m = build(sc)
    dh = max(-0.02 * sc.R, min(0.02 * sc.R, dh))
    h = s["hae"] + dh
    for a, b in pts:
        x, y = sc.pixel(a, b)
        w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=ConstantElevationModel(h))
        close(w.elevation, h, 1.5e-3, what="height of the result")
        on_contour(sc, x, y, np.array(ecef(*w.coordinate)), 1e-3)
    return abs(dh) > 5


class Dem(ElevationModel):
    """smooth terrain around the scene centre with exact bounds; optionally without coverage"""

    def __init__(self, sc, base, amp, wave, phase, spacing, covered=True):
        self.sc, self.base, self.amp, self.wave, self.phase = sc, base, amp, wave, phase
        self.spacing, self.covered = spacing, covered

    def height(self, lon, lat):
        e = (lon - self.sc.lon + math.pi) % (2 * math.pi) - math.pi
        x, y = e * math.cos(self.sc.lat) * 6378137.0, (lat - self.sc.lat) * 6378137.0
        k = 1.0 / self.wave
        return self.base + self.amp * 0.5 * (np.sin(k * x + self.phase[0]) + np.sin(0.8 * k * y + self.phase[1]))

    def set_elevation(self, c):
        if self.covered:
            c.elevation = float(self.height(c.longitude, c.latitude))

    def describe_region(self, c):
        if not self.covered:
            return None
        return ElevationRegionSummary(
            min_elevation=self.base - self.amp - 1, max_elevation=self.base + self.amp + 1, no_data_value=-32768, post_spacing=self.spacing
        )


@check.sub(
    "terrain",
    st.tuples(sar.scene(), frac, rfl(-200, 200, 2), rfl(0, 90, 2), rfl(200, 3000, 1), st.tuples(rfl(0, 6.3, 3), rfl(0, 6.3, 3)), rfl(5, 40, 1)),
    quick=350,
    shards=4,
    rule="relief of more than 5 m",
)
def terrain(case):
    s, (a, b), dh, amp, wave, phase, spacing = case
    sc = sar.Scene(s)
    m = build(sc)
    lim = 0.01 * sc.R
    amp = min(amp, lim)
    dem = Dem(sc, s["hae"] + max(-lim, min(lim, dh)), amp, wave, phase, spacing)
    x, y = sc.pixel(a, b)
    w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=dem)
    curvature = amp / wave**2
    tol = 0.02 + 30 * curvature
    P = np.array(ecef(*w.coordinate))
    close(w.elevation, float(dem.height(w.longitude, w.latitude)), tol, what="height of the result above the terrain, as terrain height")
    on_contour(sc, x, y, P, 1e-4)
    # of several intersections the lowest is returned: follow the contour downwards, it must stay below the terrain
    r, rd, t, p, v = sc.pixel_contour(x, y)
    vh = v / np.linalg.norm(v)
    ctr = p - (r * rd / np.linalg.norm(v)) * vh
    e1 = P - ctr
    rad = float(np.linalg.norm(e1))
    e1 = e1 / rad
    e2 = np.cross(vh, e1)
    if e2 @ sc.up > 0:
        e2 = -e2
    n = int(2 * amp / math.cos(math.radians(s["graz"])) / 2.0) + 10
    ang = (np.arange(1, n) * 2.0) / rad
    C = ctr + rad * (np.cos(ang)[:, None] * e1 + np.sin(ang)[:, None] * e2)
    lon, lat, h = sar.geo_np(C)
    gap = h - dem.height(lon, lat)
    if np.any(gap > 0.5 + 40 * curvature):
        i = int(np.argmax(gap))
        fail("the contour also meets the terrain lower down (%.1f m below the result it is %.2f m above the terrain)", w.elevation - h[i], gap[i])
    return amp > 5


class Ridges(Dem):
    """steep ridges (layover), described with exact bounds; with a hole without data in some cases"""

    def __init__(self, sc, base, amp, wave, phase, spacing, direction, hole=None):
        super().__init__(sc, base, amp, wave, phase, spacing)
        self.direction, self.hole = math.radians(direction), hole  # hole: start and width (m) along the direction of the waves

    def along(self, lon, lat):
        e = (lon - self.sc.lon + math.pi) % (2 * math.pi) - math.pi
        x, y = e * math.cos(self.sc.lat) * 6378137.0, (lat - self.sc.lat) * 6378137.0
        return x * math.cos(self.direction) + y * math.sin(self.direction)

    def height(self, lon, lat):
        return self.base + self.amp * np.sin(self.along(lon, lat) / self.wave + self.phase[0])

    def data(self, lon, lat):
        if self.hole is None:
            return lon == lon
        return (self.along(lon, lat) - self.hole[0]) % (self.hole[1] * 4) >= self.hole[1]

    def set_elevation(self, c):
        if self.data(c.longitude, c.latitude):
            super().set_elevation(c)


@check.sub(
    "ridges",
    st.tuples(
        sar.scene(),
        frac,
        rfl(-100, 100, 2),
        rfl(0.4, 3.5, 2),
        rfl(10, 60, 1),
        rfl(0, 6.3, 3),
        rfl(-30, 30, 1),
        rfl(0.5, 6, 1),
        st.just(None) | st.tuples(rfl(0, 500, 1), rfl(10, 60, 1)),
    ),
    quick=200,
    shards=4,
    rule="the contour meets the terrain more than once",
)
def ridges(case):
    """steep terrain that the contour meets several times: the lowest of the intersections is returned"""
    s, (a, b), dh, ratio, wave, phase, turn, spacing, hole = case
    sc = sar.Scene(s)
    m = build(sc)
    lim = 0.01 * sc.R
    amp = min(ratio * wave, lim)
    x, y = sc.pixel(a, b)
    q = ImageCoordinate([x, y])
    r, rd, t, p, v = sc.pixel_contour(x, y)
    u = m.image_to_world(q)
    P0 = np.array(ecef(*u.coordinate))
    ground = P0 - p
    direction = math.degrees(math.atan2(ground @ sc.north, ground @ sc.east)) + turn
    dem = Ridges(sc, s["hae"] + max(-lim, min(lim, dh)), amp, wave, (phase, 0), spacing, direction, hole)
    w = m.image_to_world(q, elevation_model=dem)
    P = np.array(ecef(*w.coordinate))
    on_contour(sc, x, y, P, 1e-4)
    # the contour, every 0.25 m, over all heights of the terrain
    vh = v / np.linalg.norm(v)
    ctr = p - (r * rd / np.linalg.norm(v)) * vh
    e1 = P0 - ctr
    rad = float(np.linalg.norm(e1))
    e1 = e1 / rad
    e2 = np.cross(vh, e1)
    if e2 @ sc.up < 0:
        e2 = -e2
    rise = abs(e2 @ sc.up)
    mid = (dem.base - u.elevation) / rise
    reach = (amp + 15) / rise * 1.3 + 20
    d = np.arange(mid - reach, mid + reach, 0.25)
    C = ctr + rad * (np.cos(d / rad)[:, None] * e1 + np.sin(d / rad)[:, None] * e2)
    lon, lat, h = sar.geo_np(C)
    gap, data = h - dem.height(lon, lat), dem.data(lon, lat)
    step = min(10.0, 0.5 * spacing) / max(0.2, abs(math.sin(math.radians(s["graz"])))) + 0.5  # along the contour
    bend = amp / wave**2
    off = 0.05 + 0.5 * bend * step**2  # of a chord of one step
    crossing = [i for i in range(1, len(d)) if gap[i - 1] * gap[i] <= 0 and data[i - 1] and data[i]]
    at = float((P - P0) @ e2)
    where = int(np.argmin(np.abs(d - at)))
    if float(np.linalg.norm(P - P0)) > 1e-6:
        near = data[max(0, where - int(4 * step) - 2) : where + int(4 * step) + 2]
        if not data[where] and not (near.any() and np.abs(np.flatnonzero(near) - len(near) // 2).min() <= 2):
            fail("the result is %s where the elevation model has no data", w.coordinate)
        close(w.elevation, float(dem.height(w.longitude, w.latitude)), off, what="height of the result above the ridges, as terrain height")
    elif hole is None:
        fail("the default surface instead of the terrain")
    # a crossing lower down that no sampling of the contour at the specified steps can miss
    for i in crossing:
        n = int(2.2 * step / 0.25) + 1
        if d[i] > d[where] - 2 * step and float(np.linalg.norm(P - P0)) > 1e-6:
            break
        lo, hi = max(0, i - n), min(len(d), i + n)
        if i - n < 0 or i + n > len(d) or not data[lo:hi].all():
            continue
        below, above = gap[lo:i], gap[i:hi]
        if (below < 0).all() and (above > 0).all() or (below > 0).all() and (above < 0).all():
            if float(np.linalg.norm(P - P0)) <= 1e-6:
                fail("the default surface instead of the terrain at height %.2f", h[i])
            fail("the contour also meets the terrain at height %.2f, lower than the result at %.2f", h[i], w.elevation)
    return len(crossing) > 1


class Tiles(Dem):
    """the terrain in two tiles: each describes its own heights, one of them may be missing"""

    def __init__(self, sc, base, amp, wave, phase, spacing, split, missing):
        super().__init__(sc, base, amp, wave, phase, spacing)
        self.split, self.missing = split, missing  # split: lon, lat, angle of the border

    def side(self, lon, lat):
        e = (lon - self.split[0] + math.pi) % (2 * math.pi) - math.pi
        x, y = e * math.cos(self.split[1]), lat - self.split[1]
        return (x * math.cos(self.split[2]) + y * math.sin(self.split[2])) >= 0

    def height(self, lon, lat):
        """a slope across the border, so each tile has heights that the other does not have"""
        e = (lon - self.split[0] + math.pi) % (2 * math.pi) - math.pi
        x, y = e * math.cos(self.split[1]) * 6378137.0, (lat - self.split[1]) * 6378137.0
        d = x * math.cos(self.split[2]) + y * math.sin(self.split[2])
        return self.base + self.amp * np.tanh(d / self.wave)

    def data(self, c):
        return self.missing is None or bool(self.side(c.longitude, c.latitude)) != self.missing

    def set_elevation(self, c):
        if self.data(c):
            c.elevation = float(self.height(c.longitude, c.latitude))

    def describe_region(self, c):
        if not self.data(c):
            return None
        lo, hi = (self.base, self.base + self.amp) if self.side(c.longitude, c.latitude) else (self.base - self.amp, self.base)
        lo, hi = min(lo, hi), max(lo, hi)
        return ElevationRegionSummary(min_elevation=lo, max_elevation=hi, no_data_value=-32768, post_spacing=self.spacing)


@check.sub(
    "tiles",
    st.tuples(sar.scene(), frac, frac, rfl(-200, 200, 2), rfl(-90, 90, 2), rfl(200, 3000, 1), rfl(0, 6.3, 3), rfl(5, 40, 1), st.sampled_from([None, None, True, False])),
    quick=400,
    shards=4,
    rule="the scene centre and the point are in different tiles",
)
def tiles(case):
    """scenes across the border of two elevation tiles, one of which may be missing"""
    s, (a, b), (c, d), dh, amp, wave, angle, spacing, missing = case
    sc = sar.Scene(s)
    m = build(sc)
    lim = 0.01 * sc.R
    amp = math.copysign(min(abs(amp), lim, 0.2 * wave), amp)
    x, y = sc.pixel(a, b)
    q = ImageCoordinate([x, y])
    u = m.image_to_world(q)
    border = m.image_to_world(ImageCoordinate(list(sc.pixel(c, d))))
    dem = Tiles(sc, s["hae"] + max(-lim, min(lim, dh)), amp, wave, (0, 0), spacing, (border.longitude, border.latitude, angle), missing)
    # the contour between the lowest and highest terrain, and the default surface, all in one tile or not
    r, rd, t, p, v = sc.pixel_contour(x, y)
    P0 = np.array(ecef(*u.coordinate))
    vh = v / np.linalg.norm(v)
    ctr = p - (r * rd / np.linalg.norm(v)) * vh
    e1 = P0 - ctr
    rad = float(np.linalg.norm(e1))
    e1 = e1 / rad
    e2 = np.cross(vh, e1)
    if e2 @ sc.up < 0:
        e2 = -e2
    reach = 3 * (abs(dh) + abs(amp) + abs(u.elevation - s["hae"]) + 30) / abs(e2 @ sc.up)
    ang = np.linspace(-reach, reach, 801) / rad
    C = ctr + rad * (np.cos(ang)[:, None] * e1 + np.sin(ang)[:, None] * e2)
    lon, lat, h = sar.geo_np(C)
    side = dem.side(lon, lat)
    w = m.image_to_world(q, elevation_model=dem)
    P = np.array(ecef(*w.coordinate))
    on_contour(sc, x, y, P, 1e-4)
    covered = np.ones(len(h), bool) if missing is None else side != missing
    if covered.all():
        tol = 0.02 + 30 * abs(amp) / wave**2
        close(w.elevation, float(dem.height(w.longitude, w.latitude)), tol, what="height of the result above the terrain of two tiles, as terrain height")
    elif not covered.any():
        if float(np.linalg.norm(P - P0)) > 1e-6:
            fail("where the elevation model has no data the result is %.3f m from the default surface", float(np.linalg.norm(P - P0)))
    else:
        # on the terrain where there is some, otherwise on the default surface
        if float(np.linalg.norm(P - P0)) > 1e-6:
            tol = 0.02 + 30 * abs(amp) / wave**2
            close(w.elevation, float(dem.height(w.longitude, w.latitude)), tol, what="height of the result above the terrain of the only tile, as terrain height")
    centre = bool(dem.side(sc.lon, sc.lat))
    return bool((side != centre).any())


surface = st.tuples(st.integers(0, 1), st.sampled_from(["plane", "height", "terrain", "none"]), rfl(-150, 150, 2))


@check.sub(
    "mixed",
    st.tuples(sar.scene(), st.tuples(frac, frac), st.lists(surface, min_size=2, max_size=5)),
    quick=250,
    shards=3,
    rule="a pixel asked for with two different surfaces",
)
def mixed(case):
    """one model asked for the same two pixels with one surface after the other"""
    s, pix, queries = case
    sc = sar.Scene(s)
    m = build(sc)
    for i, kind, dh in queries:
        x, y = sc.pixel(*pix[i])
        lim = 0.01 * sc.R
        h = s["hae"] + max(-lim, min(lim, dh))
        amp = min(20.0, lim)
        em = {
            "plane": None,
            "height": ConstantElevationModel(h),
            "terrain": Dem(sc, h, amp, 1500.0, (dh, 1.0), 20.0),
            "none": Dem(sc, 0, 0, 100, (0, 0), 30, covered=False),
        }[kind]
        w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=em)
        P = np.array(ecef(*w.coordinate))
        on_contour(sc, x, y, P, 1e-3)
        if kind == "height":
            close(w.elevation, h, 1.5e-3, what="height of the result")
        elif kind == "terrain":
            close(w.elevation, float(em.height(w.longitude, w.latitude)), 0.02 + 30 * amp / 1500.0**2, what="height of the result above the terrain, as terrain height")
        else:
            close(float((P - sc.scp) @ sc.normal), 0.0, 1e-5, what="distance from the default ground plane")
    return len({(k, d) for i, k, d in queries if i == queries[0][0]}) > 1


@check.sub(
    "no_coverage",
    st.tuples(sar.scene(), frac),
    quick=80,
    rule="always: an elevation model without data for the scene",
)
def no_coverage(case):
    s, (a, b) = case
    sc = sar.Scene(s)
    m = build(sc)
    x, y = sc.pixel(a, b)
    w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=Dem(sc, 0, 0, 100, (0, 0), 30, covered=False))
    u = m.image_to_world(ImageCoordinate([x, y]))
    if list(w.coordinate) != list(u.coordinate):
        fail("result without elevation coverage differs from the default surface")
    return True


@check.sub(
    "adjustments",
    st.tuples(
        sar.scene(),
        points,
        st.just((0.0, 0.0, 0.0)) | st.tuples(rfl(-5, 5, 3), rfl(-5, 5, 3), rfl(-5, 5, 3)),
        st.just((0.0, 0.0, 0.0)) | st.tuples(rfl(-1, 1, 3), rfl(-1, 1, 3), rfl(-1, 1, 3)),
        st.just(0.0) | rfl(-20, 20, 3),
        st.sampled_from(["", "p", "v", "b", "pv", "pb", "vb", "pvb", "pvb"]),
        st.sampled_from([0.5, 0.5, 1.0, 4.0]),
    ),
    quick=500,
    shards=2,
    rule="adjustable parameter offsets are supplied",
)
def adjustments(case):
    """projection sets used directly: R, Rdot, COA time, ARP position and velocity, plus the adjustable offsets"""
    s, pts, da, dvv, bias, use, reach = case
    sc = sar.Scene(s)
    arp = PolynomialXYZ(*[np.polynomial.Polynomial(list(sc.arp_c[:, k])) for k in range(3)])
    kw = dict(coa_time_poly=Polynomial2D(sc.time_c), arp_poly=arp)
    if "p" in use:
        kw["delta_arp"] = np.array(da)
    if "v" in use:
        kw["delta_varp"] = np.array(dvv)
    if "b" in use:
        kw["range_bias"] = bias
    scp = WorldCoordinate(list(sc.scp))
    P = np.polynomial.Polynomial
    if sc.kind == "PFA":
        ps = PFAProjectionSet(scp_ecf=scp, polar_ang_poly=P(sc.polar_c), spatial_freq_sf_poly=P(sc.sf_c), **kw)
    elif sc.kind == "RGAZCOMP":
        ps = RGAZCOMPProjectionSet(scp_ecf=scp, az_scale_factor=sc.az_sf, **kw)
    elif sc.kind == "INCA":
        ps = INCAProjectionSet(r_ca_scp=sc.r_ca, inca_time_coa_poly=P(sc.tca_c), drate_sf_poly=Polynomial2D(sc.drsf_c), **kw)
    else:
        ps = PlaneProjectionSet(scp_ecf=scp, image_plane_urow=sc.urow, image_plane_ucol=sc.ucol, **kw)
    for _ in range(2):  # repeated evaluation must not accumulate the offsets
        for a, b in pts:
            x, y = a * reach * s["rows"] * sc.rss, b * reach * s["cols"] * sc.css
            got = ps.precise_rrdot_computation(np.array([x, y]))
            r, rd, t, p, v = sc.contour(x, y)
            r, p, v = r + bias * ("b" in use), p + np.array(da) * ("p" in use), v + np.array(dvv) * ("v" in use)
            close(got[0], r, 1e-5, 1e-11, "range")
            close(got[1], rd, 1e-6, 1e-9, "range rate")
            close(got[2], t, 1e-12, 1e-12, "COA time")
            for i in range(3):
                close(got[3][i], p[i], 1e-5, what="ARP position")
                close(got[4][i], v[i], 1e-7, 1e-11, what="ARP velocity")
    return bool(use)


@check.sub(
    "ground_plane",
    st.tuples(sar.scene(), frac, st.sampled_from(["normal", "SPHERICAL_EARTH", "GEODETIC_EARTH"]), rfl(-300, 300, 2), st.tuples(rfl(-0.08, 0.08, 4), rfl(-0.08, 0.08, 4)), rfl(0.2, 5, 2)),
    quick=300,
    rule="the plane does not contain the scene centre point",
)
def ground_plane(case):
    s, (a, b), kind, dh, slope, scale = case
    sc = sar.Scene(s)
    dh = max(-0.01 * sc.R, min(0.01 * sc.R, dh))
    ref = sc.scp + dh * sc.up
    lon, lat, h = sar.geo_np(ref)
    if kind == "normal":
        n = sc.up + slope[0] * sc.east + slope[1] * sc.north
        g = GroundPlaneRRDotSurfaceProjection(WorldCoordinate(list(ref)), scale * n)
    else:
        g = GroundPlaneRRDotSurfaceProjection(
            WorldCoordinate(list(ref)), None, GroundPlaneRRDotSurfaceProjection.GroundPlaneNormalType[kind]
        )
        n = ref if kind == "SPHERICAL_EARTH" else sar.up_at(lon, lat)
    n = sar.unit(n)
    x, y = sc.pixel(a, b)
    r, rd, t, p, v = sc.pixel_contour(x, y)
    got = g.rrdot_to_ground(r, rd, p, v)[0]
    on_contour(sc, x, y, got)
    close(float((got - ref) @ n), 0.0, 1e-6, what="distance from the plane")
    return abs(dh) > 1


@check.sub(
    "unreachable",
    st.tuples(sar.scene(), frac, st.tuples(rfl(-2, 2, 3), rfl(-2, 2, 3)), rfl(-1, 0.9, 3)),
    quick=300,
    rule="the contour does not meet the plane",
)
def unreachable(case):
    """steep planes, some of which the contour does not meet: an error instead of a point that is not on the plane"""
    s, (a, b), slope, k = case
    sc = sar.Scene(s)
    x, y = sc.pixel(a, b)
    r, rd, t, p, v = sc.pixel_contour(x, y)
    n = sar.unit(sc.up + slope[0] * sc.east + slope[1] * sc.north)
    ref = sc.scp + k * ((p - sc.scp) @ n) * n
    if (p - ref) @ n <= 0:
        return False  # the sensor is on the other side of the plane
    g = GroundPlaneRRDotSurfaceProjection(WorldCoordinate(list(ref)), n)
    vh = v / np.linalg.norm(v)
    ctr = p - (r * rd / np.linalg.norm(v)) * vh
    rad = math.sqrt(r * r - float((p - ctr) @ (p - ctr)))
    flat = float(np.linalg.norm(n - (n @ vh) * vh))
    room = (rad * flat - abs(float((ctr - ref) @ n))) / r
    if abs(room) < 1e-6:
        return False
    try:
        with np.errstate(all="ignore"):
            got = g.rrdot_to_ground(r, rd, p, v)[0]
    except ValueError:
        if room > 0:
            fail("no intersection with a plane that the contour meets")
        return True
    if room < 0:
        fail("a point %s for a plane that the contour does not meet", list(got))
    close(float(np.linalg.norm(got - p)), r, 1e-5, 1e-9, what="distance of the point on the steep plane")
    close(float((got - ref) @ n), 0.0, 1e-5, what="distance from the steep plane")
    return False
