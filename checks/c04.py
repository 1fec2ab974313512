"""C04 GDAL geotransform (affine) sensor model."""

import math

from hypothesis import strategies as st
from osgeo import osr

from lib.pbt import Check
from lib.surfaces import Nowhere
from lib.util import close, fail, fl, lon_diff, rfl

from aws.osml.photogrammetry import ElevationModel, GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate

osr.UseExceptions()

check = Check(
    "C04",
    "Geotransform models follow the geotransform and CRS exactly and invert",
    ["projected systems are exercised inside their area of use; the CRS has a single operation to WGS84 (see the known finding)", "coordinate operations as PROJ defines them, read through OSR"],
)

# CRS, area (lon0, lat0, lon1, lat1), unit in metres
CRS = [
    (None, (-179, -89, 179, 89), 111319.49),
    (4326, (-179, -89, 179, 89), 111319.49),
    (3857, (-179, -80, 179, 80), 1.0),
    (32633, (12.5, 1, 17.5, 83), 1.0),
    (32719, (-71.5, -79, -66.5, -1), 1.0),
    (32601, (-179.5, 1, -174.5, 83), 1.0),
    (3413, (-179, 61, 179, 89), 1.0),
    (3031, (-179, -89, 179, -61), 1.0),
    (2154, (-4, 43, 8, 50), 1.0),
    (5070, (-120, 26, -70, 48), 1.0),
    (4979, (-179, -89, 179, 89), 111319.49),
    # other datums and prime meridians, bound to a single operation by their definition
    ("+proj=longlat +ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7 +no_defs", (6, 47, 15, 55), 111319.49),
    ("+proj=longlat +ellps=clrk66 +towgs84=-8,160,176 +no_defs", (-120, 26, -70, 48), 111319.49),
    ("+proj=utm +zone=31 +ellps=intl +towgs84=-87,-98,-121 +units=m +no_defs", (1, 38, 5, 60), 1.0),
    ("+proj=longlat +ellps=WGS84 +pm=paris +no_defs", (-10, 35, 20, 60), 111319.49),
    ("+proj=lcc +lat_1=40.6 +lat_2=41.7 +lat_0=40.2 +lon_0=-77.75 +x_0=600000 +ellps=GRS80 +towgs84=0,0,0 +units=us-ft +no_defs", (-80, 39, -75, 42), 0.3048),
]
# Dropping the height that a change of datum produces costs this many metres on the way back.
DATUM_SLACK = 0.05
_cache = {}


def transforms(epsg, style):
    key = (epsg, style)
    if key not in _cache:
        s = osr.SpatialReference()
        if isinstance(epsg, str):
            s.ImportFromProj4(epsg)
        else:
            s.ImportFromEPSG(epsg)
        wkt = s.ExportToWkt() if style == 0 else s.ExportToWkt(["FORMAT=WKT2_2019"])
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        g = osr.SpatialReference()
        g.ImportFromEPSG(4326)
        g.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        _cache[key] = (wkt, osr.CoordinateTransformation(s, g), osr.CoordinateTransformation(g, s))
    return _cache[key]


class Surface(ElevationModel):
    def __init__(self):
        self.calls = []

    @staticmethod
    def height(lon, lat):
        return 250 + 100 * math.sin(lon * 700) + 70 * math.cos(lat * 900)

    def set_elevation(self, c):
        self.calls.append((c.longitude, c.latitude))
        c.elevation = self.height(c.longitude, c.latitude)

    def describe_region(self, c):
        return None


@check.sub(
    "map",
    st.tuples(
        st.integers(0, len(CRS) - 1),
        st.integers(0, 1),
        rfl(0.02, 0.98),
        rfl(0.02, 0.98),
        rfl(0.1, 50),
        st.one_of(st.just(0.0), st.sampled_from([math.pi / 2, math.pi]), rfl(-3.14, 3.14)),
        rfl(-0.4, 0.4),
        st.one_of(st.just(1.0), rfl(0.3, 3)),
        st.booleans(),
        rfl(0, 6000) | rfl(-5000, 100000, 1),
        rfl(0, 6000) | rfl(-5000, 100000, 1),
        fl(-400, 8000),
    ),
    quick=3000,
    shards=6,
    rule="geotransform is rotated or sheared, or the CRS is projected",
)
def mapping(case):
    k, style, fx, fy, gsd, ang, shear, aniso, south_up, px, py, height = case
    epsg, area, unit = CRS[k]
    lon0 = area[0] + fx * (area[2] - area[0])
    lat0 = area[1] + fy * (area[3] - area[1])
    if epsg is None:
        wkt, to_geo, from_geo = None, None, None
        cx, cy = lon0, lat0
    else:
        wkt, to_geo, from_geo = transforms(epsg, style)
        cx, cy, _ = from_geo.TransformPoint(lon0, lat0)
    res = gsd / unit
    ca, sa = math.cos(ang), math.sin(ang)
    flip = 1 if south_up else -1
    a, b = res * ca, res * (-sa * flip * aniso + shear * ca)
    d, e = res * sa, res * (ca * flip * aniso + shear * sa)
    # put the drawn pixel at the drawn location, so that the queried point is inside the area of use
    gt = [cx - a * px - b * py, a, b, cy - d * px - e * py, d, e]
    X = gt[0] + gt[1] * px + gt[2] * py
    Y = gt[3] + gt[4] * px + gt[5] * py
    m = GDALAffineSensorModel(gt, wkt) if wkt else GDALAffineSensorModel(gt)
    want = (X, Y) if to_geo is None else to_geo.TransformPoint(X, Y)[:2]
    got = m.image_to_world(ImageCoordinate([px, py]))
    if abs(want[1]) > 89.9:
        return False
    # 2 mm on the ground
    close(math.degrees(got.latitude), want[1], 2e-8, what="latitude")
    dl = math.degrees(lon_diff(got.longitude, math.radians(want[0])))
    if abs(dl) * math.cos(got.latitude) > 2e-8:
        fail("longitude of pixel %r: got %r, expected %r", (px, py), math.degrees(got.longitude), want[0])
    if got.elevation != 0:
        fail("elevation %r without an elevation model", got.elevation)
    s = Surface()
    c = m.image_to_world(ImageCoordinate([px, py]), elevation_model=s)
    if (c.longitude, c.latitude) != (got.longitude, got.latitude) or c.elevation != Surface.height(c.longitude, c.latitude):
        fail("with an elevation model: %r", c)
    if m.image_to_world(ImageCoordinate([px, py]), elevation_model=Nowhere()).coordinate.tolist() != got.coordinate.tolist():
        fail("an elevation model without data changed the location")
    # the image position does not depend on the height of the world point
    w = GeodeticWorldCoordinate([got.longitude, got.latitude, height])
    q = m.world_to_image(w)
    tol = 1e-4 + (DATUM_SLACK if "towgs84" in str(epsg) else 0.003) / gsd * 4
    close(q.x, px, tol, what="x after round trip")
    close(q.y, py, tol, what="y after round trip")
    if list(w.coordinate) != [got.longitude, got.latitude, height]:
        fail("world_to_image changed its input")
    # consistency of world_to_image on a second, independent location near by
    w2 = from_geo.TransformPoint(want[0], want[1] - 0.001)[:2] if from_geo else (want[0], want[1] - 0.001)
    det = a * e - b * d
    x2 = (e * (w2[0] - gt[0]) - b * (w2[1] - gt[3])) / det
    y2 = (-d * (w2[0] - gt[0]) + a * (w2[1] - gt[3])) / det
    q2 = m.world_to_image(GeodeticWorldCoordinate([math.radians(want[0]), math.radians(want[1] - 0.001), 0.0]))
    close(q2.x, x2, tol * 4, 1e-9, what="x of a world location")
    close(q2.y, y2, tol * 4, 1e-9, what="y of a world location")
    # and of another pixel
    x3, y3 = px + 37.5, py - 21.25
    X3, Y3 = gt[0] + a * x3 + b * y3, gt[3] + d * x3 + e * y3
    want3 = (X3, Y3) if to_geo is None else to_geo.TransformPoint(X3, Y3)[:2]
    if abs(want3[1]) < 89.9:
        c3 = m.image_to_world(ImageCoordinate([x3, y3]))
        close(math.degrees(c3.latitude), want3[1], 2e-8, what="latitude of another pixel")
        if abs(math.degrees(lon_diff(c3.longitude, math.radians(want3[0])))) * math.cos(c3.latitude) > 2e-8:
            fail("longitude of pixel %r: got %r, expected %r", (x3, y3), math.degrees(c3.longitude), want3[0])
    return ang != 0 or shear != 0 or epsg not in (None, 4326)


@check.sub(
    "singular",
    st.tuples(fl(-180, 180), fl(-90, 90), fl(-50, 50), fl(-50, 50), st.integers(0, 4)),
    quick=300,
    rule="always",
    examples=[[0.0, 0.0, 0, 0, 0]],
)
def singular(case):
    x, y, a, b, k = case
    # a whole row or column of the transform is zero, so it has no inverse
    gt = [
        [x, a, b, y, 0.0, 0.0],
        [x, 0.0, 0.0, y, a, b],
        [x, a, 0.0, y, b, 0.0],
        [x, 0.0, a, y, 0.0, b],
        [x, 0.0, 0.0, y, 0.0, 0.0],
    ][k]
    try:
        GDALAffineSensorModel(gt)
    except ValueError:
        return True
    fail("geotransform %r has no inverse but was accepted", gt)


@check.known_finding(
    "operation-differs-by-direction",
    "PROJ chooses among several operations between a datum and WGS84 separately in each direction: with EPSG:23031 and 1 m "
    "pixels, the pixel at easting 363000, northing 5763000 comes back about 1 m away",
)
def operations():
    s = osr.SpatialReference()
    s.ImportFromEPSG(23031)
    m = GDALAffineSensorModel([363000.0, 1.0, 0.0, 5763000.0, 0.0, -1.0], s.ExportToWkt())
    q = m.world_to_image(m.image_to_world(ImageCoordinate([0, 0])))
    return math.hypot(q.x, q.y) > 0.5
