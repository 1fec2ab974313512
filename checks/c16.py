"""C16 SAR chip metadata over histories of chips."""

import math
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from checks.c23 import FIELDS, encode
from lib import rasters, sar
from lib.pbt import Check
from lib.util import close, dist, ecef, fail, rfl

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, load_gdal_dataset
from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.image_processing import GDALTileFactory
from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater
from aws.osml.photogrammetry import ImageCoordinate

check = Check(
    "C16",
    "Chips of SAR images, and chips of chips, carry metadata that keeps every pixel where it was on the ground",
    ["chips of at least 2 x 2 pixels inside the image", "SICD chips are not resampled (rejected); SIDD chips may be"],
)

unit = rfl(0, 1, 4)


def window(f, w, h, least=2):
    """[x, y, width, height] inside a w x h image from four fractions"""
    ww = least + int(f[2] * (w - least))
    hh = least + int(f[3] * (h - least))
    return [int(f[0] * (w - ww)), int(f[1] * (h - hh)), ww, hh]


fracs = st.tuples(unit, unit, unit, unit)
where = st.tuples(unit, unit)


def value(root, path):
    e = root
    for p in path.split("/"):
        e = next((c for c in e if c.tag.split("}")[-1] == p), None)
        if e is None:
            return None
    return float(e.text)


def ground(m, x, y):
    return ecef(*m.image_to_world(ImageCoordinate([x, y])).coordinate)


@check.sub(
    "sicd",
    st.tuples(sar.scene(("PFA", "INCA", "RGAZCOMP", "PLANE")), st.lists(st.lists(fracs, min_size=1, max_size=3), min_size=1, max_size=3), where),
    quick=300,
    shards=4,
    rule="a chip of a chip, or several chips from one source",
)
def sicd(case):
    """generations: every inner list is a sequence of chips cut by one updater; the last one becomes the next source"""
    s, gens, q = case
    sc = sar.Scene(s)
    xml = sar.sicd_xml(sc)
    full = SICDSensorModelBuilder(xml).build()
    size, origin = (s["cols"], s["rows"]), (0, 0)
    first = (sc.first[1], sc.first[0])
    for chips in gens:
        u = SICDUpdater(xml)
        for i, f in enumerate(chips):
            w = window(f, *size)
            u.update_image_data_for_chip(w, None if i % 2 else (w[2], w[3]))
            out = u.encode_current_xml()
            root = ET.fromstring(out.encode())
            at = (origin[0] + w[0], origin[1] + w[1])
            want = {
                "ImageData/FirstRow": first[1] + at[1],
                "ImageData/FirstCol": first[0] + at[0],
                "ImageData/NumRows": w[3],
                "ImageData/NumCols": w[2],
                "ImageData/FullImage/NumRows": sc.first[0] + s["rows"] + 100,
                "ImageData/FullImage/NumCols": sc.first[1] + s["cols"] + 100,
            }
            for k, v in want.items():
                if value(root, k) != v:
                    fail("%s is %r for window %r, expected %r", k, value(root, k), w, v)
            for bad in ((w[2] + 1, w[3]), (w[2], w[3] * 2)):
                try:
                    u.update_image_data_for_chip(w, bad)
                except ValueError:
                    continue
                fail("a chip resampled to %r was accepted", bad)
            if u.encode_current_xml() != out:
                fail("a rejected chip changed the metadata")
            m = SICDSensorModelBuilder(out).build()
            if m is None:
                fail("no model for the chip")
            x, y = q[0] * w[2], q[1] * w[3]
            d = dist(ground(m, x, y), ground(full, at[0] + x, at[1] + y))
            if not d <= 1e-3:
                fail("pixel (%r, %r) of chip %r moved %.3f m", x, y, w, d)
        xml, size, origin = out, (w[2], w[3]), at
    return len(gens) > 1 or len(gens[0]) > 1


RESIZE = st.none() | st.tuples(st.sampled_from([0.25, 0.5, 1.0, 2.0]), st.sampled_from([0.5, 1.0, 3.0]))


def bilinear(corners, size, x, y):
    """SIDD volume 1, geometric chips: [col, row] of a chip pixel in the full image; corners ul, ur, lr, ll"""
    v, u = x / (size[0] - 1), y / (size[1] - 1)
    (ul, ur, lr, ll) = corners
    return tuple(ul[i] * (1 - u) * (1 - v) + ur[i] * (1 - u) * v + ll[i] * u * (1 - v) + lr[i] * u * v for i in (0, 1))


NAMES = ("UpperLeft", "UpperRight", "LowerRight", "LowerLeft")


@check.sub(
    "sidd",
    st.tuples(
        sar.scene(("SIDD",)),
        st.sampled_from(["2.0.0", "3.0.0"]),
        st.lists(st.lists(st.tuples(fracs, RESIZE), min_size=1, max_size=3), min_size=1, max_size=3),
        where,
        # the source itself: the full image, or a chip of it placed by its corners
        st.none()
        | st.tuples(
            st.tuples(rfl(0.2, 0.6, 3), rfl(0.2, 0.6, 3)),
            st.tuples(st.integers(8, 900), st.integers(8, 900)),
            rfl(0.3, 3, 2) | st.sampled_from([1.0, -1.0]),
            rfl(0.3, 3, 2) | st.sampled_from([1.0, -1.0]),
            rfl(-180, 180, 1) | st.sampled_from([0.0, 0.0, 90.0, 180.0]),
            st.just([0.0] * 8) | st.lists(rfl(-0.1, 0.1, 3), min_size=8, max_size=8),
        ),
    ),
    quick=400,
    shards=5,
    rule="a chip of a chip, or several chips from one source",
)
def sidd(case):
    s, ver, gens, q, pre = case
    sc = sar.Scene(s)
    sc.first = (0, 0)
    full = SIDDSensorModelBuilder(sar.sidd_xml(sc, ver)).build()
    size = (s["cols"], s["rows"])
    corners = [(0, 0), (size[0] - 1, 0), (size[0] - 1, size[1] - 1), (0, size[1] - 1)]
    xml = sar.sidd_xml(sc, ver)
    affine = True
    if pre:
        (fx, fy), size, sx, sy, rot, bend = pre
        th = math.radians(rot)
        corners = []
        for i, (x, y) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
            a, b = ((x + bend[2 * i]) * (size[0] - 1) * sx, (y + bend[2 * i + 1]) * (size[1] - 1) * sy)
            corners.append(
                (fx * s["cols"] + a * math.cos(th) - b * math.sin(th), fy * s["rows"] + a * math.sin(th) + b * math.cos(th))
            )
        affine = not any(bend)
        back = [[c[1], c[0]] for c in corners]
        xml = sar.sidd_xml(
            sc, ver, {"size": [size[1], size[0]], "ul": back[0], "ur": back[1], "lr": back[2], "ll": back[3]}
        )
    for chips in gens:
        if min(size) < 8:
            break
        u = SIDDUpdater(xml)
        for f, rs in chips:
            w = window(f, *size, least=4)
            out_size = None if rs is None else (max(2, round(w[2] * rs[0])), max(2, round(w[3] * rs[1])))
            u.update_image_data_for_chip(w, out_size)
            out = u.encode_current_xml()
            ow, oh = out_size or (w[2], w[3])
            root = ET.fromstring(out.encode())
            # corner pixels of the chip in the full image
            x0, y0, x1, y1 = w[0], w[1], w[0] + w[2] - 1, w[1] + w[3] - 1
            now = [bilinear(corners, size, x, y) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
            g = "DownstreamReprocessing/GeometricChip/"
            want = {"ChipSize/Row": oh, "ChipSize/Col": ow}
            for n, (x, y) in zip(NAMES, now):
                want[f"Original{n}Coordinate/Row"], want[f"Original{n}Coordinate/Col"] = y, x
            for n, v in want.items():
                got = value(root, g + n)
                if got is None:
                    fail("no %s for window %r", n, w)
                close(got, v, 1e-6, 1e-12, f"{n} for window {w} -> {out_size}")
            m = SIDDSensorModelBuilder(out).build()
            if m is None:
                fail("no model for the chip")
            # a chip that is no parallelogram is only compared at its corners
            for qx, qy in [tuple(q)] if affine else ((0, 0), (1, 0), (1, 1), (0, 1)):
                x, y = qx * (ow - 1), qy * (oh - 1)
                X, Y = bilinear(now, (ow, oh), x, y)
                d = dist(ground(m, x, y), ground(full, X, Y))
                if not d <= 2e-2:
                    fail("pixel (%r, %r) of chip %r -> %r moved %.3f m", x, y, w, out_size, d)
        xml, size, corners = out, (ow, oh), now
    return len(gens) > 1 or len(gens[0]) > 1


HEADER = dict({k: "" for k, _ in FIELDS}, DESVER=1, DECLAS="U", DESCLSY="US", DESREL="USA", DESCLTX="some text", DESCAUT="Auth", DESCTLN="123")


@check.sub(
    "nitf",
    st.tuples(
        sar.scene(("PFA", "INCA", "PLANE", "SIDD")), st.lists(st.lists(fracs, min_size=1, max_size=3), min_size=1, max_size=2), st.integers(0, 10**6), where,
        st.tuples(rfl(0.3, 1.5, 2), rfl(0.3, 1.5, 2)),
        st.sampled_from(sar.NOTES),
        st.booleans(),
    ),
    quick=160,
    shards=4,
    rule="a chip of a chip, or several chips from one source",
)
def nitf(case):
    """tiles of a NITF file with SAR metadata are NITF files whose model and pixels agree with the source"""
    s, gens, seed, q, shrink, note, other = case
    s = dict(s, rows=16 + s["rows"] % 90, cols=16 + s["cols"] % 90)
    sc = sar.Scene(s)
    is_sidd = s["kind"] == "SIDD"
    if is_sidd:
        sc.first = (0, 0)
        xml = sar.sidd_xml(sc, note=note)
        full = SIDDSensorModelBuilder(xml).build()
        px = rasters.pixels(seed, 1, s["rows"], s["cols"], "uint8")
    else:
        xml = sar.sicd_xml(sc, note)
        full = SICDSensorModelBuilder(xml).build()
        px = rasters.pixels(seed, 2, s["rows"], s["cols"], "float32")
    header = encode(HEADER, "")
    src, _ = rasters.dataset(px)
    path = rasters.temp(".ntf")
    # a segment with other metadata may come first
    before = ["DES=XML_DATA_CONTENT=" + header + sar.other_xml(note)] if other else []
    gdal.GetDriverByName("NITF").CreateCopy(path, src, options=["ICAT=SAR", "IREP=NODISPLY", *before, "DES=XML_DATA_CONTENT=" + header + xml])
    paths = [path]
    origin = (0, 0)
    try:
        for chips in gens:
            ds, model = load_gdal_dataset(paths[-1])
            if model is None:
                fail("no model for generation %d", len(paths))
            f = GDALTileFactory(ds, model, tile_format=GDALImageFormats.NITF, tile_compression=GDALCompressionOptions.NONE)
            for fr in chips:
                w = window(fr, ds.RasterXSize, ds.RasterYSize)
                buf = f.create_encoded_tile(w)
                p = rasters.temp(".ntf")
                gdal.FileFromMemBuffer(p, bytes(buf))
                paths.append(p)
                t, m = load_gdal_dataset(p)
                at = (origin[0] + w[0], origin[1] + w[1])
                got = rasters.array(t)
                if not np.array_equal(got, px[:, at[1] : at[1] + w[3], at[0] : at[0] + w[2]]):
                    fail("tile %r does not hold the pixels of the source", w)
                segs = NITFDESAccessor(t.GetMetadata("xml:DES")).get_segments_by_name("XML_DATA_CONTENT")
                if len(segs) != 1 or NITFDESAccessor.extract_des_header(segs[0]) != header:
                    fail("the metadata segment of the tile is missing or its header changed")
                if t.GetMetadata().get("NITF_ICAT") != "SAR":
                    fail("category %r", t.GetMetadata().get("NITF_ICAT"))
                if not is_sidd:
                    # other formats carry no SAR metadata, so their tiles may have any size
                    small = (max(2, round(w[2] * shrink[0])), max(2, round(w[3] * shrink[1])))
                    g = GDALTileFactory(ds, model, tile_format=GDALImageFormats.GTIFF, tile_compression=GDALCompressionOptions.NONE)
                    for size in (None, small):
                        p2 = rasters.temp(".tif")
                        gdal.FileFromMemBuffer(p2, bytes(g.create_encoded_tile(w, size)))
                        t2 = gdal.Open(p2)
                        shape, same = (t2.RasterXSize, t2.RasterYSize), size is not None or np.array_equal(rasters.array(t2), got)
                        t2 = None
                        rasters.unlink(p2)
                        if shape != (size or (w[2], w[3])) or not same:
                            fail("GeoTIFF tile %r of size %r: %r pixels, same values %r", w, size, shape, same)
                    sub = [t.GetRasterBand(k).GetMetadataItem("NITF_ISUBCAT") for k in (1, 2)]
                    if sub != ["I", "Q"] or t.GetMetadata().get("NITF_IREP") != "NODISPLY":
                        fail("bands of a complex tile are %r, representation %r", sub, t.GetMetadata().get("NITF_IREP"))
                else:
                    # the same window resampled: the pixels of the smaller tile stay on the ground they show
                    small = (max(2, round(w[2] * shrink[0])), max(2, round(w[3] * shrink[1])))
                    p2 = rasters.temp(".ntf")
                    gdal.FileFromMemBuffer(p2, bytes(f.create_encoded_tile(w, small)))
                    t2, m2 = load_gdal_dataset(p2)
                    shape = (t2.RasterXSize, t2.RasterYSize)
                    t2 = None
                    rasters.unlink(p2)
                    if shape != small or m2 is None:
                        fail("resampled tile of %r pixels, model %r; expected %r pixels", shape, m2, small)
                    d = dist(
                        ground(m2, q[0] * (small[0] - 1), q[1] * (small[1] - 1)),
                        ground(full, at[0] + q[0] * (w[2] - 1), at[1] + q[1] * (w[3] - 1)),
                    )
                    if not d <= 2e-2:
                        fail("resampled tile %r -> %r moved %.3f m", w, small, d)
                if m is None:
                    fail("no model for the tile")
                x, y = q[0] * (w[2] - 1), q[1] * (w[3] - 1)
                d = dist(ground(m, x, y), ground(full, at[0] + x, at[1] + y))
                if not d <= 2e-2:
                    fail("pixel (%r, %r) of tile %r moved %.3f m", x, y, w, d)
                t = None
            ds = f = None
            if min(w[2:]) < 8:
                break
            origin = at
    finally:
        ds = t = f = None
        for p in paths:
            rasters.unlink(p)
    return len(gens) > 1 or len(gens[0]) > 1
