"""C29 the reported image format."""

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from lib import rasters
from lib.pbt import Check
from lib.util import fail

from aws.osml.gdal import get_image_extension
from aws.osml.gdal.gdal_utils import get_extensions_from_driver, get_gdal_driver_extensions, normalize_extension, select_extension

check = Check(
    "C29",
    "The reported format of an image is the format of the file, whatever its name",
    [
        "formats this GDAL build can write; files in /vsimem",
        "of a driver with several extensions, the one of the file name is reported and the driver's first one when the name has none of them",
    ],
)

# driver -> (pixel type, accepted extension of the name -> reported format, default)
FORMATS = {
    "GTiff": ("uint8", {"tif": "TIFF", "tiff": "TIFF"}, "TIFF"),
    "NITF": ("uint8", {"ntf": "NITF"}, "NITF"),
    "JPEG": ("uint8", {"jpg": "JPEG", "jpeg": "JPEG"}, "JPEG"),
    "PNG": ("uint8", {"png": "PNG"}, "PNG"),
    "JP2OpenJPEG": ("uint8", {"jp2": "JP2", "j2k": "J2K"}, "JP2"),
    "BMP": ("uint8", {"bmp": "BMP"}, "BMP"),
    "HFA": ("uint8", {"img": "IMG"}, "IMG"),
    "GIF": ("uint8", {"gif": "GIF"}, "GIF"),
}
ALL = sorted({e for f in FORMATS.values() for e in f[1]})
stem = st.text("abzXY019_- ", min_size=1, max_size=8).map(lambda t: t.strip() or "a")


@st.composite
def named(draw):
    fmt = draw(st.sampled_from(sorted(FORMATS)))
    own = sorted(FORMATS[fmt][1])
    others = [e for e in ALL if e not in own]
    ext = draw(st.one_of(st.sampled_from(own), st.sampled_from(own), st.sampled_from(others), st.sampled_from(["", "dat", "bin"])))
    name = draw(stem)
    if draw(st.booleans()):  # a name that mentions other formats
        name += draw(st.sampled_from(["_", ".", "-"])) + draw(st.sampled_from(others))
    case = draw(st.sampled_from(["lower", "upper", "title"]))
    ext = getattr(ext, case)()
    folder = draw(st.sampled_from(["", "images", "a.b", "x." + draw(st.sampled_from(others))]))
    return [fmt, folder, name, ext]


@check.sub("files", named(), quick=300, shards=2, rule="the name has another format's extension, or the own one in another case")
def files(case):
    fmt, folder, name, ext = case
    dtype, exts, default = FORMATS[fmt]
    drv = gdal.GetDriverByName(fmt)
    if drv is None:
        return False
    root = rasters.temp("")
    path = f"{root}/{folder + '/' if folder else ''}{name}{'.' + ext if ext else ''}"
    mem, _ = rasters.dataset(np.full((1, 32, 32), 7, dtype=dtype))
    ds = drv.CreateCopy(path, mem)
    ds = None
    try:
        got = get_image_extension(path)
        want = exts.get(ext.lower(), default)
        if got != want:
            fail("a %s file named %r is reported as %r, expected %r", fmt, path.split("/", 3)[-1], got, want)
        options = get_extensions_from_driver(path)
        if [o.lower() for o in options] != sorted(exts, key=[o.lower() for o in options].index):
            fail("extensions of the %s driver: %r", fmt, options)
    finally:
        gdal.RmdirRecursive(root)
    return ext.lower() not in exts or ext != ext.lower()


@check.sub(
    "select",
    st.tuples(
        st.lists(st.text("abcdefg012", min_size=2, max_size=5), min_size=0, max_size=5, unique=True),
        stem,
        st.integers(-1, 4),
        st.sampled_from(["lower", "upper", "title"]),
    ),
    quick=500,
    rule="the name has one of the extensions",
)
def select(case):
    exts, name, i, style = case
    # no extension is the beginning of another one
    exts = [e for e in exts if not any(o != e and e.startswith(o) for o in exts)]
    own = exts[i] if 0 <= i < len(exts) else None
    path = f"folder/{name}" + (f".{getattr(own, style)()}" if own else ".zzz")
    got = select_extension(path, list(exts))
    want = own.upper() if own else exts[0].upper() if exts else "UNKNOWN"
    if got != want:
        fail("extension of %r among %r: %r, expected %r", path, exts, got, want)
    return own is not None


SPELLINGS = {"NITF": ["ntf", "nitf"], "TIFF": ["tif", "tiff"], "JPEG": ["jpg", "jpeg"], "PNG": ["png"], "JP2": ["jp2"], "UNKNOWN": ["unknown"], "DT1": ["dt1"], "IMG": ["img"]}


@check.sub(
    "normalise",
    st.tuples(st.sampled_from(sorted(SPELLINGS)), st.integers(0, 1), st.integers(0, 2**8)),
    quick=200,
    rule="mixed case",
)
def normalise(case):
    kind, i, mask = case
    s = SPELLINGS[kind][i % len(SPELLINGS[kind])]
    s = "".join(c.upper() if mask >> k & 1 else c for k, c in enumerate(s))
    got = normalize_extension(s)
    if got != kind:
        fail("%r is normalised to %r, expected %r", s, got, kind)
    if normalize_extension(got) != got:
        fail("normalising %r again changes it", got)
    return s != s.lower() and s != s.upper()


@check.sub("drivers", None, quick=0, examples=[["all"]], rule="always: every driver of this GDAL build")
def drivers(case):
    got = get_gdal_driver_extensions()
    n = 0
    for i in range(gdal.GetDriverCount()):
        d = gdal.GetDriver(i)
        e = d.GetMetadataItem(gdal.DMD_EXTENSIONS)
        name = d.GetMetadataItem(gdal.DMD_LONGNAME)
        if e and name and sum(gdal.GetDriver(k).GetMetadataItem(gdal.DMD_LONGNAME) == name for k in range(gdal.GetDriverCount())) == 1:
            n += 1
            if got.get(name) != e.split():
                fail("extensions of %s: %r, GDAL has %r", name, got.get(name), e)
    return n > 10
