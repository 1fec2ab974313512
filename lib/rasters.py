"""GDAL raster helpers used by the image checks (the harness's own use of GDAL, on in-memory data only)."""

import itertools
import os

import numpy as np
from osgeo import gdal

gdal.UseExceptions()

TYPES = {
    "uint8": gdal.GDT_Byte,
    "uint16": gdal.GDT_UInt16,
    "int16": gdal.GDT_Int16,
    "uint32": gdal.GDT_UInt32,
    "int32": gdal.GDT_Int32,
    "float32": gdal.GDT_Float32,
    "float64": gdal.GDT_Float64,
}
COMPLEX = {"complex64": gdal.GDT_CFloat32, "complex128": gdal.GDT_CFloat64}
_n = itertools.count()


def temp(ext=""):
    return f"/vsimem/verif_{os.getpid()}_{next(_n)}{ext}"


def pixels(seed, bands, h, w, dtype, kind="full"):
    r = np.random.default_rng(seed)
    t = np.dtype(dtype)
    if t.kind == "f":
        a = r.normal(0, 1000, (bands, h, w)).astype(t)
        if kind == "full":
            a.flat[:: 7] *= 1e20
    elif kind == "small":
        a = r.integers(0, 200, (bands, h, w)).astype(t)
    else:
        i = np.iinfo(t)
        a = r.integers(i.min, i.max, (bands, h, w), dtype=t, endpoint=True)
    return a


def dataset(a, driver="MEM", gt=None, wkt=None, options=()):
    """a: (bands, rows, cols).  Returns (dataset, path)"""
    b, h, w = a.shape
    path = "" if driver == "MEM" else temp(".tif" if driver == "GTiff" else ".ntf")
    ds = gdal.GetDriverByName(driver).Create(path, w, h, b, {**TYPES, **COMPLEX}[str(a.dtype)], list(options))
    if gt is not None:
        ds.SetGeoTransform(gt)
    if wkt is not None:
        ds.SetProjection(wkt)
    for i in range(b):
        ds.GetRasterBand(i + 1).WriteArray(a[i])
    ds.FlushCache()
    if driver != "MEM":
        ds = None
        ds = gdal.Open(path)
    return ds, path


def unlink(path):
    if gdal.VSIStatL(path) is not None:
        gdal.Unlink(path)


class decoded:
    """context manager: open encoded bytes with GDAL"""

    def __init__(self, buf, ext=""):
        self.path = temp(ext)
        self.buf = bytes(buf)

    def __enter__(self):
        gdal.FileFromMemBuffer(self.path, self.buf)
        self.ds = gdal.Open(self.path)
        return self.ds

    def __exit__(self, *a):
        self.ds = None
        unlink(self.path)
        unlink(self.path + ".aux.xml")
        return False


def array(ds):
    a = ds.ReadAsArray()
    return a if a.ndim == 3 else a[None]


def listing():
    out = set()
    stack = ["/vsimem/"]
    for n in gdal.ReadDirRecursive(stack[0]) or []:
        out.add(n)
    return out
