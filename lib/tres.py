"""Text of NITF tagged record extensions: the XML layout GDAL reports, and raw TRE strings for a NITF writer."""

from xml.sax.saxutils import quoteattr


def num(v, style=0):
    """float as text that parses back to the same double (styles 0, 1) or as a fixed width TRE field (style 2)"""
    if style == 0:
        return repr(float(v))
    return format(float(v), "+.17E")


def field(k, v):
    return f'<field name="{k}" value={quoteattr(str(v))} />'


def repeated(name, values, style=0, order=None):
    groups = [f'<group index="{i}">{field(name, num(v, style))}</group>' for i, v in enumerate(values)]
    if order is not None:
        groups = [groups[i] for i in sorted(range(len(groups)), key=lambda i: (i * 7919 + order) % (len(groups) + 13))]
    return f'<repeated name="{name}" number="{len(values)}">' + "".join(groups) + "</repeated>"


def tre(name, body, location="image"):
    return f'<tre name="{name}" location="{location}">{body}</tre>'


def tres(*items):
    return "<tres>" + "".join(items) + "</tres>"


def rpc(p, polys, success=1, style=0, order=None):
    """p: dictionary of the RPC parameters, polys: line num, line den, samp num, samp den"""
    b = field("SUCCESS", success)
    for k in (
        "err_bias err_rand line_off samp_off lat_off long_off height_off line_scale samp_scale lat_scale long_scale height_scale"
    ).split():
        b += field(k.upper(), num(p[k], style))
    for n, c in zip(("LINE_NUM_COEFF", "LINE_DEN_COEFF", "SAMP_NUM_COEFF", "SAMP_DEN_COEFF"), polys):
        b += repeated(n, c, style, order)
    return tre("RPC00B", b)


def rsmida(form, vertices, image, origin=None, axes=None, grp=None, style=0):
    """axes: 3x3, rows are the unit vectors of the rectangular system; image: minr, maxr, minc, maxc"""
    b = field("IID", "X") + field("EDITION", "E") + field("GRNDD", form)
    if origin is not None:
        for k, v in zip(("XUOR", "YUOR", "ZUOR"), origin):
            b += field(k, num(v, style))
        # XUXR XUYR XUZR: components of the X ground axis etc.; field ?U!R is component ? of ... (STDI-0002 App U)
        for i, r in enumerate("XYZ"):
            for j, c in enumerate("XYZ"):
                b += field(f"{c}U{r}R", num(axes[i][j], style))
    for i, v in enumerate(vertices):
        for k, x in zip("XYZ", v):
            b += field(f"V{i + 1}{k}", num(x, style))
    for k, x in zip(("GRPX", "GRPY", "GRPZ"), grp or ("", "", "")):
        b += field(k, x if x == "" else num(x, style))
    for k, x in zip(("MINR", "MAXR", "MINC", "MAXC"), image):
        b += field(k, format(x, "08d"))
    return tre("RSMIDA", b, "des TRE_OVERFLOW")


def rsmpca(section, norm, polys, style=0, order=None):
    """norm: r, c, x, y, z offsets then scales; polys: prefix -> (powers, coefficients)"""
    b = field("RSN", format(section[0], "03d")) + field("CSN", format(section[1], "03d"))
    for k, v in zip("RCXYZ", norm[:5]):
        b += field(f"{k}NRMO", num(v, style))
    for k, v in zip("RCXYZ", norm[5:]):
        b += field(f"{k}NRMSF", num(v, style))
    for n in ("RN", "RD", "CN", "CD"):
        powers, c = polys[n]
        for k, v in zip("XYZ", powers):
            b += field(f"{n}PWR{k}", v)
        b += field(f"{n}TRMS", format(len(c), "03d")) + repeated(f"{n}PCF", c, style, order)
    return tre("RSMPCA", b, "des TRE_OVERFLOW")


def rsmpia(sections, sizes, low_r, low_c, style=0):
    b = ""
    for n, c in (("R", low_r), ("C", low_c)):
        for k, v in zip(("0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"), c):
            b += field(n + k, num(v, style))
    b += field("RNIS", format(sections[0], "03d")) + field("CNIS", format(sections[1], "03d"))
    b += field("RSSIZ", num(sizes[0], style)) + field("CSSIZ", num(sizes[1], style))
    return tre("RSMPIA", b, "des TRE_OVERFLOW")


def ichipb(op, fi, size, style=0):
    """op, fi: four (col, row) pairs for grid points 11 12 21 22; size: full image columns, rows"""
    b = ""
    for n, (c, r) in zip(("11", "12", "21", "22"), op):
        b += field(f"OP_ROW_{n}", num(r, style)) + field(f"OP_COL_{n}", num(c, style))
    for n, (c, r) in zip(("11", "12", "21", "22"), fi):
        b += field(f"FI_ROW_{n}", num(r, style)) + field(f"FI_COL_{n}", num(c, style))
    b += field("FI_ROW", format(size[1], "08d")) + field("FI_COL", format(size[0], "08d"))
    return tre("ICHIPB", b, "des TRE_OVERFLOW")


def cscrna(corners, style=0):
    """corners: upper left, upper right, lower right, lower left as (lon, lat, h) in degrees, metres"""
    b = field("PREDICT_CORNERS", "Y")
    for n, (lon, lat, h) in zip(("UL", "UR", "LR", "LL"), corners):
        b += field(f"{n}CNR_LAT", num(lat, style)) + field(f"{n}CNR_LONG", num(lon, style)) + field(f"{n}CNR_HT", num(h, style))
    return tre("CSCRNA", b)


# ---- raw TREs for GDAL's NITF writer (creation option TRE=NAME=DATA); the values that were written are returned too


def raw_rpc(p, polys):
    spec = [
        ("line_off", "%06d"), ("samp_off", "%05d"), ("lat_off", "%+08.4f"), ("long_off", "%+09.4f"), ("height_off", "%+05d"),
        ("line_scale", "%06d"), ("samp_scale", "%05d"), ("lat_scale", "%+08.4f"), ("long_scale", "%+09.4f"), ("height_scale", "%+05d"),
    ]  # fmt: skip
    q = dict(p)
    out = "1%07.2f%07.2f" % (p["err_bias"], p["err_rand"])
    for k, f in spec:
        t = f % (round(p[k]) if "d" in f else p[k])
        q[k] = float(t)
        out += t
    polys2 = []
    for c in polys:
        row = []
        for v in c:
            t = "%+.6E" % v
            m, e = t.split("E")
            e = int(e)
            if e < -9 or float(m) == 0:
                t, e = "+0.000000E+0", 0
            else:
                t = "%sE%+d" % (m, e)
            out += t
            row.append(float(t))
        polys2.append(row)
    assert len(out) == 1041, len(out)
    return out, q, polys2


def raw_ichipb(op, fi, size):
    out = "00" + "0001.00000" + "00" + "00"
    for c, r in list(op) + list(fi):
        out += "%012.3f%012.3f" % (r, c)
    out += "%08d%08d" % (size[1], size[0])
    assert len(out) == 224, len(out)
    return out


def raw_cscrna(corners):
    out = "Y"
    for lon, lat, h in corners:
        out += "%+09.5f%+010.5f%+08.1f" % (lat, lon, h)
    assert len(out) == 109, len(out)
    return out
