"""Synthetic SAR collections: consistent imaging geometry, SICD / SIDD metadata text, and a reference R/Rdot projection.

Everything the reference needs is computed straight from the generated scene values (SICD Volume 3, sections 2, 4 and 5),
without the code under test.  A scene is a JSON-serialisable dict drawn by `scene()`.
"""

import math
import os
import random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from hypothesis import strategies as st

from lib import xsd
from lib.util import A as WGS_A
from lib.util import E2, ecef, lat_deg, lon_deg, rfl

PLANAR = ("XRGYCR", "XCTYAT", "PLANE")
KINDS = ("PFA", "RGAZCOMP", "INCA") + PLANAR


def scene(kinds=KINDS):
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(kinds),
            "version": st.sampled_from(["1.2.1", "1.3.0"]),
            "lon": lon_deg(),
            "lat": lat_deg(84),
            "hae": rfl(-100, 3000, 2) | rfl(-420, 60, 2),
            "graz": rfl(22, 68, 3),
            "logr": rfl(4.3, 6.0, 3),
            "az": rfl(0, 360, 2),
            "look": st.sampled_from([1, -1]),
            "squint": rfl(-15, 15, 2),
            "climb": rfl(-3, 3, 2),
            "t0": rfl(0.2, 6, 3),
            "tca": rfl(-0.15, 0.15, 3),
            "time": st.tuples(rfl(-1, 1, 3), rfl(-1, 1, 3), rfl(-1, 1, 3), rfl(-1, 1, 3)),
            "rows": st.integers(200, 6000) | st.integers(6000, 20000),
            "cols": st.integers(200, 6000) | st.integers(6000, 20000),
            "fr": rfl(0.3, 0.7, 3),
            "fc": rfl(0.3, 0.7, 3),
            "rss": rfl(0.25, 1.5, 3),
            "css": rfl(0.25, 1.5, 3),
            "first": st.tuples(st.integers(0, 4000), st.integers(0, 4000)),
            "extra": st.tuples(rfl(-1, 1, 3), rfl(-1, 1, 3), rfl(-1, 1, 3), rfl(-1, 1, 3)),
            "rot": rfl(0, 360, 2),
            "tilt": rfl(-4, 4, 2),
            "skew": st.just(0.0) | rfl(-12, 12, 1),
        }
    )


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def up_at(lon, lat):
    return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])


def pv(c, t):
    """1-d polynomial, lowest order first"""
    return math.fsum(float(k) * t**i for i, k in enumerate(c))


def dv(c, t):
    return math.fsum(float(k) * i * t ** (i - 1) for i, k in enumerate(c) if i)


def pv2(c, x, y):
    return math.fsum(float(k) * x**i * y**j for i, row in enumerate(c) for j, k in enumerate(row))


class Scene:
    def __init__(self, s):
        self.s = s
        self.lon, self.lat, self.hae = math.radians(s["lon"]), math.radians(s["lat"]), s["hae"]
        self.scp = np.array(ecef(self.lon, self.lat, self.hae))
        up = self.up = up_at(self.lon, self.lat)
        east = np.array([-math.sin(self.lon), math.cos(self.lon), 0.0])
        north = np.cross(up, east)
        self.east, self.north = east, north
        a, g = math.radians(s["az"]), math.radians(s["graz"])
        los_h = math.cos(a) * north + math.sin(a) * east
        self.los = los = math.cos(g) * los_h + math.sin(g) * up
        self.R = R = 10 ** s["logr"]
        speed = 180.0 if R < 1.5e5 else 7500.0
        along = s["look"] * np.cross(up, los_h)
        kind = self.kind = s["kind"]
        if kind == "INCA":
            # geometry at the time of closest approach: no squint, velocity perpendicular to the line of sight
            d = along + math.tan(math.radians(s["climb"])) * np.cross(along, los)
        else:
            q = math.radians(s["squint"])
            d = math.cos(q) * along + math.sin(q) * los_h + math.tan(math.radians(s["climb"])) * up
        v = self.v0 = speed * unit(d)
        pos = self.scp + R * los
        acc = -unit(pos) * (speed**2 / np.linalg.norm(pos))
        t0 = s["t0"]
        # position polynomial about t0, expanded in powers of t
        self.arp_c = np.array([pos - v * t0 + acc * t0 * t0 / 2, v - acc * t0, acc / 2])  # [power][xyz]
        if kind == "PLANE" and s["extra"][0] > 0:
            jerk = 1e-3 * np.array([s["extra"][1], s["extra"][2], s["extra"][3]])
            self.arp_c = np.vstack([self.arp_c, jerk])
        self.tca = t0
        self.tcoa = t0 + (s["tca"] * min(R / speed, 30.0) if kind == "INCA" else 0.0)
        self.first = tuple(s["first"])
        self.scp_row, self.scp_col = self.first[0] + int(s["rows"] * s["fr"]), self.first[1] + int(s["cols"] * s["fc"])
        # keep the scene small against the range, as in real collections
        self.rss, self.css = min(s["rss"], 0.025 * R / s["rows"]), min(s["css"], 0.025 * R / s["cols"])
        half = max(s["rows"] * self.rss, s["cols"] * self.css)
        dt = min((0.005 if kind == "RGAZCOMP" else 0.04) * R, half) / speed  # stay inside a fraction of the aperture
        dt = min(dt, 1.0)
        tc = s["time"]
        self.time_c = np.array([[self.tcoa, 0.5 * dt * tc[0] / half], [0.2 * dt * tc[1] / half, 0.2 * dt * tc[2] / half**2]])
        if tc[3] > 0.5:
            self.time_c = np.hstack([self.time_c, [[0.1 * dt * tc[3] / half**2], [0.0]]])
        if s["cols"] % 4 == 1:
            self.time_c[0, 1] = self.time_c[1, 1] = 0.0
        arp, vel = self.arp(self.tcoa), self.varp(self.tcoa)
        self.arp_coa, self.varp_coa = arp, vel
        look = s["look"]
        self.side = "L" if look > 0 else "R"
        ref_arp, ref_v = (pos, v) if kind == "INCA" else (arp, vel)
        self.urow = unit(self.scp - ref_arp)
        spn = unit(look * np.cross(ref_v, self.scp - ref_arp))
        self.ucol = np.cross(spn, self.urow)
        self.spn = unit(look * np.cross(vel, self.scp - arp))
        self.normal = up
        if kind in ("PLANE", "SIDD"):
            # a product plane close to the ground, turned about its normal and tilted a little
            ti, ro = math.radians(s["tilt"]), math.radians(s["rot"])
            n = math.cos(ti) * up + math.sin(ti) * (math.cos(ro) * east + math.sin(ro) * north)
            r = unit(np.cross(n, los_h))
            r = math.cos(ro) * r + math.sin(ro) * np.cross(n, r)
            self.urow, self.ucol = unit(r), unit(np.cross(n, r))
            k = math.radians(s.get("skew", 0.0))  # axes need not be exactly perpendicular
            self.ucol = math.cos(k) * self.ucol + math.sin(k) * self.urow
            if kind == "SIDD":
                if s["extra"][0] > 0:
                    self.ucol = -self.ucol
                self.normal = n
        e = s["extra"]
        if kind == "PFA":
            w = -float(vel @ self.ucol) / R
            self.polar_c = [-w * self.tcoa, w, 0.003 * w * e[0], 0.001 * w * e[1]]
            k = pv(self.polar_c, self.tcoa)
            self.polar_c[0] -= k
            self.sf_c = [1.0, 0.02 * e[2], -0.1 * abs(e[3])]
            n = up + 0.01 * e[0] * east + 0.01 * e[1] * north
            self.normal = unit(n)
        elif kind == "RGAZCOMP":
            self.az_sf = float(vel @ self.ucol) / (np.linalg.norm(vel) * R)
        elif kind == "INCA":
            drsf = 1.0 + float(acc @ (pos - self.scp)) / speed**2
            c1 = float(v @ self.ucol) / (speed**2 * drsf)
            self.r_ca = R
            self.tca_c = [self.tca, c1, 1e-7 * c1 * e[0]]
            self.drsf_c = np.array([[drsf, 1e-7 * e[1]], [-drsf / R * 0.3 * abs(e[2]), 0.0]])

    # reference -------------------------------------------------------------------------------------------------
    def arp(self, t):
        return np.array([pv(self.arp_c[:, k], t) for k in range(3)])

    def varp(self, t):
        return np.array([dv(self.arp_c[:, k], t) for k in range(3)])

    def contour(self, x, y):
        """R, Rdot, COA time, ARP position and velocity for SCP-centred image coordinates (metres)"""
        t = pv2(self.time_c, x, y)
        p, v = self.arp(t), self.varp(t)
        d = p - self.scp
        rs = float(np.linalg.norm(d))
        rds = float(v @ d) / rs
        if self.kind == "PFA":
            th, dth = pv(self.polar_c, t), dv(self.polar_c, t)
            k, dk = pv(self.sf_c, th), dv(self.sf_c, th)
            along, cross = x * math.cos(th) + y * math.sin(th), -x * math.sin(th) + y * math.cos(th)
            return rs + k * along, rds + (dk * along + k * cross) * dth, t, p, v
        if self.kind == "RGAZCOMP":
            return rs + x, rds - float(np.linalg.norm(v)) * self.az_sf * y, t, p, v
        if self.kind == "INCA":
            tca = pv(self.tca_c, y)
            k = pv2(self.drsf_c, x, y) * float(np.linalg.norm(self.varp(tca))) ** 2
            r = math.sqrt((self.r_ca + x) ** 2 + k * (t - tca) ** 2)
            return r, k * (t - tca) / r, t, p, v
        ip = self.scp + x * self.urow + y * self.ucol
        d = p - ip
        r = float(np.linalg.norm(d))
        return r, float(v @ d) / r, t, p, v

    def pixel_contour(self, x, y):
        """the same for a pixel (x = column, y = row) of the (chipped) image"""
        return self.contour(
            (y + self.first[0] - self.scp_row) * self.rss, (x + self.first[1] - self.scp_col) * self.css
        )

    def residual(self, x, y, P):
        """distance (m) in range and along track between a world point (ECEF) and the contour of a pixel; look sign"""
        r, rd, t, p, v = self.pixel_contour(x, y)
        d = p - np.asarray(P)
        got = float(np.linalg.norm(d))
        speed = float(np.linalg.norm(v))
        along = (float(v @ d) / got - rd) * got / speed
        n = up_at(*geo_np(P)[:2])
        look = math.copysign(1.0, float(np.cross(d, v) @ n))
        return got - r, along, look

    def extent(self):
        return max(self.s["rows"] * self.rss, self.s["cols"] * self.css)

    def pixel(self, a, b):
        """pixel from fractions (-1..1) of the image"""
        return (a + 1) / 2 * self.s["cols"], (b + 1) / 2 * self.s["rows"]


def geo_np(P):
    """vectorised ECEF to geodetic (lon, lat, h), fixed point iteration"""
    P = np.asarray(P, dtype=float)
    x, y, z = P[..., 0], P[..., 1], P[..., 2]
    p = np.hypot(x, y)
    lat = np.arctan2(z, p * (1 - E2))
    for _ in range(8):
        n = WGS_A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
        lat = np.arctan2(z + E2 * n * np.sin(lat), p)
    n = WGS_A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
    h = p * np.cos(lat) + z * np.sin(lat) - WGS_A * np.sqrt(1 - E2 * np.sin(lat) ** 2)
    return np.arctan2(y, x), lat, h


# metadata text ---------------------------------------------------------------------------------------------------
def num(v):
    return repr(float(v))


def xyz(tag, v, pre=""):
    return f"<{tag}>" + "".join(f"<{pre}{a}>{num(c)}</{pre}{a}>" for a, c in zip("XYZ", v)) + f"</{tag}>"


def poly1(tag, c, pre="", reverse=False, skip_zero=False):
    idx = list(range(len(c)))
    if reverse:
        idx.reverse()
    body = "".join(f'<{pre}Coef exponent1="{i}">{num(c[i])}</{pre}Coef>' for i in idx if not (skip_zero and c[i] == 0))
    return f'<{tag} order1="{len(c) - 1}">{body}</{tag}>'


def poly2(tag, c, pre="", reverse=False, skip_zero=False):
    c = np.asarray(c)
    terms = [
        f'<{pre}Coef exponent1="{i}" exponent2="{j}">{num(c[i][j])}</{pre}Coef>'
        for i in range(c.shape[0])
        for j in range(c.shape[1])
        if not (skip_zero and c[i][j] == 0)
    ]
    body = "".join(reversed(terms) if reverse else terms)
    return f'<{tag} order1="{c.shape[0] - 1}" order2="{c.shape[1] - 1}">{body}</{tag}>'


def xyzpoly(tag, c, pre="", **style):
    return f"<{tag}>" + "".join(poly1(f"{pre}{a}", c[:, k], pre, **style) for k, a in enumerate("XYZ")) + f"</{tag}>"


def style_of(s):
    """coefficients are identified by their exponents: zeros may be left out and the order is free"""
    return {"skip_zero": s["cols"] % 2 == 1, "reverse": s["rows"] % 3 == 0}


# free text that names the kinds of SAR metadata without being either
NOTES = (None, "20MAY01 scene 7", "input of SIDD product", "SICD 12", "SIDD", "urn:SIDD:2.0.0 from urn:SICD:1.3.0", "SICD")


def other_xml(note):
    """the metadata of something else that mentions SAR formats"""
    return f'<?xml version="1.0"?><m:Metadata xmlns:m="urn:other:metadata"><m:Lineage>{note}</m:Lineage></m:Metadata>'


_schemas = {}


def schema(namespace):
    """the published schema of a version of SICD or SIDD"""
    if namespace not in _schemas:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vendor", "schemas")
        _schemas[namespace] = xsd.Schema(os.path.join(d, SCHEMAS[namespace]))
    return _schemas[namespace]


SCHEMAS = {
    "urn:SICD:1.2.1": "sicd/SICD_schema_V1.2.1_2018_12_13.xsd",
    "urn:SICD:1.3.0": "sicd/SICD_schema_V1.3.0_2021_11_30_FINAL.xsd",
    "urn:SIDD:1.0.0": "sidd/SIDD_schema_V1.0.0_2011_08_31.xsd",
    "urn:SIDD:2.0.0": "sidd/SIDD_schema_V2.0.0_2019_05_31.xsd",
    "urn:SIDD:3.0.0": "sidd/SIDD_schema_V3.0.0.xsd",
}


def furnished(text, s):
    """with parts of the document that have no influence on the geometry, as the schema allows them"""
    root = ET.fromstring(text)
    ns, name = root.tag[1:].split("}")
    r = random.Random(s["rows"] * 1000 + s["cols"])
    maker = xsd.Maker(schema(ns), r, r.choice([0.0, 0.2, 0.4]))
    have = {c.tag.split("}")[1]: c for c in root}
    out = ET.Element(root.tag, root.attrib)
    for n, e, ctx, alternative in maker.sections(name):
        if n in have:
            out.append(have.pop(n))
        elif not alternative and n != "DownstreamReprocessing" and r.random() < 0.7:
            out.append(maker.element(e, ctx, 1))
    if have:
        raise AssertionError("not in the schema: %r" % sorted(have))
    return '<?xml version="1.0"?>' + ET.tostring(out, encoding="unicode")


def spelled(text, s):
    """the document in one of the spellings XML allows: prefixes, declaration, comments, white space between elements"""
    if (3 * s["rows"] + s["cols"]) % 6 == 0:
        text = furnished(text, s)
    how = (s["rows"] + 2 * s["cols"]) % 9
    if how < 3:
        return text
    body = text.split("?>", 1)[1]
    if how == 3:  # prefixes chosen by another writer
        return ET.tostring(ET.fromstring(body), encoding="unicode")
    if how == 4:
        return body
    if how == 5:
        return "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>\n" + body + "\n"
    if how == 6:
        return text.replace("><", ">\n  <")
    if how == 7:
        root = ET.fromstring(body)
        ET.indent(root, "\t")
        return '<?xml version="1.0" encoding="UTF-8"?>\n<!-- x -->\n<?editor a="b"?>\n' + ET.tostring(root, encoding="unicode")
    return text.replace("><", "><!-- <a> -->\n<", 40)


def sicd_xml(sc, note=None, plain=False):
    """note: free text of the document (the name of the collection)"""
    s = sc.s
    k = sc.kind
    grid = {"PFA": "RGAZIM", "RGAZCOMP": "RGAZIM", "INCA": "RGZERO"}.get(k, k)
    algo = {"PFA": "PFA", "RGAZCOMP": "RGAZCOMP", "INCA": "RMA"}.get(k, "RMA" if k == "XRGYCR" else "OTHER")
    comment = "<!-- made from <SIDD> -->" if note and "input" in note else ""
    out = [f'<?xml version="1.0"?>{comment}<SICD xmlns="urn:SICD:{s["version"]}">']
    if note is not None:
        out.append(f"<CollectionInfo><CollectorName>sensor</CollectorName><CoreName>{note}</CoreName></CollectionInfo>")
    out.append(
        "<ImageData><PixelType>RE32F_IM32F</PixelType>"
        f"<NumRows>{s['rows']}</NumRows><NumCols>{s['cols']}</NumCols><FirstRow>{sc.first[0]}</FirstRow>"
        f"<FirstCol>{sc.first[1]}</FirstCol><FullImage><NumRows>{sc.first[0] + s['rows'] + 100}</NumRows>"
        f"<NumCols>{sc.first[1] + s['cols'] + 100}</NumCols></FullImage>"
        f"<SCPPixel><Row>{sc.scp_row}</Row><Col>{sc.scp_col}</Col></SCPPixel></ImageData>"
    )
    out.append(
        "<GeoData><EarthModel>WGS_84</EarthModel><SCP>"
        + xyz("ECF", sc.scp)
        + f"<LLH><Lat>{num(s['lat'])}</Lat><Lon>{num(s['lon'])}</Lon><HAE>{num(s['hae'])}</HAE></LLH></SCP></GeoData>"
    )
    out.append(f"<Grid><ImagePlane>SLANT</ImagePlane><Type>{grid}</Type>" + poly2("TimeCOAPoly", sc.time_c, **style_of(sc.s)))
    for tag, u, ss in (("Row", sc.urow, sc.rss), ("Col", sc.ucol, sc.css)):
        out.append(f"<{tag}>" + xyz("UVectECF", u) + f"<SS>{num(ss)}</SS></{tag}>")
    out.append("</Grid><Position>" + xyzpoly("ARPPoly", sc.arp_c, **style_of(sc.s)) + "</Position>")
    out.append(f"<ImageFormation><ImageFormAlgo>{algo}</ImageFormAlgo></ImageFormation>")
    out.append(
        f"<SCPCOA><SCPTime>{num(sc.tcoa)}</SCPTime>"
        + xyz("ARPPos", sc.arp_coa)
        + xyz("ARPVel", sc.varp_coa)
        + f"<SideOfTrack>{sc.side}</SideOfTrack></SCPCOA>"
    )
    if k == "PFA":
        out.append("<PFA>" + xyz("FPN", sc.normal) + poly1("PolarAngPoly", sc.polar_c, **style_of(sc.s)) + poly1("SpatialFreqSFPoly", sc.sf_c, **style_of(sc.s)) + "</PFA>")
    elif k == "RGAZCOMP":
        out.append(f"<RgAzComp><AzSF>{num(sc.az_sf)}</AzSF></RgAzComp>")
    elif k == "INCA":
        out.append(
            "<RMA><RMAlgoType>OMEGA_K</RMAlgoType><ImageType>INCA</ImageType><INCA>"
            + poly1("TimeCAPoly", sc.tca_c, **style_of(sc.s))
            + f"<R_CA_SCP>{num(sc.r_ca)}</R_CA_SCP>"
            + poly2("DRateSFPoly", sc.drsf_c, **style_of(sc.s))
            + "</INCA></RMA>"
        )
    out.append("</SICD>")
    return "".join(out) if plain else spelled("".join(out), sc.s)


SIDD_NS = {"1.0.0": ("urn:SIDD:1.0.0", "urn:SICommon:0.1"), "2.0.0": ("urn:SIDD:2.0.0", "urn:SICommon:1.0"), "3.0.0": ("urn:SIDD:3.0.0", "urn:SICommon:1.0")}


def processing_event(e):
    """e: name, second, descriptors [(name, value)]"""
    d = "".join(f"<Descriptor name={quoteattr(n)}>{escape(v)}</Descriptor>" for n, v in e[2])
    return (
        f"<ProcessingEvent><ApplicationName>{escape(e[0])}</ApplicationName><AppliedDateTime>2021-03-04T05:06:{e[1]:02d}Z</AppliedDateTime>"
        f"{d}</ProcessingEvent>"
    )


def sidd_xml(sc, version="2.0.0", chip=None, events=(), note=None, plain=False):
    """chip: {size: [rows, cols], ul, ur, ll, lr: [row, col]} in full image coordinates; note: free text (product name)"""
    ns, si = SIDD_NS[version]
    out = [f'<?xml version="1.0"?><SIDD xmlns="{ns}" xmlns:si="{si}">']
    if note is not None:
        out.append(f"<ProductCreation><ProductName>{note}</ProductName></ProductCreation>")
    out.append(
        "<Measurement><PlaneProjection><ReferencePoint>"
        + xyz("si:ECEF", sc.scp, "si:")
        + f"<si:Point><si:Row>{num(sc.scp_row)}</si:Row><si:Col>{num(sc.scp_col)}</si:Col></si:Point></ReferencePoint>"
        + f"<SampleSpacing><si:Row>{num(sc.rss)}</si:Row><si:Col>{num(sc.css)}</si:Col></SampleSpacing>"
        + poly2("TimeCOAPoly", sc.time_c, "si:", **style_of(sc.s))
        + "<ProductPlane>"
        + xyz("RowUnitVector", sc.urow, "si:")
        + xyz("ColUnitVector", sc.ucol, "si:")
        + f"</ProductPlane></PlaneProjection><PixelFootprint><si:Row>{sc.s['rows']}</si:Row><si:Col>{sc.s['cols']}</si:Col></PixelFootprint>"
        + xyzpoly("ARPPoly", sc.arp_c, "si:", **style_of(sc.s))
        + "</Measurement>"
    )
    if chip is not None or events:
        out.append("<DownstreamReprocessing>")
    if chip is not None:
        def rc(tag, v):
            return f"<{tag}><si:Row>{num(v[0])}</si:Row><si:Col>{num(v[1])}</si:Col></{tag}>"

        out.append(
            f"<GeometricChip><ChipSize><si:Row>{chip['size'][0]}</si:Row><si:Col>{chip['size'][1]}</si:Col></ChipSize>"
            + rc("OriginalUpperLeftCoordinate", chip["ul"])
            + rc("OriginalUpperRightCoordinate", chip["ur"])
            + rc("OriginalLowerLeftCoordinate", chip["ll"])
            + rc("OriginalLowerRightCoordinate", chip["lr"])
            + "</GeometricChip>"
        )
    for e in events:
        out.append(processing_event(e))
    if chip is not None or events:
        out.append("</DownstreamReprocessing>")
    out.append("</SIDD>")
    return "".join(out) if plain else spelled("".join(out), sc.s)
