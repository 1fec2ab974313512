"""C23 NITF data extension segments."""

import base64
import re
from xml.etree import ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

from lib import rasters
from lib.pbt import Check
from lib.util import fail

from aws.osml.gdal import NITFDESAccessor

check = Check(
    "C23",
    "Data extension segments are found by name and their headers and XML survive a read and rewrite unchanged",
    ["field values use NITF BCS characters and no trailing blanks (GDAL trims fields)", "DES as reported by the installed GDAL 3.8 and in the >=3.9 layout"],
)

# MIL-STD-2500C table A-8, after DESID
FIELDS = [
    ("DESVER", 2),
    ("DECLAS", 1),
    ("DESCLSY", 2),
    ("DESCODE", 11),
    ("DESCTLH", 2),
    ("DESREL", 20),
    ("DESDCTP", 2),
    ("DESDCDT", 8),
    ("DESDCXM", 4),
    ("DESDG", 1),
    ("DESDGDT", 8),
    ("DESCLTX", 43),
    ("DESCATP", 1),
    ("DESCAUT", 40),
    ("DESCRSN", 1),
    ("DESSRDT", 8),
    ("DESCTLN", 15),
]
ALPHA = "ABCXYZ abc019.,:-/()"


def value(n):
    return st.one_of(st.just(""), st.text(ALPHA, min_size=1, max_size=n).map(str.rstrip), st.text("ABC19", min_size=n, max_size=n))


header = st.fixed_dictionaries(
    {
        **{k: value(n) for k, n in FIELDS if k not in ("DESVER", "DECLAS")},
        "DESVER": st.integers(1, 99),
        "DECLAS": st.sampled_from("UCSRT"),
    }
)
subheader = st.one_of(
    st.just(""),
    st.builds(lambda n, t, b: (t * 800)[: n - 1] + b, st.sampled_from([5, 283, 773]), st.text("ABCab 019:/.", min_size=1, max_size=20), st.sampled_from("Z9")),
)


def encode(h, sub):
    out = []
    for k, n in FIELDS:
        out.append(f"{h[k]:02d}" if k == "DESVER" else h[k].ljust(n))
    return "".join(out) + f"{len(sub):04d}" + sub


# ---- XML documents

name = st.sampled_from(["a", "Grid", "si:Value", "Coef", "x-y", "_n", "des", "field", "xml_content"])
content = st.one_of(st.just(""), st.text("abc 123.<>&\"'é度\n\t", max_size=12), st.sampled_from(["1.5E-3", "]]>", "&amp;", "<?x", "<!-- c -->"]))
element = st.recursive(
    st.tuples(name, content, st.lists(st.tuples(st.sampled_from(["p", "q"]), content) | st.tuples(st.just("name"), st.sampled_from(["XML_DATA_CONTENT", "TRE_OVERFLOW", "DESDATA", "DESSHL", "DECLAS"])), max_size=2, unique_by=lambda t: t[0])),
    lambda c: st.tuples(name, st.lists(c, min_size=1, max_size=3), st.just([]) | st.tuples(st.just("name"), st.sampled_from(["XML_DATA_CONTENT", "DESDATA"])).map(lambda a: [a])),
    max_leaves=6,
)


def to_xml(e, root=False, space=True):
    tag, c, attrs = e
    a = "".join(f" {k}={quoteattr(v)}" for k, v in attrs)
    if root:
        a = ' xmlns:si="urn:SICommon:1.0"' + (' xmlns="urn:SICD:1.2.1"' if space else "") + a
    body = escape(c) if isinstance(c, str) else "".join(to_xml(x) for x in c)
    return f"<{tag}{a}>{body}</{tag}>"


def canonical(e):
    """whitespace at the ends of text is not significant here (GDAL's own XML layer may trim it)"""
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or ""), tuple(canonical(x) for x in e))


prolog = st.sampled_from(["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>"])


# ---- as GDAL describes them

segment = st.fixed_dictionaries(
    {
        "name": st.sampled_from(["XML_DATA_CONTENT", "TRE_OVERFLOW", "CSATTA DES", "XML_DATA_CONTENT"]),
        "header": header,
        "sub": st.one_of(subheader, st.text("ABC 12", max_size=30)),
        "xml": element,
        "space": st.booleans(),
        "prolog": prolog,
        "layout": st.sampled_from(["base64", "base64", "xml_content", "none"]),
    }
)


def describe(s):
    """one <des> element in the layout of the xml:DES domain"""
    f = [f'<field name="{k}" value={quoteattr(str(s["header"][k]) if k != "DESVER" else format(s["header"][k], "02d"))} />' for k, _ in FIELDS]
    f.append(f'<field name="DESSHL" value="{len(s["sub"]):04d}" />')
    if s["sub"]:
        f.append(f'<field name="DESSHF" value={quoteattr(s["sub"])} />')
    doc = s["prolog"] + to_xml(s["xml"], True, s["space"])
    if s["layout"] == "base64":
        f.append(f'<field name="DESDATA" value="{base64.b64encode(doc.encode()).decode()}" />')
    elif s["layout"] == "xml_content":
        f.append(f'<field name="DESDATA"><xml_content>{doc}</xml_content></field>')
    return f'<des name="{s["name"]}">' + "".join(f) + "</des>", doc


@check.sub(
    "metadata",
    st.lists(st.lists(segment, min_size=0, max_size=3), min_size=0, max_size=3),
    quick=600,
    shards=2,
    rule="at least two segments",
)
def metadata(lists):
    docs = []
    texts = []
    for segs in lists:
        parts = []
        for s in segs:
            x, doc = describe(s)
            parts.append(x)
            docs.append((s, doc))
        texts.append("<des_list>" + "".join(parts) + "</des_list>")
    acc = NITFDESAccessor(texts)
    for n in ("XML_DATA_CONTENT", "TRE_OVERFLOW", "CSATTA DES", "OTHER"):
        got = acc.get_segments_by_name(n)
        want = [(s, d) for s, d in docs if s["name"] == n]
        if len(got) != len(want):
            fail("%d segments named %s, expected %d", len(got), n, len(want))
        for g, (s, doc) in zip(got, want):
            h = NITFDESAccessor.extract_des_header(g)
            if h != encode(s["header"], s["sub"]):
                fail("header %r, expected %r", h, encode(s["header"], s["sub"]))
            for k, _ in FIELDS[1:]:
                if NITFDESAccessor.parse_field_value(g, k, str) != s["header"][k]:
                    fail("field %s is %r, expected %r", k, NITFDESAccessor.parse_field_value(g, k, str), s["header"][k])
            if NITFDESAccessor.parse_field_value(g, "DESVER", int) != s["header"]["DESVER"]:
                fail("DESVER")
            x = NITFDESAccessor.extract_desdata_xml(g)
            if s["layout"] == "none":
                if x is not None:
                    fail("XML %r from a segment without data", x)
            elif s["layout"] == "base64":
                if x != doc:
                    fail("XML %r, expected %r", x, doc)
            elif x is None or canonical(ET.fromstring(x)) != canonical(ET.fromstring(to_xml(s["xml"], True, s["space"]))):
                fail("XML %r, expected %r", x, doc)
    return len(docs) > 1


@check.sub(
    "nitf",
    st.tuples(header, subheader, st.lists(element, min_size=1, max_size=2), prolog),
    quick=250,
    shards=2,
    rule="always: a NITF file written, read and rewritten by GDAL",
)
def nitf(case):
    """file -> accessor -> file: the header and the XML are the same in both files"""
    h, sub, elements, pro = case
    h = dict(h, DESVER=1)
    want_h = encode(h, sub)
    docs = [pro + to_xml(e, True).replace("\n", " ").replace("\t", " ") for e in elements]
    px = np.zeros((1, 4, 4), dtype=np.uint8)
    src, _ = rasters.dataset(px)
    entries = [want_h + d for d in docs]
    for generation in (1, 2):
        path = rasters.temp(".ntf")
        ds = gdal.GetDriverByName("NITF").CreateCopy(path, src, options=["DES=XML_DATA_CONTENT=" + e for e in entries])
        ds = None
        ds = gdal.Open(path)
        segs = NITFDESAccessor(ds.GetMetadata("xml:DES")).get_segments_by_name("XML_DATA_CONTENT")
        if len(segs) != len(docs):
            fail("%d segments in generation %d, expected %d", len(segs), generation, len(docs))
        entries = []
        for s, d in zip(segs, docs):
            got_h = NITFDESAccessor.extract_des_header(s)
            if got_h != want_h:
                fail("generation %d: header %r, expected %r", generation, got_h, want_h)
            x = NITFDESAccessor.extract_desdata_xml(s)
            if x != d:
                fail("generation %d: XML %r, expected %r", generation, x, d)
            entries.append(got_h + x)
        ds = None
        rasters.unlink(path)
    return True


@check.sub(
    "missing",
    st.tuples(segment, st.sampled_from([k for k, _ in FIELDS] + ["DESSHL"]), st.booleans()),
    quick=200,
    rule="always: a required field is absent",
)
def missing(case):
    s, k, only_value = case
    x, _ = describe(dict(s, layout="base64"))
    y = re.sub(rf'(<field name="{k}") value=("[^"]*"|\'[^\']*\') />', r"\1 />" if only_value else "", x)
    acc = NITFDESAccessor([f"<des_list>{y}</des_list>"])
    g = acc.get_segments_by_name(s["name"])[0]
    for fn in (lambda: NITFDESAccessor.parse_field_value(g, k, str), lambda: NITFDESAccessor.extract_des_header(g)):
        try:
            r = fn()
        except ValueError:
            continue
        fail("field %s is missing but %r was returned", k, r)
    return True


@check.sub("empty", st.sampled_from([0, 1]), quick=1, examples=[0, 1], rule="always")
def empty(i):
    acc = NITFDESAccessor([[], None][i])
    if acc.get_segments_by_name("XML_DATA_CONTENT"):
        fail("segments without metadata")
    return True


@check.sub(
    "long",
    st.tuples(st.lists(segment, min_size=1, max_size=20), st.integers(1, 4), st.integers(50, 3000), st.integers(0, 19)),
    quick=25,
    shards=3,
    rule="more than nine segments, or a document of more than 64 kB",
)
def long_(case):
    """documents and lists of segments of the lengths of real ones"""
    segs, lists, n, which = case
    s = segs[which % len(segs)]
    segs[which % len(segs)] = dict(s, xml=("all", [s["xml"]] * n, []))
    size = len(to_xml(s["xml"])) * n
    metadata([segs[k::lists] for k in range(lists)])
    return len(segs) > 9 or size > 65536
