"""C28 SAR metadata documents survive chip updates."""

import os
import random
import re
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from lib import sar, xsd
from lib.pbt import Check
from lib.util import fail, rfl

from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater

check = Check(
    "C28",
    "Rewriting SICD or SIDD metadata for a chip preserves everything that does not describe the chip",
    [
        "documents: the example SICD and SIDD metadata of the repository and synthetic ones, with values replaced and optional parts removed",
        "numbers are compared as doubles, times without trailing zeros of the fraction, other text exactly",
    ],
)

REPO = os.environ.get("VERIF_REPO", "/repo")
DATA = os.path.join(REPO, "test", "data")
DOCS = {
    "sicd": ["sicd/example.sicd121.capella.xml", "sicd/example.sicd121.pfa.xml", "sicd/example.sicd121.rma.xml"],
    "sidd": ["sidd/example.sidd.xml", "sidd/example.sidd-chip.xml"],
}
_cache = {}
# elements with free text in the schema
FREE = ("CollectorName", "CoreName", "Application", "Site", "Profile", "Classification", "Identifier", "ProductName", "ProductClass", "FullName", "Description")


def load(name):
    if name not in _cache:
        with open(os.path.join(DATA, name), "rb") as f:
            _cache[name] = f.read().decode("utf-8")
    return _cache[name]


def local(e):
    return e.tag.split("}")[-1]


KEEP = {"ImageData", "DownstreamReprocessing", "Measurement"}


def vary(text, seed, drops, nums, words):
    """replace values of a document and remove parts of it"""
    root = ET.fromstring(text.encode())
    r = random.Random(seed)
    tops = [e for e in root if local(e) not in KEEP]
    for _ in range(drops):
        if tops:
            e = r.choice(tops)
            tops.remove(e)
            if len(e) and r.random() < 0.6:
                e.remove(r.choice(list(e)))
            else:
                root.remove(e)
    leaves = [e for e in root.iter() if len(e) == 0 and e.text and e.text.strip()]
    floats = [e for e in leaves if re.fullmatch(r"[-+]?\d*\.\d+([eE][-+]?\d+)?|[-+]?\d+\.?\d*[eE][-+]?\d+", e.text.strip())]
    for v in nums:
        if floats:
            r.choice(floats).text = repr(v)
    free = [e for e in leaves if local(e) in FREE]
    for w in words:
        if free:
            r.choice(free).text = w
    for ns, p in (("urn:SICommon:1.0", "si"), ("urn:SICommon:0.1", "si")):
        ET.register_namespace(p, ns)
    return ET.tostring(root, "unicode")


def with_events(text, events):
    """downstream processing events of a SIDD document"""
    x = "".join(sar.processing_event(e) for e in events)
    if "<DownstreamReprocessing>" in text:
        return text.replace("</DownstreamReprocessing>", x + "</DownstreamReprocessing>")
    return text.replace("</ExploitationFeatures>", "</ExploitationFeatures><DownstreamReprocessing>" + x + "</DownstreamReprocessing>")


def same_as_fresh(updater, text, w, out):
    """the metadata of a chip does not depend on the chips made before it"""
    fresh = updater(text)
    fresh.update_image_data_for_chip(list(w), None)
    if fresh.encode_current_xml() != out:
        fail("the metadata of chip %r depends on the chips made before", w)


def norm(t):
    t = t or ""
    if not t.strip():
        return ""
    try:
        return float(t)
    except ValueError:
        pass
    m = re.fullmatch(r"\s*(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d+)?(Z|[-+]\d\d:\d\d)?\s*", t)
    if m:
        return m.group(1) + (m.group(2) or "").rstrip("0").rstrip(".") + (m.group(3) or "").replace("+00:00", "Z")
    return {"true": True, "false": False}.get(t.strip(), t)


def flat(e, path=""):
    """[(path with namespaces, attributes, value)] in document order"""
    p = f"{path}/{e.tag}"
    text = norm(e.text) if len(e) == 0 else ""
    out = [(p, {k: norm(v) for k, v in e.attrib.items() if not k.startswith("{http://www.w3.org")}, text)]
    for c in e:
        out += flat(c, p)
    return out


CHIP = {
    "sicd": r"/\{[^}]*\}SICD/\{[^}]*\}ImageData/\{[^}]*\}(NumRows|NumCols|FirstRow|FirstCol)",
    "sidd": r"/\{[^}]*\}SIDD/\{[^}]*\}DownstreamReprocessing(/\{[^}]*\}GeometricChip(/.*)?)?",
}


def compare(kind, before, after, what):
    a = [x for x in flat(ET.fromstring(before.encode())) if not re.fullmatch(CHIP[kind], x[0])]
    b = [x for x in flat(ET.fromstring(after.encode())) if not re.fullmatch(CHIP[kind], x[0])]
    for x, y in zip(a, b):
        if x != y:
            fail("%s: %r became %r", what, x, y)
    if len(a) != len(b):
        longer = a if len(a) > len(b) else b
        fail("%s: %d values, %d before; first difference %r", what, len(b), len(a), longer[min(len(a), len(b))])
    return len(a)


number = st.one_of(
    rfl(-1e6, 1e6, 3),
    st.floats(allow_nan=False, allow_infinity=False, width=64),
    st.sampled_from([1e-300, 1.7976931348623157e308, 0.1, 1 / 3, 123456789.12345678, -0.0, 1e22, 5e-324]),
)
word = st.text("abc XYZ/-_.<>&\"'é度", min_size=1, max_size=20).filter(lambda t: t.strip() == t and t != "")
event = st.tuples(word, st.integers(0, 59), st.lists(st.tuples(word, word), max_size=2))
side = st.integers(2, 900) | st.sampled_from([2, 64, 900])
wins = st.lists(st.tuples(st.integers(0, 500), st.integers(0, 500), side, side), min_size=0, max_size=3)


@check.sub(
    "examples",
    st.tuples(
        st.sampled_from([("sicd", d) for d in DOCS["sicd"]] + [("sidd", d) for d in DOCS["sidd"]]),
        st.booleans(),
        st.integers(0, 10**6),
        st.integers(0, 4),
        st.lists(number, max_size=20),
        st.lists(word, max_size=4),
        wins,
        st.lists(event, max_size=2),
    ),
    quick=250,
    shards=6,
    rule="values were replaced and the chip updated",
)
def examples(case):
    (kind, doc), newer, seed, drops, nums, words, ws, events = case
    t = load(doc)
    if kind == "sidd" and events:
        t = with_events(t, events)
    if newer:
        t = t.replace("urn:SICD:1.2.1", "urn:SICD:1.3.0").replace("urn:SIDD:2.0.0", "urn:SIDD:3.0.0")
    t = vary(t, seed, drops, nums, words)
    u = (SICDUpdater if kind == "sicd" else SIDDUpdater)(t)
    out = u.encode_current_xml()
    compare(kind, t, out, f"{doc} re-encoded")
    for w in ws:
        u.update_image_data_for_chip(list(w), None)
        out = u.encode_current_xml()
        compare(kind, t, out, f"{doc} for chip {w}")
    if len(ws) > 1:
        same_as_fresh(type(u), t, ws[-1], out)
    # and once more through the text
    again = (SICDUpdater if kind == "sicd" else SIDDUpdater)(out).encode_current_xml()
    if flat(ET.fromstring(again.encode())) != flat(ET.fromstring(out.encode())):
        fail("%s: encoding the encoded document changes it", doc)
    return bool(nums and ws)


@check.sub(
    "synthetic",
    st.tuples(
        sar.scene(("PFA", "INCA", "RGAZCOMP", "XCTYAT", "SIDD")),
        st.sampled_from(["1.0.0", "2.0.0", "3.0.0"]),
        wins,
        st.lists(event, max_size=2),
        st.one_of(st.none(), st.tuples(st.integers(2, 900), st.integers(2, 900), st.lists(rfl(0, 1000, 2), min_size=8, max_size=8))),
    ),
    quick=200,
    shards=2,
    rule="the chip was updated",
)
def synthetic(case):
    s, ver, ws, events, chip = case
    sc = sar.Scene(s)
    kind = "sidd" if s["kind"] == "SIDD" else "sicd"
    if chip is not None:
        c = chip[2]
        chip = {"size": chip[:2], "ul": c[:2], "ur": c[2:4], "ll": c[4:6], "lr": c[6:]}
    t = sar.sidd_xml(sc, ver, chip, events) if kind == "sidd" else sar.sicd_xml(sc)
    u = (SICDUpdater if kind == "sicd" else SIDDUpdater)(t)
    compare(kind, t, u.encode_current_xml(), "re-encoded")
    for w in ws:
        u.update_image_data_for_chip(list(w), None)
        out = u.encode_current_xml()
        compare(kind, t, out, f"chip {w}")
    if len(ws) > 1:
        same_as_fresh(type(u), t, ws[-1], out)
    return bool(ws)


@check.sub(
    "interleaved",
    st.tuples(
        st.lists(st.tuples(sar.scene(("PFA", "INCA", "XCTYAT", "SIDD", "SIDD")), st.sampled_from(["1.0.0", "2.0.0", "3.0.0"])), min_size=2, max_size=3),
        st.booleans(),
        st.lists(st.tuples(st.integers(0, 2), st.none() | st.tuples(st.integers(0, 500), st.integers(0, 500), side, side)), min_size=2, max_size=8),
    ),
    quick=80,
    shards=2,
    rule="two updaters with chips of their own",
)
def interleaved(case):
    """the updaters of several images, also of one and the same document, do not affect each other"""
    scenes, same, steps = case
    docs = []
    for s, ver in scenes:
        kind = "sidd" if s["kind"] == "SIDD" else "sicd"
        sc = sar.Scene(s)
        docs.append((kind, sar.sidd_xml(sc, ver) if kind == "sidd" else sar.sicd_xml(sc)))
    if same:
        docs[1] = docs[0]
    us = [(SICDUpdater if kind == "sicd" else SIDDUpdater)(t) for kind, t in docs]
    last = {}
    for i, w in steps:
        i %= len(us)
        if w is not None:
            us[i].update_image_data_for_chip(list(w), None)
            last[i] = w
        compare(*docs[i], us[i].encode_current_xml(), f"image {i}, chip {w}")
    for i, (u, (kind, t)) in enumerate(zip(us, docs)):
        out = u.encode_current_xml()
        if i in last:
            same_as_fresh(type(u), t, last[i], out)
        elif out != type(u)(t).encode_current_xml():
            fail("the metadata of image %d changed although no chip of it was made", i)
    return len(last) > 1


@check.sub(
    "standard",
    st.tuples(
        st.sampled_from(sorted(sar.SCHEMAS)),
        st.integers(0, 10**6),
        st.sampled_from([0.0, 0.1, 0.2, 0.3, 0.5, 0.8]),
        st.lists(number, min_size=1, max_size=8),
        st.lists(word, min_size=1, max_size=6),
        wins,
    ),
    quick=300,
    shards=5,
    rule="a document of more than 200 values",
)
def standard(case):
    """any document the published schema allows"""
    ns, seed, rich, nums, words, ws = case
    kind = ns.split(":")[1].lower()
    r = random.Random(seed)
    maker = xsd.Maker(sar.schema(ns), r, rich, lambda: r.choice(nums) if r.random() < 0.5 else r.uniform(-1000, 1000), lambda: r.choice(words))
    root = maker.document(kind.upper())
    for e in root.iter(f"{{{ns}}}ChipSize"):
        for c in e:
            c.text = str(r.randint(2, 900))
    t = ET.tostring(root, "unicode")
    u = (SICDUpdater if kind == "sicd" else SIDDUpdater)(t)
    n = compare(kind, t, u.encode_current_xml(), "re-encoded")
    for w in ws:
        u.update_image_data_for_chip(list(w), None)
        out = u.encode_current_xml()
        compare(kind, t, out, f"for chip {w}")
    if len(ws) > 1:
        same_as_fresh(type(u), t, ws[-1], out)
    return n > 200
