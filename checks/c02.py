"""C02 coordinate formatting."""

import math
import re

from hypothesis import strategies as st

from lib.pbt import Check
from lib.util import close, fail, fl, lat_deg, lon_deg

from aws.osml.photogrammetry import GeodeticWorldCoordinate

check = Check("C02", "Formatted coordinates are well formed and name the location they came from")

DMS = re.compile(r"^(\d\d)(\d\d)(\d\d)([NS])(\d\d\d)(\d\d)(\d\d)([EW])$")


def make(case):
    return GeodeticWorldCoordinate([math.radians(case[0]), math.radians(case[1]), case[2]])


def dms_ok(d, m, s, degrees, limit, what):
    d, m, s = int(d), int(m), int(s)
    if m > 59 or s > 59 or d > limit or (d == limit and (m or s)):
        fail("%s fields %d %d %d out of range for %r degrees", what, d, m, s, degrees)
    total = d * 3600 + m * 60 + s
    if abs(total - abs(degrees) * 3600) > 1.0011:
        fail("%s %02d:%02d:%02d is %.4f arc seconds away from %r degrees", what, d, m, s, total - abs(degrees) * 3600, degrees)


@check.sub(
    "dms",
    st.tuples(lon_deg(), lat_deg(), fl(-500, 9000)),
    quick=4000,
    rule="neither coordinate is a whole number of degrees",
)
def dms(case):
    c = make(case)
    t = c.to_dms_string()
    m = DMS.match(t)
    if not m:
        fail("%r is not ddmmssXdddmmssY", t)
    lon, lat = math.degrees(c.longitude), math.degrees(c.latitude)
    dms_ok(m[1], m[2], m[3], lat, 90, "latitude")
    dms_ok(m[5], m[6], m[7], lon, 180, "longitude")
    if lat != 0 and (m[4] == "S") != (lat < 0):
        fail("hemisphere %s for latitude %r", m[4], lat)
    if lon != 0 and (m[8] == "W") != (lon < 0):
        fail("hemisphere %s for longitude %r", m[8], lon)
    if f"{c:%ld%lm%ls%lH%od%om%os%oH}" != t:
        fail("to_dms_string differs from the documented directives")
    return case[0] % 1 != 0 and case[1] % 1 != 0


DIRECTIVES = ["%L", "%l", "%ld", "%lm", "%ls", "%lh", "%lH", "%O", "%o", "%od", "%om", "%os", "%oh", "%oH", "%E", "%%"]
UNKNOWN = ["%q", "%Z", "%7", "%x"]
LITERALS = ["", " ", "/", "_", "tile-", "N", "srtm_", ".dt2", "l", "o", "0", "é", ":", "{}", "dd"]


@check.sub(
    "directives",
    st.tuples(
        lon_deg(),
        lat_deg(),
        fl(-500, 9000),
        st.lists(st.one_of(st.sampled_from(DIRECTIVES), st.sampled_from(LITERALS), st.sampled_from(UNKNOWN)), min_size=1, max_size=9),
    ),
    quick=4000,
    rule="format has at least three directives and a literal",
)
def directives(case):
    c = make(case)
    lon, lat = math.degrees(c.longitude), math.degrees(c.latitude)
    # tokens are joined with '|' which no directive consumes, so the output can be taken apart again
    toks = case[3]
    spec = "|".join(toks)
    if spec == "":
        return False
    if "{" in spec:
        out = c.__format__(spec)
    else:
        out = f"{c:{spec}}"
    parts = out.split("|")
    if len(parts) != len(toks):
        fail("format %r gave %r", spec, out)
    fields = {}
    for t, o in zip(toks, parts):
        if t in UNKNOWN:
            if o != "":
                fail("unknown directive %r gave %r", t, o)
        elif not t.startswith("%"):
            if o != t:
                fail("literal %r gave %r", t, o)
        elif t == "%%":
            if o != "%":
                fail("%%%% gave %r", o)
        elif t == "%E":
            close(float(o), c.elevation, 0, 1e-12, "elevation")
        elif t == "%L":
            close(float(o), c.latitude, 1e-300, 1e-12, "latitude in radians")
        elif t == "%O":
            close(float(o), c.longitude, 1e-300, 1e-12, "longitude in radians")
        elif t == "%l":
            close(abs(float(o)), abs(lat), 1e-300, 1e-12, "latitude in degrees")
        elif t == "%o":
            close(abs(float(o)), abs(lon), 1e-300, 1e-12, "longitude in degrees")
        elif t[2] in "hH":
            names = "NS" if t[1] == "l" else "EW"
            v = lat if t[1] == "l" else lon
            want = names[1] if v < 0 else names[0]
            if o != (want if t[2] == "H" else want.lower()):
                fail("%s gave %r for %r degrees", t, o, v)
        else:
            width = 3 if t == "%od" else 2
            if not re.fullmatch(r"\d{%d}" % width, o):
                fail("%s gave %r, not %d digits", t, o, width)
            fields[t[1:]] = o
    full = f"{c:%ld %lm %ls %od %om %os}".split(" ")
    for name, value in zip(("ld", "lm", "ls", "od", "om", "os"), full):
        if fields.get(name, value) != value:
            fail("%%%s gave %r alone and %r with other directives", name, fields[name], value)
    dms_ok(*full[:3], lat, 90, "latitude")
    dms_ok(*full[3:], lon, 180, "longitude")
    return sum(t.startswith("%") for t in toks) >= 3 and any(not t.startswith("%") for t in toks)


@check.sub(
    "sequence",
    st.tuples(
        lon_deg(),
        lat_deg(),
        fl(-500, 9000),
        st.lists(
            st.one_of(st.sampled_from(DIRECTIVES), st.sampled_from(LITERALS), st.text("dmshHlLoOEeNnWw%".replace("%", "") + "0 -", min_size=1, max_size=3)),
            min_size=2,
            max_size=8,
        ),
    ),
    quick=3000,
    rule="a directive is followed directly by a letter or another directive",
)
def sequence(case):
    """the text of a sequence of directives and literals is the sequence of their texts"""
    c = make(case)
    toks = [t for t in case[3] if t]
    spec, want, tight, bare = "", "", False, False
    for t in toks:
        if bare and t[0] in "dmshH":
            spec, want = spec + " ", want + " "  # would name another directive
        bare = t in ("%l", "%o")
        tight = tight or bool(want)
        spec += t
        want += c.__format__(t) if t in DIRECTIVES else t
    if not spec:
        return False
    got = c.__format__(spec)
    if got != want:
        fail("format %r gave %r, its parts give %r", spec, got, want)
    return tight and "%" in spec


@check.sub("pairs", st.tuples(lon_deg(), lat_deg(), fl(-500, 9000)), quick=40, rule="always: every directive followed by every directive and every character")
def pairs(case):
    c = make(case)
    single = {d: c.__format__(d) for d in DIRECTIVES}
    follow = [chr(k) for k in range(32, 127) if chr(k) != "%"] + DIRECTIVES
    for d in DIRECTIVES:
        for f in follow:
            if d in ("%l", "%o") and f in ("d", "m", "s", "h", "H"):
                continue
            for first in ("", "x"):
                got = c.__format__(first + d + f)
                if got != first + single[d] + single.get(f, f):
                    fail("format %r gave %r, its parts give %r", first + d + f, got, first + single[d] + single.get(f, f))
    return True


@check.sub("default", st.tuples(lon_deg(), lat_deg(), fl(-500, 9000)), quick=500, rule="always")
def default(case):
    c = make(case)
    for out in (f"{c}", format(c), str(format(c, ""))):
        p = out.split(" ")
        if len(p) != 3 or p[0] + p[1] != c.to_dms_string():
            fail("default format gave %r", out)
        close(float(p[2]), c.elevation, 0, 1e-12, "elevation")
    return True


@check.sub(
    "changed",
    st.tuples(lon_deg(), lat_deg(), fl(-500, 9000), st.lists(st.tuples(st.integers(0, 3), lon_deg(), lat_deg(), fl(-500, 9000)), min_size=1, max_size=4), st.sampled_from(["", "%L %O %E", "%l %o", "%ld%lm%ls%lH%od%om%os%oH"])),
    quick=600,
    rule="more than one part was changed",
)
def changed(case):
    """the text of a coordinate that was changed is the text of a new one with its values"""
    lon, lat, h, steps, spec = case
    c = make((lon, lat, h))
    for what, lon, lat, h in steps:
        format(c, spec)
        c.to_dms_string()
        if what == 0:
            c.longitude = math.radians(lon)
        elif what == 1:
            c.latitude = math.radians(lat)
        elif what == 2:
            c.elevation = h
        else:
            c.coordinate[0], c.coordinate[2] = math.radians(lon), h
        fresh = GeodeticWorldCoordinate([c.longitude, c.latitude, c.elevation])
        if c.to_dms_string() != fresh.to_dms_string() or format(c, spec) != format(fresh, spec):
            fail("%r after a change, a new coordinate with its values gives %r", format(c, spec), format(fresh, spec))
    return len({s[0] for s in steps}) > 1
