"""Random documents that are valid under an XML schema (the part of XSD that the SICD and SIDD schemas use)."""

import os
import re
import xml.etree.ElementTree as ET
from re import _parser as sre

XS = "{http://www.w3.org/2001/XMLSchema}"
TEXT = "abc XYZ 0189-_./<&>\"'é度"


class Context:
    def __init__(self, root, prefixes):
        self.prefixes = prefixes
        self.target = root.get("targetNamespace", "")
        self.qualified = root.get("elementFormDefault") == "qualified"
        self.attr_qualified = root.get("attributeFormDefault") == "qualified"

    def name(self, q):
        p, _, n = q.rpartition(":")
        return self.prefixes.get(p, ""), n


class Schema:
    def __init__(self, path):
        self.files = set()
        self.parts = {}
        self.target = self.load(path)

    def load(self, path, target=None):
        path = os.path.realpath(path)
        if path in self.files:
            return None
        self.files.add(path)
        prefixes, root = {}, None
        for event, x in ET.iterparse(path, ["start-ns", "start"]):
            if event == "start-ns":
                prefixes.setdefault(*x)
            elif root is None:
                root = x
        ctx = Context(root, prefixes)
        if target is not None and not ctx.target:  # an included part takes the name space of the whole
            ctx.target = target
            prefixes.setdefault("", target)
        for e in root:
            kind = e.tag[len(XS) :] if isinstance(e.tag, str) else ""
            if kind in ("import", "include"):
                if e.get("schemaLocation"):
                    self.load(os.path.join(os.path.dirname(path), e.get("schemaLocation")), ctx.target if kind == "include" else None)
            elif e.get("name"):
                self.parts[(kind.replace("complexType", "type").replace("simpleType", "type"), ctx.target, e.get("name"))] = (e, ctx)
        return ctx.target

    def get(self, kind, ctx, q):
        ns, n = ctx.name(q)
        if kind == "type" and ns == XS[1:-1]:
            return n
        return self.parts[(kind, ns, n)]


def from_regex(r, pattern):
    def many(items):
        return "".join(one(*i) for i in items)

    def one(op, av):
        op = str(op)
        if op == "LITERAL":
            return chr(av)
        if op == "ANY":
            return r.choice("ab1")
        if op == "NOT_LITERAL":
            return r.choice([c for c in "abXY12" if c != chr(av)])
        if op == "IN":
            if str(av[0][0]) == "NEGATE":
                return r.choice([c for c in "abXY12 -" if not any(str(o) == "LITERAL" and chr(v) == c for o, v in av[1:])])
            o, v = r.choice(av)
            if str(o) == "RANGE":
                return chr(r.randint(*v))
            return {"CATEGORY_DIGIT": "7", "CATEGORY_SPACE": " ", "CATEGORY_WORD": "w"}.get(str(v)) if str(o) == "CATEGORY" else chr(v)
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            return "".join(many(sub) for _ in range(r.randint(int(lo), min(int(hi), int(lo) + 4))))
        if op == "SUBPATTERN":
            return many(av[3])
        if op == "BRANCH":
            return many(r.choice(av[1]))
        if op == "AT":
            return ""
        raise NotImplementedError(op)

    return many(sre.parse(pattern))


class Maker:
    """r: random source; rich: probability of optional parts; number: source of numbers; word: source of free text"""

    def __init__(self, schema, r, rich=0.4, number=None, word=None):
        self.s, self.r, self.rich = schema, r, rich
        self.number = number or (lambda: r.choice([r.uniform(-1000, 1000), r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20), float(r.randint(0, 500))]))
        self.word = word or (lambda: "".join(r.choice(TEXT) for _ in range(r.randint(1, 12))).strip() or "x")

    def document(self, name):
        return self.element(*self.s.parts[("element", self.s.target, name)], 0)

    def sections(self, name):
        """[(name of a part of the document, maker)] in the order of the schema"""
        e, ctx = self.s.parts[("element", self.s.target, name)]
        out = []

        def scan(node):
            for c in node:
                if c.tag == XS + "element":
                    out.append((c.get("name"), c, ctx, node.tag == XS + "choice"))
                elif isinstance(c.tag, str) and c.tag != XS + "annotation":
                    scan(c)

        scan(e)
        return out

    # ---- elements

    def element(self, e, ctx, depth):
        top = depth == 0
        if e.get("ref"):
            e, ctx = self.s.get("element", ctx, e.get("ref"))
            top = True
        qualified = top or e.get("form", "qualified" if ctx.qualified else "") == "qualified"
        out = ET.Element(f"{{{ctx.target}}}{e.get('name')}" if qualified else e.get("name"))
        if e.get("fixed") is not None:
            out.text = e.get("fixed")
        elif e.get("type"):
            self.type(out, self.s.get("type", ctx, e.get("type")), depth)
        else:
            for c in e:
                if c.tag in (XS + "complexType", XS + "simpleType"):
                    self.type(out, (c, ctx), depth)
        return out

    def type(self, out, t, depth):
        if isinstance(t, str):
            out.text = self.builtin(t, {})
            return
        node, ctx = t
        if node.tag == XS + "simpleType":
            out.text = self.simple(node, ctx)
            return
        self.complex(out, node, ctx, depth)

    def complex(self, out, node, ctx, depth):
        for c in node:
            k = c.tag[len(XS) :] if isinstance(c.tag, str) else ""
            if k in ("sequence", "choice", "all"):
                self.particle(out, c, ctx, depth)
            elif k == "attribute":
                self.attribute(out, c, ctx)
            elif k == "attributeGroup":
                self.attribute_group(out, c, ctx)
            elif k in ("simpleContent", "complexContent"):
                for x in c:
                    if x.tag == XS + "extension":
                        self.type(out, self.s.get("type", ctx, x.get("base")), depth)
                        self.complex(out, x, ctx, depth)
                    elif x.tag == XS + "restriction":
                        base = self.s.get("type", ctx, x.get("base"))
                        if k == "simpleContent":
                            self.type(out, base, depth)
                            out.text = self.simple_restriction(x, ctx)
                        else:
                            self.complex(out, x, ctx, depth)

    def times(self, c, depth):
        lo = int(c.get("minOccurs", 1))
        hi = c.get("maxOccurs", "1")
        hi = lo + 3 if hi == "unbounded" else int(hi)
        hi = min(hi, lo + 3)
        rich = self.rich if depth < 7 else 0.0
        n = lo
        while n < hi and self.r.random() < rich:
            n += 1
        return n

    def particle(self, out, node, ctx, depth):
        kids = [c for c in node if isinstance(c.tag, str) and c.tag != XS + "annotation"]
        for _ in range(self.times(node, depth)):
            for c in [self.r.choice(kids)] if node.tag == XS + "choice" and kids else kids:
                if c.tag == XS + "element":
                    for _ in range(self.times(c, depth)):
                        out.append(self.element(c, ctx, depth + 1))
                elif c.tag in (XS + "sequence", XS + "choice", XS + "all"):
                    self.particle(out, c, ctx, depth)
                elif c.tag == XS + "group":
                    g, gctx = self.s.get("group", ctx, c.get("ref"))
                    self.particle(out, g[0], gctx, depth)

    # ---- attributes

    def attribute(self, out, a, ctx):
        use = a.get("use", "optional")
        if use == "prohibited" or (use == "optional" and self.r.random() >= self.rich):
            return
        top = False
        fixed = a.get("fixed")
        if a.get("ref"):
            ns, n = ctx.name(a.get("ref"))
            if ns == "http://www.w3.org/XML/1998/namespace":
                return
            a, ctx = self.s.get("attribute", ctx, a.get("ref"))
            top = True
        name = a.get("name")
        if top or a.get("form") == "qualified":
            name = f"{{{ctx.target}}}{name}"
        fixed = fixed if fixed is not None else a.get("fixed")
        if fixed is not None:
            v = fixed
        elif a.get("type"):
            t = self.s.get("type", ctx, a.get("type"))
            v = self.builtin(t, {}) if isinstance(t, str) else self.simple(*t)
        else:
            v = next((self.simple(c, ctx) for c in a if c.tag == XS + "simpleType"), self.word())
        out.set(name, v)

    def attribute_group(self, out, g, ctx):
        g, ctx = self.s.get("attributeGroup", ctx, g.get("ref"))
        for c in g:
            if c.tag == XS + "attribute":
                self.attribute(out, c, ctx)
            elif c.tag == XS + "attributeGroup":
                self.attribute_group(out, c, ctx)

    # ---- values

    def simple(self, node, ctx):
        for c in node:
            if c.tag == XS + "restriction":
                return self.simple_restriction(c, ctx)
            if c.tag == XS + "list":
                n = self.r.randint(1, 3)
                return " ".join(self.item(c, "itemType", ctx).replace(" ", "") for _ in range(n))
            if c.tag == XS + "union":
                options = [self.s.get("type", ctx, q) for q in c.get("memberTypes", "").split()] + [(x, ctx) for x in c if x.tag == XS + "simpleType"]
                t = self.r.choice(options)
                return self.builtin(t, {}) if isinstance(t, str) else self.simple(*t)
        return self.word()

    def item(self, c, attr, ctx):
        if c.get(attr):
            t = self.s.get("type", ctx, c.get(attr))
            return self.builtin(t, {}) if isinstance(t, str) else self.simple(*t)
        return next(self.simple(x, ctx) for x in c if x.tag == XS + "simpleType")

    def simple_restriction(self, c, ctx, facets=None):
        f = dict(facets or {})
        enum = [x.get("value") for x in c if x.tag == XS + "enumeration"]
        pats = [x.get("value") for x in c if x.tag == XS + "pattern"]
        for x in c:
            if x.tag in (XS + "minInclusive", XS + "maxInclusive", XS + "minExclusive", XS + "maxExclusive", XS + "maxLength", XS + "minLength"):
                f.setdefault(x.tag[len(XS) :], x.get("value"))
        if enum:
            return self.r.choice(enum)
        if pats:
            return from_regex(self.r, self.r.choice(pats))
        if not c.get("base"):
            return self.simple(next(x for x in c if x.tag == XS + "simpleType"), ctx)
        t = self.s.get("type", ctx, c.get("base"))
        if isinstance(t, str):
            return self.builtin(t, f)
        base = t[0]
        while base.tag == XS + "complexType":  # simple content
            x = base.find(f"{XS}simpleContent/*")
            t = self.s.get("type", t[1], x.get("base"))
            if isinstance(t, str):
                return self.builtin(t, f)
            base = t[0]
        r = base.find(XS + "restriction")
        return self.simple(*t) if r is None else self.simple_restriction(r, t[1], f)

    def builtin(self, t, f):
        r = self.r
        if t in ("double", "float", "decimal"):
            lo, hi = (float(f.get(k, f.get(k2, d))) for k, k2, d in (("minInclusive", "minExclusive", "-inf"), ("maxInclusive", "maxExclusive", "inf")))
            v = self.number()
            if not lo <= v <= hi:
                v = r.uniform(max(lo, -1e6), min(hi, 1e6)) if r.random() < 0.8 else (lo if abs(lo) != float("inf") else hi)
            return f"{v:f}" if t == "decimal" else repr(v)
        if t in ("int", "integer", "long", "short", "nonNegativeInteger", "positiveInteger", "unsignedInt", "unsignedShort", "byte", "unsignedByte", "unsignedLong"):
            small = t in ("byte", "unsignedByte")
            lo = int(f.get("minInclusive", 0 if t.startswith(("nonNeg", "unsigned")) else 1 if t.startswith("pos") else -100))
            hi = int(f.get("maxInclusive", 100 if small else 30000))
            return str(r.randint(lo, hi))
        if t == "boolean":
            return r.choice(["true", "false"])
        if t == "dateTime":
            frac = r.choice(["", ".5", ".123456", ".000001"])
            return f"20{r.randint(10, 30)}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}T{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}{frac}Z"
        if t == "date":
            return f"20{r.randint(10, 30)}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}"
        if t == "gYear":
            return str(r.randint(1990, 2050))
        if t in ("NMTOKEN", "NCName", "Name", "ID", "token", "NMTOKENS"):
            return "".join(r.choice("abcXYZ") for _ in range(r.randint(1, 8)))
        if t == "anyURI":
            return "urn:x:" + "".join(r.choice("abc") for _ in range(3))
        w = self.word()
        if "maxLength" in f:
            w = w[: int(f["maxLength"])].strip() or "x"
        return w
