"""XES documents, independently of the library: a strict reader of what the writer
produced, and a writer of lexical variants of a given abstract log."""
import re
import uuid
import xml.etree.ElementTree as Et
from datetime import datetime, timedelta, timezone

from rv import snap
from rv.base import Violation

DATE = re.compile(r"(\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?\Z", re.ASCII)
FLOAT = re.compile(r"[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\Z", re.ASCII)
INT = re.compile(r"[-+]?\d+\Z", re.ASCII)
UUID = re.compile(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\Z", re.ASCII)
TYPES = ("string", "date", "int", "float", "boolean", "id", "list", "container")


def need(condition, message):
    if not condition:
        raise Violation("the written document is not as the standard demands: " + message)


def date_text(text):
    """(UTC milliseconds, offset minutes) of an xs:dateTime text, or None."""
    m = DATE.match(text)
    if not m:
        return None
    year, month, day, hour, minute, second = (int(g) for g in m.groups()[:6])
    micro = int((m.group(7) or "0").ljust(6, "0")[:6])
    zone = m.group(8)
    offset = 0
    if zone and zone != "Z":
        hours, minutes = int(zone[1:3]), int(zone[4:6])
        if minutes > 59:
            return None
        offset = (hours * 60 + minutes) * (-1 if zone[0] == "-" else 1)
    try:
        value = datetime(year, month, day, hour, minute, second, micro, timezone(timedelta(minutes=offset)))
    except ValueError:
        return None
    return snap.date_value(value)


def tokens(text):
    """Blank-separated keys; a key in apostrophes (the last one before a blank or the end) may contain blanks."""
    out, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
        elif text[i] == "'":
            j = text.index("'", i + 1)
            while j + 1 < len(text) and not text[j + 1].isspace():
                j = text.index("'", j + 1)
            out.append(text[i + 1:j])
            i = j + 1
        else:
            j = i
            while j < len(text) and not text[j].isspace():
                j += 1
            out.append(text[i:j])
            i = j
    return out


def blank(text):
    return text is None or text.strip(" \t\r\n") == ""


def read_attribute(node, known):
    need(node.tag in TYPES, "unknown element <%s>" % node.tag)
    collection = node.tag in ("list", "container")
    names = set(node.attrib)
    need(names == ({"key"} if collection else {"key", "value"}), "attributes of <%s>: %s" % (node.tag, sorted(names)))
    key = node.get("key")
    text = node.get("value")
    need(blank(node.text), "text %r in <%s>" % (node.text, node.tag))
    value = None
    if node.tag == "string":
        value = text
    elif node.tag == "date":
        value = date_text(text)
        need(value is not None, "date %r" % text)
    elif node.tag == "int":
        need(INT.match(text), "int %r" % text)
        value = ("int", int(text))
    elif node.tag == "float":
        need(FLOAT.match(text), "float %r" % text)
        value = repr(float(text))
    elif node.tag == "boolean":
        need(text in ("true", "false"), "boolean %r" % text)
        value = ("bool", text == "true")
    elif node.tag == "id":
        need(UUID.match(text), "id %r" % text)
        value = str(uuid.UUID(text))
    ext = None
    if ":" in key and key[:key.index(":")] in known:
        ext = known[key[:key.index(":")]][1]
    kids = [read_attribute(kid, known) for kid in node]
    for kid in node:
        need(blank(kid.tail), "text %r in <%s>" % (kid.tail, node.tag))
    out = [key, node.tag, value, ext]
    if node.tag == "list":
        out.append(kids)
    elif node.tag == "container":
        out.append(sorted(kids, key=repr))
    else:
        out.append(as_map(kids, "children of " + repr(key)))
    return out


def as_map(items, what):
    keys = [item[0] for item in items]
    need(len(keys) == len(set(keys)), "%s: an attribute occurs twice: %s" % (what, sorted(keys)))
    return {item[0]: item for item in items}


def read_written(data, known):
    """Canonical log of a written document; raises Violation where the document is
    not well-formed or not in the vocabulary and lexical forms of the standard."""
    try:
        root = Et.fromstring(data)
    except Et.ParseError as error:
        raise Violation("the written document is not well-formed: %s" % error)
    need(root.tag == "log", "root <%s>" % root.tag)
    need(root.get("xes.version") == "1.0", "xes.version is %r" % root.get("xes.version"))
    need(root.get("openxes.version"), "openxes.version is %r" % root.get("openxes.version"))
    for name in root.attrib:
        need(name.startswith(("xes.", "openxes.", "xmlns")), "log attribute " + name)
    order = {"extension": 0, "global": 1, "classifier": 2, "trace": 4}
    out = {"extensions": [], "global trace": [], "global event": [], "classifiers": [], "attrs": [], "traces": []}
    last, scopes = 0, set()
    need(blank(root.text), "text %r in <log>" % root.text)
    for node in root:
        rank = order.get(node.tag, 3)
        need(rank >= last, "<%s> out of place" % node.tag)
        last = rank
        need(blank(node.tail), "text %r in <log>" % node.tail)
        if node.tag == "extension":
            need(set(node.attrib) == {"name", "prefix", "uri"} and len(node) == 0, "extension %s" % node.attrib)
            prefix = node.get("prefix")
            need(prefix in known and known[prefix] == (node.get("name"), node.get("uri")), "extension %s" % node.attrib)
            out["extensions"].append(node.get("uri"))
        elif node.tag == "global":
            scope = node.get("scope")
            need(scope in ("trace", "event") and len(node.attrib) == 1, "global %s" % node.attrib)
            need(scope not in scopes, "two globals of scope " + scope)
            scopes.add(scope)
            need(blank(node.text), "text in global")
            for kid in node:
                need(blank(kid.tail), "text in global")
                out["global " + scope].append(read_attribute(kid, known))
        elif node.tag == "classifier":
            need(set(node.attrib) == {"name", "keys"} and len(node) == 0, "classifier %s" % node.attrib)
            out["classifiers"].append([node.get("name"), tokens(node.get("keys"))])
        elif node.tag == "trace":
            need(not node.attrib and blank(node.text), "trace %s %r" % (node.attrib, node.text))
            attrs, events = [], []
            for kid in node:
                need(blank(kid.tail), "text in trace")
                if kid.tag == "event":
                    need(not kid.attrib and blank(kid.text), "event %s %r" % (kid.attrib, kid.text))
                    for item in kid:
                        need(blank(item.tail), "text in event")
                    events.append({"attrs": as_map([read_attribute(a, known) for a in kid], "event")})
                else:
                    need(not events, "trace attribute after an event")
                    attrs.append(read_attribute(kid, known))
            out["traces"].append({"attrs": as_map(attrs, "trace"), "events": events})
        else:
            out["attrs"].append(read_attribute(node, known))
    need(len(out["extensions"]) == len(set(out["extensions"])), "extension twice %s" % out["extensions"])
    out["extensions"].sort()
    out["attrs"] = as_map(out["attrs"], "log")
    return out


# ---- documents with every lexical freedom of XML --------------------------------------

import io  # noqa: E402

BAD_DATES = ["", " ", "yesterday", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00.000+01:00",
             "2020-01-01", "2020-01-01T25:00:00Z", "2020-01-01T00:61:00Z", "20200101T000000Z", "2020-01-01 00:00:00",
             "T12:00:00", "2020-01-01T12:00", "2020-00-10T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-01T00:00:00.Z",
             "2020-01-01T00:00:00.abcZ", "aaaa-bb-ccTdd:ee:ff", "12/31/2020", "1577836800000",
             "2020-01-01T00:00:00+99:00", "2020-01-01T00:00:00+0100", "2020-01-01T00:00:00+01", "2020-01T00:00:00Z"]


class Chunky(io.RawIOBase):
    """A stream that delivers its content in pieces of any size."""

    def __init__(self, data, rng, limit):
        super().__init__()
        self.data, self.pos, self.rng, self.limit = data, 0, rng, limit

    def readable(self):
        return True

    def readinto(self, b):
        if len(b) == 0:
            return 0
        n = min(len(b), len(self.data) - self.pos, self.rng.randint(1, self.limit))
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def chunky(data, rng, limit):
    return Chunky(data, rng, limit)


def date_variant(rng, value):
    """An xs:dateTime text that denotes value (a datetime) to the microsecond."""
    offset = value.utcoffset()
    if offset is not None:
        value = value.replace(tzinfo=None) - timedelta(seconds=offset.seconds % 60)
    text = "%04d-%02d-%02dT%02d:%02d:%02d" % (value.year, value.month, value.day, value.hour, value.minute,
                                              value.second)
    if value.microsecond or rng.random() < 0.3:
        digits = "%06d" % value.microsecond
        style = rng.random()
        if style < 0.4:
            digits = digits.rstrip("0") or "0"
        elif style < 0.7:
            digits += "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 9)))
        elif digits.endswith("000"):
            digits = digits[:3]
        text += "." + digits
    if offset is None:
        return text + rng.choice(["", "Z", "+00:00", "-00:00"])
    minutes = offset.days * 1440 + offset.seconds // 60
    if minutes == 0:
        return text + rng.choice(["", "Z", "Z", "+00:00", "-00:00"])
    return text + "%s%02d:%02d" % ("-" if minutes < 0 else "+", abs(minutes) // 60, abs(minutes) % 60)


def float_variant(rng, value):
    if value != value:
        return "NaN"
    if value in (float("inf"), float("-inf")):
        return "INF" if value > 0 else "-INF"
    text = repr(value)
    r = rng.random()
    if r < 0.2:
        text = text.replace("e", "E")
    elif r < 0.3 and value == int(value) and abs(value) < 1e15 and "e" not in text:
        text = "%d." % value if value or text[0] != "-" else "-0."
    elif r < 0.4 and value > 0:
        text = "+" + text
    elif r < 0.5 and text.startswith("0."):
        text = text[1:]
    return text


def int_variant(rng, value):
    text = str(value)
    r = rng.random()
    if r < 0.1 and value >= 0:
        return "+" + text
    if r < 0.2:
        return ("-" if value < 0 else "") + "00" + text.lstrip("-")
    return text


BAD_URIS = ["http://[%d", "http://%d]", "//[::%d", "http://e\u2100/%d", "", "[%d", "http://[%d]/"]
BAD_URIS = [u if "%" in u else u + "%.0s" for u in BAD_URIS]        # texts that are no URIs


class Doc:
    """Writes one document for an abstract log, choosing the layout at random."""

    def __init__(self, rng, spec, known, encoding=None):
        self.rng = rng
        self.spec = spec
        self.known = known
        self.encoding = encoding or rng.choice(["utf-8"] * 4 + ["utf-8-sig", "utf-16", "utf-16-le", "utf-16-be",
                                                                "iso-8859-1", "us-ascii", "windows-1252"])
        self.codec = {"utf-16-le": "utf-16-le", "utf-16-be": "utf-16-be"}.get(self.encoding, self.encoding)
        self.noise = rng.choice([0, 0.05, 0.3])
        self.refs = rng.choice([0, 0.02, 0.3])
        self.cases = rng.choice([0, 0, 0.3])
        self.spacy = rng.choice([0, 0.1, 0.5])
        self.doctype = rng.random() < 0.15
        self.entities = {}
        self.out = []
        self.bad_dates = 0
        self.unknown_extensions = 0
        self.other_prefixes = 0
        self.missing = 0

    def encodable(self, c):
        try:
            c.encode("ascii" if self.encoding == "us-ascii" else self.codec)
            return True
        except UnicodeEncodeError:
            return False

    def space(self, least=0):
        rng = self.rng
        if rng.random() >= self.spacy:
            return " " * least
        return "".join(rng.choice(" \t\n\r") for _ in range(rng.randint(max(1, least), 4)))

    def quote(self, text):
        rng = self.rng
        q = rng.choice("\"\"'")
        if self.doctype and self.entities and rng.random() < 0.1:
            pass
        out = [q]
        for name, value in self.entities.items():
            if value == text and rng.random() < 0.7:
                return q + "&" + name + ";" + q
        for c in text:
            n = ord(c)
            if c in "\t\n\r" or rng.random() < self.refs or not self.encodable(c):
                out.append(rng.choice(["&#%d;", "&#x%x;", "&#x%X;", "&#0%d;"]) % n)
            elif c == "<":
                out.append("&lt;")
            elif c == "&":
                out.append("&amp;")
            elif c == q:
                out.append("&quot;" if c == '"' else "&apos;")
            elif c == ">" and rng.random() < 0.5:
                out.append("&gt;")
            else:
                out.append(c)
        out.append(q)
        return "".join(out)

    def tag(self, name):
        rng = self.rng
        if rng.random() < self.cases:
            return rng.choice([name.upper(), name.capitalize(), name[0] + name[1:].upper()])
        return name

    def filler(self):
        """Comments, processing instructions and white space, which denote nothing."""
        rng = self.rng
        out = [self.space()]
        if rng.random() < self.noise:
            out.append(rng.choice(["<!-- a comment -->", "<!---->", "<!-- <string key=\"x\" value=\"y\"/> -->",
                                   "<?pi some data?>", "<!-- </log> & < -->", "<![CDATA[ ]]>", "<?xml-x <event> ?>",
                                   "\n\n", "<!--\n-->"]))
            out.append(self.space())
        return "".join(out)

    def element(self, name, attributes, body=()):
        """attributes: list of (name, text); body: list of markup."""
        rng = self.rng
        tag = self.tag(name)
        attributes = list(attributes)
        if self.spacy or rng.random() < 0.3:
            rng.shuffle(attributes)
        head = "<" + tag
        for key, value in attributes:
            eq = "=" if rng.random() >= self.spacy / 3 else " = "
            head += (self.space(1) or " ") + key + eq + self.quote(value)
        head += self.space()
        if not body and rng.random() < 0.7:
            return head + "/>"
        out = [head, ">", self.filler()]
        for part in body:
            out.append(part)
            out.append(self.filler())
        out.append("</" + tag + self.space() + ">")
        return "".join(out)

    def attribute(self, a, missing_key=False):
        rng = self.rng
        attributes = [] if missing_key else [("key", a.key)]
        if a.kind == "string":
            if not (a.value == "" and rng.random() < 0.5):
                attributes.append(("value", a.value))
            else:
                self.missing += 1
        elif a.kind == "date":
            attributes.append(("value", date_variant(rng, a.value)))
        elif a.kind == "int":
            attributes.append(("value", int_variant(rng, a.value)))
        elif a.kind == "float":
            attributes.append(("value", float_variant(rng, a.value)))
        elif a.kind == "boolean":
            attributes.append(("value", rng.choice(["true", "true", "TRUE", "True", "1"] if a.value else
                                                   ["false", "false", "FALSE", "False", "0"])))
        elif a.kind == "id":
            text = str(a.value)
            attributes.append(("value", rng.choice([text, text.upper()])))
        elif rng.random() < 0.1:
            attributes.append(("value", "ignored"))
        if rng.random() < self.noise / 4:
            attributes.append(("other", "extra"))
        body = self.children(a.kids)
        if a.kind in ("list", "container") and body and rng.random() < 0.15:
            body = [self.element("values", [], body)]
        return self.element(a.kind, attributes, body)

    def children(self, attrs):
        """Markup of sibling attributes, with unreadable dates strewn in."""
        rng = self.rng
        out = []
        for a in attrs:
            if rng.random() < self.noise / 3:
                out.append(self.bad_date(a.key))
            if a.key == "UNKNOWN" and rng.random() < 0.7:
                self.missing += 1
                out.append(self.attribute(a, missing_key=True))
            else:
                out.append(self.attribute(a))
        if rng.random() < self.noise / 3:
            out.append(self.bad_date("late date"))
        return out

    def bad_date(self, key):
        rng = self.rng
        self.bad_dates += 1
        attributes = [("key", rng.choice([key, "time:timestamp", "bad", "another date"]))]
        if rng.random() < 0.9:
            attributes.append(("value", rng.choice(BAD_DATES)))
        body = []
        if rng.random() < 0.4:
            body = [self.element("string", [("key", rng.choice(["nested", "concept:name", key])), ("value", "lost")])]
            if rng.random() < 0.4:
                body.append(self.element("date", [("key", "deeper"), ("value", rng.choice(BAD_DATES))], body))
        return self.element("date", attributes, body)

    def log_body(self):
        rng, spec, known = self.rng, self.spec, self.known
        extensions = []
        for prefix in spec.extensions:
            name, uri = known[prefix]
            style = rng.random()
            attributes = [("name", name), ("prefix", prefix), ("uri", uri)]
            if style < 0.1:
                attributes = [("name", name), ("prefix", prefix)]
                if rng.random() < 0.3:
                    attributes.insert(rng.randint(1, 2), ("uri", rng.choice(BAD_URIS) % rng.randint(0, 999)))
            elif style < 0.2:
                attributes = [("uri", uri)]
            elif style < 0.27:                  # the URI says which extension is meant
                others = [p for p in list(known) + ["foreign", ""] if p != prefix and p not in spec.prefixes()]
                attributes = [("name", rng.choice([name, "Other"])), ("prefix", rng.choice(others)), ("uri", uri)]
                self.other_prefixes += 1
            extensions.append(self.element("extension", attributes))
            if rng.random() < 0.1:
                extensions.append(self.element("extension", attributes))
        if rng.random() < max(self.noise, 0.1):
            self.unknown_extensions += 1
            n = rng.randint(0, 999)
            attributes = [("name", "Nobody knows"), ("uri", "http://example.org/unknown/%d.xesext" % n)]
            if rng.random() < 0.2:
                attributes = [("name", "Nobody knows"), ("prefix", "nobody%d" % n)][:rng.randint(1, 2)]
            elif rng.random() < 0.6:
                attributes.append(("prefix", "nobody%d" % n))
            if len(attributes) > 1 and attributes[1][0] == "uri" and rng.random() < 0.3:
                attributes[1] = ("uri", rng.choice(BAD_URIS) % n)
            extensions.insert(rng.randint(0, len(extensions)), self.element("extension", attributes))
        parts = []
        for scope, attrs in (("trace", spec.gt), ("event", spec.ge)):
            cuts = [attrs]
            if len(attrs) > 1 and rng.random() < 0.3:
                k = rng.randint(1, len(attrs) - 1)
                cuts = [attrs[:k], attrs[k:]]
            for cut in cuts:
                if cut or rng.random() < 0.1:
                    name = scope if rng.random() >= self.cases else rng.choice([scope.upper(), scope.capitalize()])
                    parts.append(("global " + scope, self.element("global", [("scope", name)], self.children(cut))))
        classifiers = []
        for name, keys in spec.classifiers:
            text = self.space() + (self.space(1) or " ").join(
                "'%s'" % k if any(c.isspace() for c in k) or rng.random() < 0.1 else k for k in keys) + self.space()
            text = text.replace("\t", " ").replace("\r", " ").replace("\n", " ") if not any(
                c in k for k in keys for c in "\t\r\n") else " ".join(
                "'%s'" % k if any(c.isspace() for c in k) else k for k in keys)
            attributes = [("name", name), ("keys", text)]
            if rng.random() < 0.1:
                attributes.append(("scope", "event"))
            classifiers.append(self.element("classifier", attributes))
        attrs = self.children(spec.attrs)
        traces = []
        for tattrs, events in spec.traces:
            body = self.children(tattrs)
            marks = [self.element("event", [], self.children(e)) for e in events]
            if rng.random() < 0.2:
                body = interleave(rng, body, marks)
            else:
                body = body + marks
            traces.append(self.element("trace", [], body))
        headers = [p for _, p in parts]
        if rng.random() < 0.2:
            body = extensions
            for group in (headers, classifiers, attrs, traces):
                body = interleave(rng, body, group)
            return body
        return extensions + headers + classifiers + attrs + traces

    def document(self):
        """(bytes, text) of the document; also fills spec.features."""
        rng = self.rng
        if self.doctype:
            self.entities = {"co": "Company & Co <ltd>", "nm": "concept:name", "e": "", "tr": "complete"}
        attributes = [("xmlns", "http://www.xes-standard.org/")] if rng.random() < 0.3 else []
        for name, values in (("xes.version", ["1.0", "2.0", "1849.2016"]), ("xes.features", ["", "nested-attributes"]),
                             ("openxes.version", ["1.0RC7", "1.0RC5"]), ("xes.creator", ["me & you"]),
                             ("openxes.note", ["x<y"]), ("xes.Creator2", ["Me"]), ("openxes.", ["1"]),
                             ("xes.xmlns", ["2"]), ("openxes.Build-7.B", ["a b", "0"]), ("xesx", ["no"]), ("other", ["no feature"]), ("myxes.version", ["3"])):
            if rng.random() < 0.6:
                value = rng.choice(values)
                attributes.append((name, value))
                if name.startswith(("xes.", "openxes.")):
                    self.spec.features[name] = value
        return self.finish(self.element("log", attributes, self.log_body()), ["log", "LOG", "x"])

    def finish(self, root, names):
        rng = self.rng
        declared = {"utf-8-sig": "utf-8", "utf-16-le": "utf-16", "utf-16-be": "utf-16"}.get(self.encoding, self.encoding)
        prolog = ""
        plain_utf8 = self.encoding in ("utf-8", "utf-8-sig")
        if not plain_utf8 or rng.random() < 0.8:
            q = rng.choice("\"'")
            version = "version=%s1.0%s" % (q, q)
            enc = " encoding=%s%s%s" % (q, rng.choice([declared, declared.upper()]), q)
            if plain_utf8 and rng.random() < 0.2:
                enc = ""
            prolog = "<?xml %s%s%s?>" % (version, enc, rng.choice(["", " standalone='yes'", " "]))
        if self.doctype:
            prolog += "\n<!DOCTYPE %s [\n" % rng.choice(names)
            prolog += "".join('<!ENTITY %s "%s">\n' % (n, v.replace("&", "&#38;#38;").replace("<", "&#38;#60;"))
                              for n, v in self.entities.items())
            prolog += "<!-- <!ENTITY co 'wrong'> -->]>"
        text = prolog + (self.filler().replace("<![CDATA[ ]]>", "") if prolog else "") + root
        text += self.filler().replace("<![CDATA[ ]]>", "")
        codec = "ascii" if self.encoding == "us-ascii" else self.codec
        data = text.encode(codec)
        if self.encoding == "utf-16-le":
            data = b"\xff\xfe" + data
        elif self.encoding == "utf-16-be":
            data = b"\xfe\xff" + data
        return data, text

    def content(self, text, pad=True):
        """Character data that denotes text, with white space around it."""
        rng = self.rng
        out = []
        for name, value in self.entities.items():
            if value == text and text and rng.random() < 0.7:
                out = ["&" + name + ";"]
                text = ""
        i = 0
        while i < len(text):
            c = text[i]
            if rng.random() < self.noise / 8:
                piece = text[i:i + rng.randint(1, 9)]
                if "]]>" not in piece and "\r" not in piece and not piece.endswith("]") \
                        and all(self.encodable(x) for x in piece):
                    out.append("<![CDATA[" + piece + "]]>")
                    i += len(piece)
                    continue
            if rng.random() < self.noise / 20:
                out.append(rng.choice(["<!-- < & > -->", "<?pi x?>"]))
            n = ord(c)
            if c == "\r" or rng.random() < self.refs or not self.encodable(c):
                out.append(rng.choice(["&#%d;", "&#x%x;"]) % n)
            elif c in "<&>":
                out.append({"<": "&lt;", "&": "&amp;", ">": "&gt;"}[c])
            else:
                out.append(c)
            i += 1
        if pad and rng.random() < max(self.spacy, 0.2):
            return rng.choice([" ", "\n\t\t", "\r\n  ", "\t"]) + "".join(out) + rng.choice(["", " ", "\n\t", "  \n"])
        return "".join(out)

    def text_element(self, name, attributes, text):
        """An element whose content is text."""
        rng = self.rng
        attributes = list(attributes)
        if self.spacy:
            rng.shuffle(attributes)
        head = "<" + name
        for key, value in attributes:
            head += (self.space(1) or " ") + key + "=" + self.quote(value)
        head += self.space()
        if text == "" and rng.random() < 0.5:
            return head + "/>"
        return head + ">" + self.content(text) + "</" + name + self.space() + ">"


def interleave(rng, a, b):
    """A random merge of two lists that keeps the order of each."""
    out, i, j = [], 0, 0
    while i < len(a) or j < len(b):
        if j == len(b) or (i < len(a) and rng.random() < len(a) / (len(a) + len(b))):
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    return out


def key_order(x):
    """The order of map keys at every level of a canonical form."""
    if isinstance(x, dict):
        return [(k, key_order(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [key_order(v) for v in x]
    return None
