"""Abstract logs (plain data), their construction as library objects through the
public API, and their expected canonical form (the format of snap.py)."""
import re
import struct
import unicodedata
import uuid
from datetime import datetime, timedelta, timezone
from urllib.parse import urlparse, urlsplit

from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.id.XID import XID

from rv import snap

STD = {
    "concept": ("Concept", "http://www.xes-standard.org/concept.xesext"),
    "cost": ("Cost", "http://www.xes-standard.org/cost.xesext"),
    "identity": ("Identity", "http://www.xes-standard.org/identity.xesext"),
    "lifecycle": ("Lifecycle", "http://www.xes-standard.org/lifecycle.xesext"),
    "micro": ("Micro", "http://www.xes-standard.org/micro.xesext"),
    "org": ("Organizational", "http://www.xes-standard.org/org.xesext"),
    "semantic": ("Semantic", "http://www.xes-standard.org/semantic.xesext"),
    "time": ("Time", "http://www.xes-standard.org/time.xesext"),
}
CUSTOM = {
    "rvcust": ("Custom", "http://example.org/rv/custom.xesext"),
    "rv-two": ("Second & <other>", "http://example.org/rv/two.xesext?a=1&b=2"),
    "RVcust": ("custom", "http://example.org/rv/Custom.xesext"),
    "rvcust2": ("Custom ", "http://example.org/rv/custom.xesext/"),
    "rvünï": ("Ünïcode \"quoted\"", "urn:rv:unicode:ext"),
}
STD_KEYS = {
    "concept:name": "string", "concept:instance": "string", "org:resource": "string", "org:role": "string",
    "org:group": "string", "lifecycle:model": "string", "lifecycle:transition": "string",
    "time:timestamp": "date", "semantic:modelReference": "string", "identity:id": "id",
    "micro:level": "int", "micro:parentId": "id", "micro:length": "int", "cost:total": "float",
    "cost:currency": "string", "cost:amount": "float", "cost:driver": "string", "cost:type": "string",
}
KIND_NAMES = ["string", "date", "int", "float", "boolean", "id", "list", "container"]


def register_custom():
    """Registers the custom extensions once per process; later calls do nothing."""
    manager = XExtensionManager()
    for prefix, (name, uri) in CUSTOM.items():
        if manager.get_by_prefix(prefix) is None:
            manager.register(XExtension(name, prefix, urlparse(uri)))


def extension_of_key(key, known):
    """URI of the extension whose prefix starts the key, or None."""
    if ":" in key:
        prefix = key[:key.index(":")]
        if prefix in known:
            return known[prefix][1]
    return None


class A:
    """An abstract attribute."""
    __slots__ = ("key", "kind", "value", "ext", "kids")

    def __init__(self, key, kind, value, ext=None, kids=()):
        self.key = key
        self.kind = kind
        self.value = value
        self.ext = ext
        self.kids = list(kids)

    def __repr__(self):
        return "A(%r,%r,%r,%r)" % (self.key, self.kind, self.value, self.kids)


READY = [("Event Name", ["concept:name"]), ("Resource", ["org:resource"]), ("Lifecycle transition", ["lifecycle:transition"])]


class Joined(list):
    """The keys of a conjunction of classifiers, with its members."""
    parts = ()


class L:
    """An abstract log."""

    def __init__(self):
        self.extensions = []      # prefixes
        self.gt = []
        self.ge = []
        self.classifiers = []     # (name, [keys])
        self.attrs = []
        self.traces = []          # (attrs, [attrs of event])
        self.features = {}

    def events(self):
        return sum(len(events) for _, events in self.traces)

    def all_attribute_lists(self):
        yield self.gt
        yield self.ge
        yield self.attrs
        for attrs, events in self.traces:
            yield attrs
            for event in events:
                yield event

    def prefixes(self):
        """The texts before the first colon of all keys."""
        out = set()
        stack = [a for attrs in self.all_attribute_lists() for a in attrs]
        while stack:
            a = stack.pop()
            if ":" in a.key:
                out.add(a.key[:a.key.index(":")])
            stack.extend(a.kids)
        return out

    def count_attributes(self):
        n = 0
        stack = [a for attrs in self.all_attribute_lists() for a in attrs]
        while stack:
            a = stack.pop()
            n += 1
            stack.extend(a.kids)
        return n

    def __repr__(self):
        return "L(ext=%r, gt=%r, ge=%r, cl=%r, attrs=%r, traces=%r)" % (
            self.extensions, self.gt, self.ge, self.classifiers, self.attrs, self.traces)


WORDS = ["a", "b", "A", "register request", "examine thoroughly", "decide", "pay compensation", "Sara",
         "Mike", "x", "1", "-1", "0", "true", "false", "None", "none", "UNKNOWN", "complete", "start", "0.5",
         "2020-01-01T00:00:00.000+00:00", "null", "nan", "N", "key", "value", "log", "trace", "event"]
CHUNKS = ["<", ">", "&", '"', "'", "&amp;", "&lt;", "&#10;", "&#x9;", "]]>", "<![CDATA[", "<!--", "-->", "?>",
          "<a/>", "%", "%s", "{}", "\\", "\\n", "/", ";", ",", "=", "&&", "|", "#", "@", "(", ")", "[", "]",
          "\t", "\n", "\r", "\r\n", " ", "  ", "   ", "\u00a0", "\u0085", "\u2028", "\u2029", "\u3000", "\u200b",
          "\u200e", "\u202e", "\ufeff", "\u007f", "\u0080", "\u009f", "\u00e9", "e\u0301", "\u00df", "\u0130",
          "\u0131", "\u01c5", "\u4e2d\u6587", "\u0645\u0631", "\u05e9", "\U0001f600", "\U0010ffff", "\U00010000",
          "\ud7ff", "\ue000", "\ufffd", "\ufdd0", "0", "9", "z", "Z", "abc", ":", "::", "concept:name", "_", "-",
          ".", "..", "$", "^", "*", "+", "?", "~", "`", "!"]


def text(rng, empty=True, plain=None):
    """Any text XML can carry."""
    r = rng.random()
    if plain or (plain is None and r < 0.45):
        return rng.choice(WORDS)
    if empty and r < 0.5:
        return ""
    if r < 0.53:
        return rng.choice(CHUNKS) * rng.choice([50, 700, 3000]) if rng.random() < 0.2 else rng.choice(CHUNKS) * 7
    out = []
    for _ in range(rng.randint(1, 8)):
        if rng.random() < 0.5:
            out.append(rng.choice(CHUNKS))
        elif rng.random() < 0.7:
            out.append(rng.choice(WORDS))
        else:
            out.append(any_char(rng))
    return "".join(out)


def long_text(rng):
    """A text longer than the buffers of readers and writers."""
    size = rng.choice([8191, 16385, 66000, 66000, 140000, 1100000])
    chunk = "".join(rng.choice(CHUNKS + WORDS) for _ in range(rng.randint(3, 40))) + any_char(rng)
    return (chunk * (size // len(chunk) + 1))[:size] + "end"


def uri(rng, t):
    """A URI in one of the two documented types."""
    return urlsplit(t) if rng.random() < 0.25 else urlparse(t)


def alike(rng, n, most=70000):
    """Long texts that differ in one place only."""
    size = rng.choice([s for s in (33, 65, 129, 257, 1025, 4097, 66000) if s <= most])
    chunk = "".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5))) or "x"
    base = (chunk * (size // len(chunk) + 1))[:size]
    place = rng.choice([0, size // 2, size - 1, size, rng.randint(0, size)])
    return [base[:place] + chr(97 + k % 26) + chr(97 + k // 26) + base[place:] for k in range(n)]


def any_char(rng):
    while True:
        ranges = rng.choice([(0x20, 0x7e), (0xa0, 0x24f), (0x370, 0x5ff), (0x600, 0xd7ff), (0xe000, 0xfffd),
                             (0x10000, 0x10ffff)])
        return chr(rng.randint(*ranges))


def key_text(rng, nasty=0.2):
    if rng.random() < nasty:
        t = text(rng, empty=False, plain=False)[:60]
        return t or "k"
    return rng.choice("abcdefghijk") + (str(rng.randint(0, 30)) if rng.random() < 0.6 else "")


def twin(rng, t):
    """A text that a careless comparison takes for the given one."""
    r = rng.random()
    if r < 0.3:
        out = rng.choice([t.upper(), t.lower(), t.capitalize(), t.swapcase()])
    elif r < 0.5:
        out = rng.choice([t + " ", " " + t, t + "\t", t + "\u00a0", t.strip()])
    elif r < 0.7:
        out = rng.choice([t + "0", t + "s", t[:-1], t[1:], t + t, t + ":"])
    elif r < 0.85:
        out = rng.choice([unicodedata.normalize(f, t) for f in ("NFC", "NFD", "NFKC", "NFKD")])
    else:
        out = rng.choice([t.replace(":", "."), t.replace(":", "::"), t.replace(" ", "  "), t.replace("-", "_"), ":" + t])
    return out if out else t


def name_text(rng, nasty=0.3):
    """A non-blank text without outer white space, leading apostrophes or apostrophes before white space."""
    if rng.random() < 0.04:
        return rng.choice(["customer's name", "o'clock", "a b'", "it's", "x 'y z", "e'", "l'état c'est moi"])
    t = (text(rng, empty=False, plain=False)[:40] if rng.random() < nasty else rng.choice(WORDS))
    t = re.sub(r"'+(?=\s)", "", t.strip()).lstrip("'").strip()
    t = re.sub(r"'+(?=\s)", "", t)
    return t or "name%d" % rng.randint(0, 99)


ZONES = ["Europe/Amsterdam", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Chatham",
         "America/St_Johns", "Asia/Kathmandu", "UTC", "Pacific/Kiritimati", "Africa/Casablanca", "Europe/Dublin",
         "Pacific/Marquesas"]


def zone(rng, name):
    from zoneinfo import ZoneInfo
    return ZoneInfo(name)


CHANGES = {}


def change(rng, name):
    """A UTC instant at which the offset of a named zone changes, or None."""
    year = rng.randint(1975, 2060)
    if (name, year) not in CHANGES:
        info, found = zone(rng, name), []
        at = datetime(year, 1, 1, tzinfo=timezone.utc)
        for _ in range(365):
            low, high = at, at + timedelta(days=1)
            if low.astimezone(info).utcoffset() != high.astimezone(info).utcoffset():
                while high - low > timedelta(minutes=1):
                    middle = low + timedelta(minutes=(high - low) // timedelta(minutes=2))
                    if middle.astimezone(info).utcoffset() == low.astimezone(info).utcoffset():
                        low = middle
                    else:
                        high = middle
                found.append(high)
            at += timedelta(days=1)
        CHANGES[name, year] = found
    return rng.choice(CHANGES[name, year]) if CHANGES[name, year] else None


def naive(rng, lo=1, hi=9999):
    r = rng.random()
    if r < 0.5:
        year = rng.randint(max(lo, 1950), min(hi, 2060))
    elif r < 0.8:
        year = rng.randint(lo, hi)
    else:
        year = rng.choice([y for y in (1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1883, 1899, 1900, 1969, 1970, 1971,
                                       2000, 2024, 2037, 2038, 2039, 2100, 9998, 9999) if lo <= y <= hi])
    month = rng.randint(1, 12)
    day = rng.randint(1, 28) if rng.random() < 0.8 else last_day(year, month)
    if rng.random() < 0.2:
        h, m, s = rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1)])
    else:
        h, m, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
    us = rng.choice([0, 1, 999, 1000, 1001, 7000, 10000, 99999, 100000, 123000, 123456, 500000, 999000, 999499,
                     999500, 999999, rng.randint(0, 999) * 1000, rng.randint(0, 999999)])
    return datetime(year, month, day, h, m, s, us)


def last_day(year, month):
    if month == 2:
        return 29 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 28
    return 30 if month in (4, 6, 9, 11) else 31


def fixed_offset(rng):
    return rng.choice([0, 0, 60, 120, -60, -300, 330, 345, -210, 1, -1, 59, -59, 30, -30, 720, 840, -720, 13 * 60,
                       1439, -1439, rng.randint(-1439, 1439), rng.randint(-14, 14) * 60, rng.randint(-12, 14) * 60 + 30])


def stamp(rng, style=None):
    """A datetime: naive, fixed offset or named zone; old local mean times have seconds in their offset."""
    style = style or rng.choice(["naive", "naive", "fixed", "fixed", "fixed", "fixed", "fixed", "utc", "utc", "named", "named", "mean"])
    if style == "mean":
        if rng.random() < 0.5:
            return naive(rng, 2, 9998).replace(tzinfo=timezone(timedelta(seconds=rng.randint(-50000, 50000))))
        value = naive(rng)
        return value.replace(year=rng.randint(1700, 1937), day=min(value.day, 28), tzinfo=zone(rng, rng.choice(ZONES)),
                             fold=rng.randint(0, 1))
    if style == "naive":
        return naive(rng)
    if style == "utc":
        return naive(rng).replace(tzinfo=timezone.utc)
    if style == "named":
        for _ in range(20):
            name = rng.choice(ZONES)
            value = naive(rng, 1975, 2060).replace(tzinfo=zone(rng, name), fold=rng.randint(0, 1))
            at = change(rng, name) if rng.random() < 0.3 else None
            if at is not None:          # hours that occur twice or never
                value = (at + timedelta(milliseconds=rng.randint(-7200000, 7200000))).astimezone(value.tzinfo)
                if rng.random() < 0.5:
                    value = (value + timedelta(minutes=rng.choice([-60, -30, 30, 60]))).replace(fold=rng.randint(0, 1))
            offset = value.utcoffset()
            if offset.seconds % 60 == 0 and offset.microseconds == 0:
                return value
        return naive(rng).replace(tzinfo=timezone.utc)
    return naive(rng).replace(tzinfo=timezone(timedelta(minutes=fixed_offset(rng))))


CODECS = ["latin-1", "cp1252", "ascii", "utf-16", "gbk", "koi8-r", "euc-jp", "utf-8-sig", "iso-8859-15", "big5"]


def integer(rng):
    r = rng.random()
    if r < 0.5:
        return rng.randint(-100, 100)
    if r < 0.8:
        return rng.choice([0, 1, -1, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63,
                           -2**63, -2**63 - 1, 2**64, 10**18, 10**19 + 7])
    if r < 0.97:
        return rng.randint(-10**25, 10**25)
    return rng.choice([-1, 1]) * rng.randint(10**400, 10**600)


def real(rng, finite=False):
    r = rng.random()
    if r < 0.3:
        return round(rng.uniform(-1000, 1000), rng.randint(0, 4))
    if r < 0.5:
        value = rng.choice([0.0, -0.0, 1.0, 0.1, 1e-5, 1e-7, 1e15, 1e16, 1e17, 1e22, 1e23, 1.7976931348623157e308,
                            2.2250738585072014e-308, 5e-324, 1 / 3, 123456789.123456789, 100.0, 1e100,
                            -1.5, float("inf"), float("-inf"), float("nan"), 9007199254740993.0])
    else:
        value = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
    if finite and (value != value or value in (float("inf"), float("-inf"))):
        return 2.5
    return value


def uid(rng):
    r = rng.random()
    if r < 0.05:
        return uuid.UUID(int=rng.choice([0, 1, 2**128 - 1, 0xabcdef]))
    return uuid.UUID(int=rng.getrandbits(128))


HUGE = ["traces", "events", "attributes", "children", "globals", "texts", "classifiers"]


class Gen:
    """Random abstract logs.

    opts: finite (no nan/inf), nasty (share of hostile texts), dates (style of every
    timestamp or None), kinds, depth, lists_dup (duplicate keys in lists)."""

    def __init__(self, rng, known=None, **opts):
        self.rng = rng
        self.known = known if known is not None else dict(STD, **CUSTOM)
        self.o = dict(finite=False, nasty=0.2, dates=None, kinds=KIND_NAMES, depth=3, lists_dup=True,
                      std_typed=False, long=0.0)
        self.o.update(opts)
        self.recent = []

    def key(self):
        rng = self.rng
        if self.recent and rng.random() < 0.04 + self.o["nasty"] / 10:
            return twin(rng, rng.choice(self.recent))
        key = self.new_key()
        if len(self.recent) < 12:
            self.recent.append(key)
        else:
            self.recent[rng.randrange(12)] = key
        return key

    def new_key(self):
        rng = self.rng
        r = rng.random()
        if r > 0.997:
            return ""
        if r < 0.25:
            return rng.choice(list(STD_KEYS))
        if r < 0.4:
            return rng.choice(list(self.known)) + ":" + key_text(rng, self.o["nasty"] / 2)
        if r < 0.47:
            return rng.choice(["other:", "Concept:", "conceptx:", "concept", "concept: x", ":", ":concept:name",
                               " concept:name", "time", "xes:", "rvcus:", "rv:rvcust:"]) + key_text(rng, 0)
        return key_text(rng, self.o["nasty"])

    def value(self, kind):
        rng = self.rng
        if kind == "string":
            if self.o["long"] and rng.random() < self.o["long"]:
                return long_text(rng)
            if self.o["nasty"] == 0:
                return rng.choice(WORDS)
            return text(rng) if rng.random() < 0.5 + self.o["nasty"] else rng.choice(WORDS)
        if kind == "date":
            return stamp(rng, self.o["dates"])
        if kind == "int":
            return integer(rng)
        if kind == "float":
            return real(rng, self.o["finite"])
        if kind == "boolean":
            return rng.random() < 0.5
        if kind == "id":
            return uid(rng)
        return None

    def attribute(self, depth=None, key=None, kind=None):
        rng = self.rng
        if depth is None:
            depth = self.o["depth"]
        key = self.key() if key is None else key
        if kind is None:
            if key in STD_KEYS and (self.o["std_typed"] or rng.random() < 0.9) and STD_KEYS[key] in self.o["kinds"]:
                kind = STD_KEYS[key]
            else:
                kind = rng.choice(self.o["kinds"])
        a = A(key, kind, self.value(kind), extension_of_key(key, self.known))
        if kind in ("list", "container"):
            if depth > 0:
                n = rng.choice([0, 1, 1, 2, 2, 3, 4])
                a.kids = self.attributes(n, depth - 1, unique=not (kind == "list" and self.o["lists_dup"]))
        elif depth > 0 and rng.random() < 0.25:
            a.kids = self.attributes(rng.choice([1, 1, 2, 3]), depth - 1)
        return a

    def attributes(self, n, depth=None, unique=True):
        out, keys = [], set()
        for _ in range(n):
            a = self.attribute(depth)
            if unique and a.key in keys:
                continue
            if not unique and out and self.rng.random() < 0.3:
                a = self.attribute(depth, key=self.rng.choice(out).key)
            keys.add(a.key)
            out.append(a)
        return out

    def event(self, n=None):
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, 4, 6]) if n is None else n
        out = self.attributes(n)
        return self.with_standard(out, [("concept:name", 0.7), ("time:timestamp", 0.5), ("org:resource", 0.4),
                                        ("lifecycle:transition", 0.4), ("identity:id", 0.1), ("cost:total", 0.1)])

    def with_standard(self, attrs, chances):
        rng = self.rng
        keys = {a.key for a in attrs}
        for key, p in chances:
            if key not in keys and rng.random() < p and STD_KEYS[key] in self.o["kinds"]:
                a = self.attribute(min(1, self.o["depth"]), key, STD_KEYS[key])
                if a.kind == "string" and rng.random() < 0.7:
                    a.value = rng.choice(WORDS)
                attrs.insert(rng.randint(0, len(attrs)), a)
        return attrs

    def trace(self, events):
        rng = self.rng
        attrs = self.with_standard(self.attributes(rng.choice([0, 0, 1, 2, 3])), [("concept:name", 0.7)])
        return (attrs, [self.event() for _ in range(events)])

    def classifier(self, depth=1):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            return rng.choice(READY)
        if r < 0.25 and depth:
            parts = [self.classifier(depth - 1) for _ in range(rng.randint(1, 3))]
            joined = Joined(sorted({k for _, keys in parts for k in keys}))
            joined.parts = parts
            return ("(" + " AND ".join(n for n, _ in parts) + ")", joined)
        keys = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            r = rng.random()
            if r < 0.6:
                key = rng.choice(list(STD_KEYS))
            elif r < 0.8:
                key = rng.choice(["my key", "a  b", "activity name", "x y z", "k", "Activity", "ns:my key", "tab\tkey",
                                  "line\nkey", "a,b", "\"q\" k", "a&b c"])
            else:
                key = name_text(rng, self.o["nasty"])
            if key not in keys:
                keys.append(key)
        return (name_text(rng, self.o["nasty"]), keys)

    def log(self, size=None):
        rng = self.rng
        size = size or rng.choices(["empty", "tiny", "small", "medium"], [1, 4, 6, 2])[0]
        spec = L()
        if size != "empty" or rng.random() < 0.5:
            spec.extensions = rng.sample(list(self.known), rng.randint(0, min(6, len(self.known))))
            spec.gt = self.attributes(rng.choice([0, 1, 2, 3]), 2, unique=rng.random() < 0.8 or not self.o["lists_dup"])
            spec.ge = self.attributes(rng.choice([0, 1, 2, 4]), 2, unique=rng.random() < 0.8 or not self.o["lists_dup"])
            spec.classifiers = [self.classifier() for _ in range(rng.choice([0, 1, 2, 3]))]
            spec.attrs = self.with_standard(self.attributes(rng.choice([0, 1, 2, 4])),
                                            [("concept:name", 0.5), ("lifecycle:model", 0.2)])
        traces = {"empty": 0, "tiny": rng.randint(0, 2), "small": rng.randint(1, 5), "medium": rng.randint(4, 12),
                  "large": rng.randint(30, 80)}[size]
        for _ in range(traces):
            spec.traces.append(self.trace(rng.choice([0, 1, 2, 3, 5, 8])))
        if spec.traces and rng.random() < 0.1:
            spec.traces.append(spec.traces[0])
        if self.o["depth"] > 2 and size != "empty" and rng.random() < 0.02:
            chain = self.deep(rng.choice([5, 8, 12, 20, 36]))
            places = [spec.attrs, spec.gt, spec.ge] + [x for attrs, events in spec.traces for x in [attrs] + events]
            place = rng.choice(places)
            if all(a.key != chain.key for a in place):
                place.append(chain)
        return spec

    def plain(self, key, n, kind=None):
        """A cheap attribute without children; its value depends on n."""
        kind = kind or STD_KEYS.get(key) or self.o["kinds"][n % len(self.o["kinds"])]
        value = {"string": lambda: "value %d" % n, "int": lambda: n * 7919 - 5000, "float": lambda: n / 8,
                 "boolean": lambda: n % 3 == 0, "id": lambda: uuid.UUID(int=n * 2654435761 + 1),
                 "date": lambda: datetime(2001, 1, 1, tzinfo=None if self.o["dates"] == "naive" else timezone.utc) + timedelta(seconds=n, milliseconds=n % 1000)
                 }.get(kind, lambda: None)()
        return A(key, kind, value, extension_of_key(key, self.known))

    def huge(self, dimension=None, n=None):
        """A log with very many of one thing."""
        rng = self.rng
        dimension = dimension or rng.choice(HUGE)
        n = n or rng.choice([300, 1100, 2100, 4200]) + rng.randint(0, 40)
        spec = self.log("tiny")
        if dimension == "traces":
            spec.traces = [([self.plain("concept:name", k)], [[self.plain("concept:name", k)]] * (k % 2)) for k in range(n)]
        elif dimension == "events":
            events = [[self.plain("concept:name", k)] + [self.plain("time:timestamp", k)] * (k % 2) for k in range(n)]
            spec.traces.insert(rng.randint(0, len(spec.traces)), ([], events))
        elif dimension in ("attributes", "children", "globals"):
            many = [self.plain("k%d" % k, k) for k in range(n)]
            if dimension == "children":
                many = [A("many", rng.choice([k for k in ("list", "container", "string") if k in self.o["kinds"]]), None, None, many)]
                many[0].value = "x" if many[0].kind == "string" else None
            if dimension == "globals":
                spec.gt, spec.ge = many[:n // 2], many[n // 2:]
            elif spec.traces and rng.random() < 0.5:
                attrs, events = spec.traces[0]
                spec.traces[0] = (many, events) if rng.random() < 0.5 else (attrs, [many] + events)
            else:
                spec.attrs = many
        elif dimension == "texts":
            size = max(1000, n * 1500 // 40)
            spec.traces.append(([], [[A("long", "string", ("%d " % k * size)[:size], None)] for k in range(40)]))
        else:
            spec.classifiers = [("classifier %d" % k, ["key %d" % k, "concept:name"]) for k in range(n // 4)]
            spec.classifiers.append(("many keys", ["key%d" % k for k in range(n)]))
        return spec

    def alias(self, spec):
        """Puts attributes, events and traces of the log at further places of it (see share of build_log)."""
        rng = self.rng
        places = [spec.attrs] + [attrs for attrs, _ in spec.traces] + [e for _, events in spec.traces for e in events]
        everything = [a for attrs in spec.all_attribute_lists() for a in attrs]
        for _ in range(rng.choice([1, 2, 5])):
            if everything:
                a, target = rng.choice(everything), rng.choice(places)
                if all(b.key != a.key for b in target):
                    target.insert(rng.randint(0, len(target)), a)
                leaf, group = rng.choice(everything), rng.choice(everything)
                if group.kind in ("list", "container") and group is not leaf and not leaf.kids and \
                        leaf.kind not in ("list", "container") and all(b.key != leaf.key for b in group.kids):
                    group.kids.append(leaf)
                if rng.random() < 0.3 and a not in spec.gt:
                    spec.gt.append(a)
            traces = [t for t in spec.traces if t[1]]
            if traces:
                event = rng.choice(rng.choice(traces)[1])
                target = rng.choice(spec.traces)[1]
                target.insert(rng.randint(0, len(target)), event)
        if spec.traces and rng.random() < 0.4:
            spec.traces.insert(rng.randint(0, len(spec.traces)), rng.choice(spec.traces))
        return spec

    def deep(self, depth):
        """One chain of nested attributes."""
        rng = self.rng
        a = self.attribute(0, kind=None if self.o["std_typed"] else "string")
        for _ in range(depth):
            kind = rng.choice(self.o["kinds"])
            parent = self.attribute(0, kind=None if self.o["std_typed"] else kind)
            parent.kids = [a]
            if rng.random() < 0.3:
                extra = self.attribute(0)
                if extra.key != a.key:
                    parent.kids.append(extra)
            a = parent
        return a


# ---- construction of library objects --------------------------------------------------

def build_attribute(a, factory=XFactory, manager=None, memo=None):
    if memo is not None and id(a) in memo:
        return memo[id(a)]
    manager = manager or XExtensionManager()
    ext = None if a.ext is None else manager.get_by_uri(urlparse(a.ext))
    if a.kind == "string":
        out = factory.create_attribute_literal(a.key, a.value, ext)
    elif a.kind == "date":
        out = factory.create_attribute_timestamp(a.key, a.value, ext)
    elif a.kind == "int":
        out = factory.create_attribute_discrete(a.key, a.value, ext)
    elif a.kind == "float":
        out = factory.create_attribute_continuous(a.key, a.value, ext)
    elif a.kind == "boolean":
        out = factory.create_attribute_boolean(a.key, a.value, ext)
    elif a.kind == "id":
        out = factory.create_attribute_id(a.key, XID(a.value), ext)
    elif a.kind == "list":
        out = factory.create_attribute_list(a.key, ext)
    else:
        out = factory.create_attribute_container(a.key, ext)
    for kid in a.kids:
        child = build_attribute(kid, factory, manager, memo)
        if a.kind in ("list", "container"):
            out.add_to_collection(child)
        else:
            out.get_attributes()[kid.key] = child
    if memo is not None:
        memo[id(a)] = out
    return out


def build_map(attrs, factory=XFactory, target=None, memo=None):
    if target is None and factory is XFactory and len(attrs) % 3 == 2:
        return XAttributeMap({a.key: build_attribute(a, memo=memo) for a in attrs})
    out = factory.create_attribute_map() if target is None else target
    for a in attrs:
        out[a.key] = build_attribute(a, factory, None, memo)
    return out


def build_classifier(name, keys):
    if (name, list(keys)) in READY:
        return STANDARD_CLASSIFIERS[READY.index((name, list(keys)))]()
    if isinstance(keys, Joined):
        return XEventAndClassifier([build_classifier(n, k) for n, k in keys.parts])
    return XEventAttributeClassifier(name, list(keys))


def build_event(attrs, factory=XFactory, style=0, memo=None):
    if memo is not None and id(attrs) in memo:
        return memo[id(attrs)]
    if style == 0:
        event = factory.create_event(build_map(attrs, factory, None, memo))
    else:
        event = factory.create_event()
        build_map(attrs, factory, event.get_attributes(), memo)
    if memo is not None:
        memo[id(attrs)] = event
    return event


def build_trace(spec, factory=XFactory, style=0, memo=None):
    if memo is not None and id(spec) in memo:
        return memo[id(spec)]
    attrs, events = spec
    if style == 0:
        trace = factory.create_trace(build_map(attrs, factory, None, memo))
    else:
        trace = factory.create_trace()
        build_map(attrs, factory, trace.get_attributes(), memo)
    for e in events:
        trace.append(build_event(e, factory, style, memo))
    if memo is not None:
        memo[id(spec)] = trace
    return trace


def build_log(spec, factory=XFactory, style=0, share=False):
    """style 0 hands over ready attribute maps, style 1 fills the maps of empty elements; with share, what is one
    object in the abstract log is one object in the log."""
    memo = {} if share else None
    if style == 0:
        log = factory.create_log(build_map(spec.attrs, factory, None, memo))
    else:
        log = factory.create_log()
        build_map(spec.attrs, factory, log.get_attributes(), memo)
    manager = XExtensionManager()
    for prefix in spec.extensions:
        name, uri = dict(STD, **CUSTOM)[prefix]
        log.get_extensions().add(manager.get_by_uri(urlparse(uri)))
    for a in spec.gt:
        log.get_global_trace_attributes().append(build_attribute(a, factory, None, memo))
    for a in spec.ge:
        log.get_global_event_attributes().append(build_attribute(a, factory, None, memo))
    for name, keys in spec.classifiers:
        log.get_classifiers().append(build_classifier(name, keys))
    for key, value in spec.features.items():
        log.set_features(key, value)
    for t in spec.traces:
        log.append(build_trace(t, factory, style, memo))
    return log


# ---- expected canonical form ----------------------------------------------------------

def canon_value(a, ms=True):
    if a.kind in ("list", "container"):
        return None
    if a.kind == "date":
        return snap.date_value(a.value, ms)
    if a.kind == "float":
        return snap.float_value(a.value)
    if a.kind == "boolean":
        return ("bool", a.value)
    if a.kind == "int":
        return ("int", a.value)
    if a.kind == "id":
        return str(a.value)
    return a.value


def canon(a, ms=True, ext=True, maps=False):
    out = [a.key, a.kind, canon_value(a, ms)]
    if ext:
        out.append(a.ext)
    kids = [canon(k, ms, ext, maps) for k in a.kids]
    if a.kind == "list":
        out.append(kids)
    elif a.kind == "container":
        out.append(sorted(kids, key=repr))
    else:
        out.append({k[0]: k for k in kids})
    return out


def canon_attrs(attrs, ms=True, ext=True):
    return {a.key: canon(a, ms, ext) for a in attrs}


def canon_log(spec, ms=True, ext=True, features=False):
    known = dict(STD, **CUSTOM)
    out = {
        "extensions": sorted({known[p][1] for p in spec.extensions}),
        "global trace": [canon(a, ms, ext) for a in spec.gt],
        "global event": [canon(a, ms, ext) for a in spec.ge],
        "classifiers": [[n, list(k)] for n, k in spec.classifiers],
        "attrs": canon_attrs(spec.attrs, ms, ext),
    }
    if features:
        out["features"] = dict(spec.features)
    out["traces"] = [{"attrs": canon_attrs(attrs, ms, ext),
                      "events": [{"attrs": canon_attrs(e, ms, ext)} for e in events]}
                     for attrs, events in spec.traces]
    return out


STANDARD_CLASSIFIERS = [XEventNameClassifier, XEventResourceClassifier, XEventLifeTransClassifier]
