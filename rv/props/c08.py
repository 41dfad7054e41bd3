"""Incomplete or damaged input is never taken for a log; failures leave no traces."""
import gzip
import io
import os
import xml.parsers.expat

from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.factory.XFactory import XFactory

from rv import gen, snap, xesdoc
from rv.props import c07

RULE = ("huge logs cut around round sizes and near their ends; XES and MXML documents, written by the library and by an independent writer, plain and compressed, cut at "
        "every position (every byte for files up to 2500 bytes, else 600 positions) and damaged by random byte "
        "changes, insertions and deletions, plus read and write errors injected into the streams; oracles: expat and "
        "gzip say whether the damaged bytes are still a document, good files read before and after each batch give "
        "the same snapshot; non-trivial: every distinct damaged byte string")
ASSUMPTIONS = ["a cut is before the end of the root element's end tag"]
CASES = {"quick": 160, "thorough": 3000}
LEVEL = "fault_enumeration"
REQUIRED = ["checks", "cuts plain xes", "cuts plain mxml", "cuts gzip xes", "cuts gzip mxml", "damages refused",
            "stream errors", "failed writes", "failures half-way", "good reads after failures", "cuts of huge logs"]

PARSERS = {("xes", False): XesXmlParser, ("xes", True): XesXmlGZIPParser,
           ("mxml", False): XMxmlParser, ("mxml", True): XMxmlGZIPParser}
GOOD_XES = (b'<?xml version="1.0"?><log xes.version="1.0"><extension name="Concept" prefix="concept" '
            b'uri="http://www.xes-standard.org/concept.xesext"/><global scope="trace"><string key="concept:name" '
            b'value="g"><int key="n" value="1"/></string></global><classifier name="c" keys="a \'b c\'"/>'
            b'<string key="concept:name" value="l"/><trace><string key="t" value="1"/><event><list key="x">'
            b'<string key="y" value="z"/></list></event><event/></trace></log>')
GOOD_MXML = (b'<WorkflowLog><Source program="p"/><Process id="1"><ProcessInstance id="i"><Data><Attribute name="d">v'
             b'</Attribute></Data><AuditTrailEntry><WorkflowModelElement>A</WorkflowModelElement><EventType>start'
             b'</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>')


def setup(ctx):
    gen.register_custom()
    ctx.state["parsers"] = {k: cls() for k, cls in PARSERS.items()}
    ctx.state["good"] = {"xes": snaps(XesXmlParser().parse(io.BytesIO(GOOD_XES))),
                         "mxml": snaps(XMxmlParser().parse(io.BytesIO(GOOD_MXML)))}


def snaps(logs):
    return [snap.log(x, ms=False, features=True, maps=True) for x in logs]


def make(ctx, rng, i):
    """(format, document bytes)"""
    g = gen.Gen(rng, std_typed=True, nasty=rng.choice([0, 0.1, 0.3]), finite=True)
    style = i // 8 % 4
    if style == 0:
        spec = g.log(rng.choice(["tiny", "small"]))
        out = io.BytesIO()
        XesXmlSerializer().serialize(gen.build_log(spec), out, True)
        return "xes", out.getvalue()
    if style == 1:
        spec = g.log(rng.choice(["tiny", "tiny", "small"]))
        data, _ = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        return "xes", data
    if style == 2:
        spec = g.log(rng.choice(["tiny", "small"]))
        out = io.BytesIO()
        XMxmlSerializer().serialize(gen.build_log(spec), out, True)
        return "mxml", out.getvalue()
    (data, _), _ = c07.Maker(ctx, rng).document()
    return "mxml", data


def well_formed(data):
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(data, True)
        return True
    except (xml.parsers.expat.ExpatError, ValueError, LookupError):
        return False


def document_in(data, packed):
    """Whether bytes (compressed or not) still are an XML document."""
    if packed:
        try:
            data = gzip.decompress(data)
        except Exception:
            return False
    return well_formed(data)


def attempt(ctx, rng, fmt, packed, data, what):
    """Reads damaged bytes; any result is a violation."""
    parser = ctx.state["parsers"][(fmt, packed)] if rng.random() < 0.8 else PARSERS[(fmt, packed)]()
    universal = rng.random() < (0.03 if not packed else 0.2)
    if packed or universal:
        path = os.path.join(ctx.scratch, "d." + fmt + (".gz" if packed else ""))
        with open(path, "wb") as f:
            f.write(data)
        handle = open(path, "rb")
        if universal:
            parser = XUniversalParser()
    else:
        handle = io.BytesIO(data) if rng.random() < 0.7 else xesdoc.chunky(data, rng, 4096)
    try:
        result = parser.parse(handle)
    except Exception:
        result = None
    finally:
        handle.close()
    ctx.check(result is None, "%s %s is read as a log" % ("compressed" if packed else "plain", fmt), what=what,
              reader=type(parser).__name__, data=data[:3000], result=result if result is None else len(result))


def good_reads(ctx, rng, fmt, data, expected, why):
    ctx.count("good reads after failures")
    for kind, good in (("xes", GOOD_XES), ("mxml", GOOD_MXML)):
        ctx.same(snaps(ctx.state["parsers"][(kind, False)].parse(io.BytesIO(good))), ctx.state["good"][kind],
                 "a good %s file read after %s" % (kind, why))
    for parser in (ctx.state["parsers"][(fmt, False)], PARSERS[(fmt, False)]()):
        ctx.same(snaps(parser.parse(io.BytesIO(data))), expected, "the undamaged %s file read after %s" % (fmt, why))
    path = os.path.join(ctx.scratch, "g." + fmt + ".gz")
    with open(path, "wb") as f:
        f.write(gzip.compress(data))
    ctx.same(snaps(ctx.state["parsers"][(fmt, True)].parse(open(path, "rb"))), expected,
             "the undamaged compressed %s file read after %s" % (fmt, why))


def end_of_root(data):
    """Length of the shortest prefix that is a complete document (the end of the root's end tag)."""
    depth = [0]
    ends = []
    parser = xml.parsers.expat.ParserCreate()

    def start(*_):
        depth[0] += 1

    def end(*_):
        depth[0] -= 1
        if depth[0] == 0:
            ends.append(parser.CurrentByteIndex)
    parser.StartElementHandler, parser.EndElementHandler = start, end
    parser.Parse(data, True)
    at = ends[0]
    while at < len(data) and not well_formed(data[:at]):
        at += 1
    return at


def huge(ctx, rng, i):
    """A log beyond every buffer, cut at many places near round sizes and near the end."""
    g = gen.Gen(rng, std_typed=True, nasty=0, finite=True)
    spec = g.huge(rng.choice(["texts", "events", "traces"]), rng.choice([2100, 4200]))
    fmt = rng.choice(["xes", "mxml"])
    out = io.BytesIO()
    (XesXmlSerializer if fmt == "xes" else XMxmlSerializer)().serialize(gen.build_log(spec), out, True)
    data = out.getvalue()
    expected = snaps(PARSERS[(fmt, False)]().parse(io.BytesIO(data)))
    for packed, content in ((False, data[:end_of_root(data)]), (True, gzip.compress(data, 1, mtime=0))):
        places = {len(content) - k for k in (1, 2, 4, 8, 9, 100)} | {k + d for k in (4096, 8192, 32768, 65536, 1 << 17, 1 << 20) for d in (0, 1)}
        places |= {len(content) >> 16 << 16, len(content) >> 13 << 13, rng.randrange(len(content))}
        for k in sorted(places):
            if 0 < k < len(content):
                attempt(ctx, rng, fmt, packed, content[:k], "cut at %d of %d" % (k, len(content)))
                ctx.count("cuts of huge logs")
    good_reads(ctx, rng, fmt, data, expected, "cuts of a huge log")


def case(ctx, rng, i):
    if i % 33 == 13:
        return huge(ctx, rng, i)
    fmt, data = make(ctx, rng, i)
    if len(data) > 120000:
        fmt, data = "xes", GOOD_XES
    expected = snaps(PARSERS[(fmt, False)]().parse(io.BytesIO(data)))
    end = end_of_root(data)
    positions = range(end) if end <= 2500 else sorted(
        set(rng.sample(range(end), 580)) | set(range(end - 10, end)) | set(range(10)))
    for n, k in enumerate(positions):
        attempt(ctx, rng, fmt, False, data[:k], "cut at %d of %d" % (k, len(data)))
        ctx.count("cuts plain " + fmt)
        ctx.distinct(data[:k])
        if n % 300 == 299:
            good_reads(ctx, rng, fmt, data, expected, "a cut at %d" % k)
    packed = gzip.compress(data, rng.choice([1, 6, 9]), mtime=0)
    if len(packed) > 12 and rng.random() < 0.5:   # the library's own compressed file
        path = os.path.join(ctx.scratch, "own." + fmt + ".gz")
        log = gen.build_log(gen.Gen(rng, std_typed=True, nasty=0, finite=True).log("tiny"))
        (XesXmlGZIPSerializer if fmt == "xes" else XMxmlGZIPSerializer)().serialize(log, open(path, "wb"))
        with open(path, "rb") as f:
            packed = f.read()
    positions = range(len(packed)) if len(packed) <= 700 else sorted(
        set(rng.sample(range(len(packed)), 150)) | set(range(len(packed) - 16, len(packed))) | set(range(24)))
    for k in positions:
        attempt(ctx, rng, fmt, True, packed[:k], "cut at %d of %d" % (k, len(packed)))
        ctx.count("cuts gzip " + fmt)
        ctx.distinct(packed[:k])
    good_reads(ctx, rng, fmt, data, expected, "cuts")
    for n in range(150):
        pack = n % 3 == 0
        broken = damage(rng, packed if pack else data)
        if document_in(broken, pack):
            ctx.count("damages still well-formed")
            continue
        attempt(ctx, rng, fmt, pack, broken, "damaged")
        ctx.count("damages refused")
        ctx.distinct(broken)
    good_reads(ctx, rng, fmt, data, expected, "damage")
    for _ in range(10):
        stream_error(ctx, rng, fmt, data)
    good_reads(ctx, rng, fmt, data, expected, "stream errors")
    failed_write(ctx, rng, fmt)
    ctx.sample({"format": fmt, "bytes": len(data), "document": data[:400].decode("latin-1")})


def damage(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        if not data:
            break
        k = rng.randrange(len(data))
        r = rng.random()
        if r < 0.35:
            data[k] ^= 1 << rng.randrange(8)
        elif r < 0.5:
            data[k] = rng.choice(b"<>&\"'/ \x00\xff=!?-")
        elif r < 0.65:
            del data[k:k + rng.choice([1, 1, 2, 10, 100])]
        elif r < 0.8:
            data[k:k] = rng.choice([b"<", b"&", b">", b"</log>", b"\x00", b"\xff\xfe", b"<x>", b"\"", b"--", b"]]>"])
        elif r < 0.9:
            j = rng.randrange(len(data))
            data[j], data[k] = data[k], data[j]
        else:
            data.extend(rng.choice([b"<log/>", b"junk", b"</log>", b"<", b"\x01\x02", b"&amp;"]))
    return bytes(data)


class Failing(io.RawIOBase):
    """Delivers a prefix and then fails."""

    def __init__(self, data, error):
        super().__init__()
        self.data, self.pos, self.error = data, 0, error

    def readable(self):
        return True

    def readinto(self, b):
        if len(b) == 0:
            return 0
        if self.pos >= len(self.data):
            raise self.error
        n = min(len(b), len(self.data) - self.pos, 512)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def stream_error(ctx, rng, fmt, data):
    k = rng.randrange(len(data) + 1)
    error = rng.choice([OSError(5, "input/output error"), EOFError("end"), ConnectionResetError(104, "reset"),
                        ValueError("stream"), TimeoutError("slow")])
    handle = Failing(data[:k], error)
    ctx.count("stream errors")
    try:
        result = ctx.state["parsers"][(fmt, False)].parse(handle)
    except Exception:
        return
    ctx.fail("a stream that fails after %d of %d bytes is read as %d logs" % (k, len(data), len(result)))


class Unprintable:
    def __str__(self):
        raise ValueError("no text")
    __format__ = __str__


class BadTarget(io.RawIOBase):
    name = "bad"

    def __init__(self, error, text):
        super().__init__()
        self.error = error
        self.text = text

    def writable(self):
        return True

    def write(self, b):
        raise self.error


def with_references(rng, spec):
    """Model references on many elements."""
    for attrs in [spec.attrs] + [t for t, _ in spec.traces] + [e for _, events in spec.traces for e in events]:
        if rng.random() < 0.5 and all(a.key != "semantic:modelReference" for a in attrs):
            attrs.insert(rng.randint(0, len(attrs)),
                         gen.A("semantic:modelReference", "string", "http://example.org/m", gen.STD["semantic"][1]))


def failed_write(ctx, rng, fmt):
    """Writes that fail, then the same write to a good target."""
    spec = gen.Gen(rng, std_typed=True, nasty=0.1, finite=True).log("small")
    with_references(rng, spec)
    log = gen.build_log(spec)
    serializer = (XesXmlSerializer if fmt == "xes" else XMxmlSerializer)()
    packer = (XesXmlGZIPSerializer if fmt == "xes" else XMxmlGZIPSerializer)()
    reference = io.BytesIO()
    serializer.serialize(log, reference, True)
    before = snap.log(log, ms=False, maps=True, ids=True, features=True)
    for n in range(9):
        ctx.count("failed writes")
        raised = False
        poison, value = None, rng.choice(["a\x00b\x01", 12, None, b"bytes", "\ud800", Unprintable(), Unprintable()])
        try:
            if n == 0:
                serializer.serialize(log, BadTarget(OSError(28, "no space"), True))
            elif n == 1:
                serializer.serialize(log, BadTarget(OSError(5, "i/o"), False), True)
            elif n == 2:
                out = io.StringIO()
                out.close()
                serializer.serialize(log, out)
            elif n == 3:
                serializer.serialize(log, io.StringIO(), True)   # bytes into a text target
            elif n == 4:
                folder = os.path.join(ctx.scratch, "gone")
                os.makedirs(folder, exist_ok=True)
                handle = open(os.path.join(folder, "x." + fmt + ".gz"), "wb")
                os.remove(handle.name)
                os.rmdir(folder)
                packer.serialize(log, handle)
            else:
                # a value that no XML document can carry, deep inside the log
                holder = rng.choice([log] + list(log) + [e for t in log for e in t])
                if n > 6:
                    below = list(snap.walk_attributes(holder.get_attributes()))
                    holder = rng.choice(below) if below else holder
                poison = XFactory.create_attribute_literal("poison", value)
                holder.get_attributes()["poison"] = poison
                if n % 2:
                    serializer.serialize(log, io.BytesIO(), True)
                else:
                    packer.serialize(log, open(os.path.join(ctx.scratch, "p." + fmt + ".gz"), "wb"))
        except Exception:
            raised = True
        if poison is not None:
            ctx.count("failures half-way", raised)
            ctx.check(holder.get_attributes().get("poison") is poison and poison.get_value() is value,
                      "a failed write replaced an attribute")
            del holder.get_attributes()["poison"]
        ctx.check(raised or n > 2, "a write that cannot succeed reports no error", kind=n)
        ctx.same(snap.log(log, ms=False, maps=True, ids=True, features=True), before, "a failed write changed the log",
                 kind=n)
        again = io.BytesIO()
        (serializer if n % 2 else type(serializer)()).serialize(log, again, True)
        ctx.same(again.getvalue(), reference.getvalue(), "the write after a failed write", kind=n)
