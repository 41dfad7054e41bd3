"""The written XES document denotes the log; writing is pure and repeatable."""
import io
import os
import xml.etree.ElementTree as Et
import xml.parsers.expat

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory

from rv import gen, snap, xesdoc
from rv.props.c01 import make, tally

RULE = ("random abstract logs as in C01 (finite numbers), written several times to text (UTF-8 and other encodings), binary and file targets; "
        "oracle: a strict independent reader (expat) of the documents against the abstract log, byte equality of "
        "repeated writes, snapshots of the log and of the extension definitions before and after; "
        "non-trivial: at least one attribute, extension or classifier")
ASSUMPTIONS = ["attribute keys are unique per element; classifier keys do not start with an apostrophe or have one before a blank",
               "every prefix used is the prefix of one registered extension",
               "text targets have UTF-16 or an encoding that contains ASCII"]
CASES = {"quick": 6000, "thorough": 70000}
REQUIRED = ["checks", "documents", "traces", "events", "attribute string", "attribute date", "attribute float",
            "attribute list", "attribute container", "logs that were read before", "huge logs", "declarations", "declarations of one prefix", "documents in other encodings"]


def setup(ctx):
    gen.register_custom()


def finite(spec):
    for attrs in spec.all_attribute_lists():
        stack = list(attrs)
        while stack:
            a = stack.pop()
            if a.kind == "float" and (a.value != a.value or a.value in (float("inf"), float("-inf"))):
                a.value = 0.25
            stack.extend(a.kids)
    return spec


def declarations(ctx, rng):
    """Every extension of a log is declared, whatever names and prefixes they share."""
    known = [XExtensionManager().get_by_index(n) for n in range(10)]
    extensions = []
    for n in range(rng.choice([0, 1, 2, 3, 7, 30, 300])):
        if known and rng.random() < 0.3:
            extensions.append(rng.choice(known))
        else:
            extensions.append(XExtension(rng.choice(["Concept", "Own", "own", "\u00c4 & <b>", "n%d" % n]),
                                         rng.choice(["concept", "own", "Own", "p%d" % n]),
                                         gen.uri(rng, rng.choice(["http://example.org/own/%d", "urn:own:%d", "own%d", "http://e.org/?a=1&b=%d"]) % n)))
    log = XFactory.create_log()
    unique = {}
    for e in extensions:
        log.get_extensions().add(e)
        unique.setdefault(e.get_uri().geturl(), (e.get_name(), e.get_prefix(), e.get_uri().geturl()))
    out = io.BytesIO()
    XesXmlSerializer().serialize(log, out, True)
    got = [(x.get("name"), x.get("prefix"), x.get("uri")) for x in Et.fromstring(out.getvalue()) if x.tag.split("}")[-1] == "extension"]
    ctx.same(sorted(got), sorted(unique.values()), "the declared extensions")
    prefixes = [p for _, p, _ in unique.values()]
    ctx.count("declarations", len(got))
    ctx.count("declarations of one prefix", len(prefixes) > len(set(prefixes)))


def case(ctx, rng, i):
    if i % 9 == 4:
        declarations(ctx, rng)
    spec = finite(make(ctx, rng, i))
    if tally(ctx, spec):
        ctx.distinct(repr(spec))
    expected = gen.canon_log(spec)
    log = gen.build_log(spec, style=rng.randint(0, 1), share=rng.random() < 0.5)
    if rng.random() < 0.3:
        out = io.BytesIO()
        XesXmlSerializer().serialize(log, out, True)
        log = XesXmlParser().parse(io.BytesIO(out.getvalue()))[0]
        ctx.count("logs that were read before")
    before = snap.log(log, ms=False, maps=True, ids=True, features=True)
    definitions = snap.definitions()
    identities = [id(e) for t in log for e in t]
    serializer = XesXmlSerializer()
    first = io.StringIO()
    serializer.serialize(log, first)
    second = io.BytesIO()
    serializer.serialize(log, second, True)
    third = io.StringIO()
    XesXmlSerializer().serialize(log, third, in_bytes=False)
    path = os.path.join(ctx.scratch, "written.xes")
    with open(path, "wb") as out:
        serializer.serialize(log, out, in_bytes=True)
    with open(path, "rb") as f:
        fourth = f.read()
    ctx.count("documents", 4)
    ctx.same(second.getvalue(), first.getvalue().encode("utf-8"), "binary and text target differ")
    ctx.same(third.getvalue(), first.getvalue(), "writing again gives another document")
    ctx.same(fourth, second.getvalue(), "file and memory target differ")
    codec = rng.choice(gen.CODECS)
    with open(path, "w", encoding=codec) as out:
        serializer.serialize(log, out)
    with open(path, "rb") as f:
        fifth = f.read()
    ctx.count("documents in other encodings")
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(fifth, True)
    except xml.parsers.expat.ExpatError as error:
        ctx.fail("the document written to a text target in %s is not well-formed: %s" % (codec, error))
    ctx.same(xesdoc.read_written(fifth, dict(gen.STD, **gen.CUSTOM)), expected,
             "the document written to a text target in %s does not denote the log" % codec)
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(second.getvalue(), True)
    except xml.parsers.expat.ExpatError as error:
        ctx.fail("the document is not well-formed: %s" % error)
    ctx.same(xesdoc.read_written(second.getvalue(), dict(gen.STD, **gen.CUSTOM)), expected,
             "the document does not denote the log")
    ctx.same(snap.log(log, ms=False, maps=True, ids=True, features=True), before, "writing changed the log")
    ctx.check([id(e) for t in log for e in t] == identities, "writing replaced events")
    ctx.same(snap.definitions(), definitions, "writing changed an extension definition")
    ctx.sample(first.getvalue())
