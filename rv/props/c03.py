"""Reading XES gives exactly the log the document denotes."""
import io
import os

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.extension.XExtensionManager import XExtensionManager

from rv import gen, snap, xesdoc
from rv.props.c01 import make, tally

RULE = ("random abstract logs rendered by an independent writer that exercises the lexical freedom of XML and XES "
        "(encodings, byte order marks, quoting, character references, entities, comments, processing instructions, "
        "tag case, element order, empty elements, number and date forms, missing keys and values, unreadable dates, "
        "unknown extensions), read from byte, text, file and chunked streams; oracle: canonical form of the abstract "
        "log; non-trivial: at least one attribute, extension or classifier")
ASSUMPTIONS = ["attribute keys are unique per element, except inside lists",
               "declared prefixes and URIs of extensions agree with the registered ones"]
CASES = {"quick": 9000, "thorough": 100000}
REQUIRED = ["checks", "source bytes", "source text", "source file", "source chunks", "unreadable dates",
            "unknown extensions", "missing keys or values", "encoding utf-16", "encoding iso-8859-1",
            "encoding us-ascii", "attribute list", "attribute container", "attribute date", "huge logs"]


def setup(ctx):
    gen.register_custom()
    ctx.state["parser"] = XesXmlParser()


def check_maps(ctx, log):
    """Children of collections are reachable through the attribute map as well."""
    roots = list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes())
    for element in [log] + list(log) + [e for t in log for e in t]:
        roots.extend(element.get_attributes().values())
    stack = roots
    manager = XExtensionManager()
    while stack:
        a = stack.pop()
        ext = a.get_extension()
        if ext is not None:
            ctx.check(manager.get_by_prefix(a.get_key()[:a.get_key().index(":")]) is ext,
                      "attribute %r is associated with another extension object" % a.get_key())
        kids = list(a.get_attributes().values())
        if snap.kind(a) in ("list", "container"):
            last = {c.get_key(): c for c in a.get_collection()}
            ctx.check(set(last) == set(a.get_attributes()) and
                      all(a.get_attributes()[k] is v for k, v in last.items()),
                      "children of collection %r" % a.get_key())
            kids = list(a.get_collection())
        stack.extend(kids)


def missing_keys(rng, spec):
    for attrs in spec.all_attribute_lists():
        if attrs and rng.random() < 0.05 and all(a.key != "UNKNOWN" for a in attrs):
            a = rng.choice(attrs)
            a.key, a.ext = "UNKNOWN", None


def case(ctx, rng, i):
    spec = make(ctx, rng, i)
    missing_keys(rng, spec)
    if tally(ctx, spec):
        ctx.distinct(repr(spec))
    doc = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM))
    data, text = doc.document()
    ctx.count("encoding " + doc.encoding)
    ctx.count("unreadable dates", doc.bad_dates)
    ctx.count("unknown extensions", doc.unknown_extensions)
    ctx.count("missing keys or values", doc.missing)
    ctx.count("document bytes", len(data))
    expected = gen.canon_log(spec, features=True, ms=False)
    source = ["bytes", "text", "file", "chunks", "textfile"][i // 8 % 5]
    if source == "textfile" and doc.encoding not in ("utf-8", "us-ascii"):
        source = "file"
    ctx.count("source " + source)
    path = os.path.join(ctx.scratch, "doc.xes")
    if source == "bytes":
        handle = io.BytesIO(data)
    elif source == "text":
        handle = io.StringIO(text)
    elif source == "chunks":
        handle = xesdoc.chunky(data, rng, rng.choice([1, 3, 100, 5000]))
    else:
        with open(path, "wb") as f:
            f.write(data)
        handle = open(path, "rb") if source == "file" else open(path, encoding="utf-8")
    parser = ctx.state["parser"] if rng.random() < 0.7 else XesXmlParser()
    try:
        logs = parser.parse(handle)
    except Exception as error:
        ctx.fail("a well-formed document is not read: %r" % error, source=source, document=text)
    finally:
        handle.close()
    ctx.check(isinstance(logs, list) and len(logs) == 1, "reading gives exactly one log")
    actual = snap.log(logs[0], ms=False, features=True)
    ctx.same(actual, expected, "the log read differs (%s, %s)" % (source, doc.encoding), document=text)
    actual.pop("features")
    expected.pop("features")
    ctx.check(xesdoc.key_order(actual) == xesdoc.key_order(expected), "attributes are not in document order",
              got=xesdoc.key_order(actual), expected=xesdoc.key_order(expected), document=text)
    check_maps(ctx, logs[0])
    ctx.sample(text)

