"""XES round trip: read(write(log)) equals log."""
import io
import os

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_in.XUniversalParser import XUniversalParser

from rv import gen, snap

RULE = ("random abstract logs (texts over all XML characters, boundary numbers and dates, nesting, lists and "
        "containers, very long texts, thousands of traces, events, attributes, children, globals or classifiers, objects that stand at several places, globals, classifiers, registered extensions) built through the factory, written by the XES "
        "writer to a text, binary, memory or gzip target and read back; oracle: canonical form of the abstract log; "
        "non-trivial: at least one attribute, extension or classifier")
ASSUMPTIONS = ["attribute keys are unique per element; classifier keys do not start with an apostrophe or have one before a blank",
               "text holds only characters XML 1.0 can carry"]
CASES = {"quick": 7200, "thorough": 72000}
REQUIRED = ["checks", "traces", "events", "attributes", "attribute string", "attribute date", "attribute int",
            "attribute float", "attribute boolean", "attribute id", "attribute list", "attribute container",
            "target text", "target binary", "target BytesIO", "target gzip", "very long texts", "shared objects", "huge logs"]

TARGETS = ["text", "binary", "StringIO", "BytesIO", "gzip", "universal"]


def setup(ctx):
    gen.register_custom()
    ctx.state["serializer"] = XesXmlSerializer()
    ctx.state["parser"] = XesXmlParser()


def round_trip(ctx, log, target, reuse):
    serializer = ctx.state["serializer"] if reuse else XesXmlSerializer()
    parser = ctx.state["parser"] if reuse else XesXmlParser()
    path = os.path.join(ctx.scratch, "log.xes")
    if target == "text":
        with open(path, "w", encoding="utf-8", newline="") as out:
            serializer.serialize(log, out)
        with open(path, "rb") as f:
            return parser.parse(f)
    if target == "binary":
        with open(path, "wb") as out:
            serializer.serialize(log, out, True)
        with open(path, encoding="utf-8") as f:
            return parser.parse(f)
    if target == "StringIO":
        out = io.StringIO()
        serializer.serialize(log, out)
        return parser.parse(io.StringIO(out.getvalue()))
    if target == "BytesIO":
        out = io.BytesIO()
        serializer.serialize(log, out, in_bytes=True)
        return parser.parse(io.BytesIO(out.getvalue()))
    if target == "gzip":
        path += ".gz"
        XesXmlGZIPSerializer().serialize(log, open(path, "wb"))
        return XesXmlGZIPParser().parse(open(path, "rb"))
    with open(path, "w", encoding="utf-8") as out:
        serializer.serialize(log, out)
    with open(path, encoding="utf-8") as f:
        return XUniversalParser().parse(f)


def make(ctx, rng, i):
    g = gen.Gen(rng, nasty=rng.choice([0, 0.1, 0.3, 0.6, 0.9]), long=0.02 if i % 67 == 9 else 0.0)
    if g.o["long"]:
        ctx.count("very long texts")
    if i % 97 == 5:
        spec = gen.L()
        spec.attrs = [g.deep(rng.choice([10, 25, 40]))]
        attrs, events = g.trace(1)
        deep = [a for a in attrs if a.key != "deep"]
        chain = g.deep(rng.choice([10, 30]))
        spec.traces = [([a for a in deep if a.key != chain.key] + [chain], [[g.deep(20)]])]
        spec.gt = [g.deep(12)]
        ctx.count("deep nesting")
    elif i % 241 == 17:
        g = gen.Gen(rng, nasty=0)
        spec = g.huge(gen.HUGE[i // 241 % len(gen.HUGE)], rng.choice([9000, 70000]) if i % 2410 == 258 and not ctx.quick else None)
        ctx.count("huge logs")
    elif i % 197 == 11:
        spec = g.log("large")
        ctx.count("large logs")
    elif i % 61 == 7:
        spec = g.log("tiny")
        spec.attrs = g.attributes(300, 0)
        ctx.count("wide elements")
    else:
        spec = g.log()
    if i % 5 == 3:
        g.alias(spec)
        ctx.count("shared objects")
    return spec


def tally(ctx, spec):
    ctx.count("logs")
    ctx.count("traces", len(spec.traces))
    ctx.count("events", spec.events())
    stack = [a for attrs in spec.all_attribute_lists() for a in attrs]
    nontrivial = bool(stack or spec.extensions or spec.classifiers)
    while stack:
        a = stack.pop()
        ctx.count("attributes")
        ctx.count("attribute " + a.kind)
        if a.kids:
            ctx.count("attributes with children")
        stack.extend(a.kids)
    return nontrivial


def case(ctx, rng, i):
    spec = make(ctx, rng, i)
    if tally(ctx, spec):
        ctx.distinct(repr(spec))
    target = TARGETS[i // 8 % len(TARGETS)]
    ctx.count("target " + target)
    expected = gen.canon_log(spec)
    log = gen.build_log(spec, style=rng.randint(0, 1), share=rng.random() < 0.5)
    ctx.same(snap.log(log), expected, "the built log differs from its definition")
    logs = round_trip(ctx, log, target, rng.random() < 0.5)
    ctx.check(isinstance(logs, list) and len(logs) == 1, "reading gives exactly one log", got=logs)
    actual = snap.log(logs[0])
    ctx.same(actual, expected, "read(write(log)) differs (%s target)" % target)
    ctx.sample({"target": target, "log": repr(spec)})
    if rng.random() < 0.3:
        again = round_trip(ctx, logs[0], rng.choice(TARGETS), True)
        ctx.same(snap.log(again[0]), expected, "second round trip differs")
        ctx.count("second round trips")
