"""Finished operations hold on to nothing and leave the process as it was."""
import collections
import gc
import gzip
import io
import os
import random
import subprocess
import sys
import tempfile
import urllib.request
import weakref
from datetime import timedelta
from pathlib import Path
from urllib.parse import urlparse

from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.id.XID import XID
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.utils.XAttributeUtils import XAttributeUtils

from rv import gen, snap
from rv.process import open_files, settings, tree
from rv.base import Violation
from rv.props import c20

TECHNIQUE = ("runtime monitor: weak references to every element an operation made or was given, and snapshots of the process (open "
             "files, folders, settings, live objects) around every operation")
RULE = ("histories of 3-8 operations (reads, damaged reads, writes, failing writes, copies, summaries, comparisons, accessors, edits "
        "that take elements out, extension definitions, the extension cache) with long-lived and fresh readers and writers; after "
        "each the open files, folders, threads and process-wide settings must be as before, and when the user has dropped its logs a "
        "garbage collection must release every element of them; single operations are also repeated 90 times while the number of "
        "live objects and container entries is watched; non-trivial: a history after which elements were released")
ASSUMPTIONS = ["the garbage collector is asked before elements are expected to be gone",
               "what a failed operation left in its exception is dropped with the exception"]
STATEFUL = True
CASES = {"quick": 1700, "thorough": 50000}
KINDS = ["read", "damaged read", "write", "failing write", "clone", "summary", "compare", "access", "take out", "definition",
         "cache", "lookups", "failing calls"]
REQUIRED = ["checks", "histories", "released", "released log", "released trace", "released event", "released attribute",
            "released summary", "released definition", "made by failed reads", "reads that failed", "writes that failed", "calls that failed", "long-lived tools",
            "repeated operations", "files written", "imports", "taken out", "released while others were held"] + ["kind " + k for k in KINDS]
READERS = {"xes": XesXmlParser, "mxml": XMxmlParser, "xes.gz": XesXmlGZIPParser, "mxml.gz": XMxmlGZIPParser}
WRITERS = {"xes": XesXmlSerializer, "mxml": XMxmlSerializer, "xes.gz": XesXmlGZIPSerializer, "mxml.gz": XMxmlGZIPSerializer}
TOP = {"XLog": "log", "XTrace": "trace", "XEvent": "event", "XLogInfo": "summary", "XExtension": "definition"}
REPEATS = 30


class Watch:
    """Weak references to elements, with what they are."""

    def __init__(self):
        self.refs = []

    def one(self, x, origin):
        name = type(x).__name__
        label = TOP.get(name, "attribute" if name.startswith("XAttribute") and name != "XAttributeMap" else name)
        try:
            self.refs.append((weakref.ref(x), label, origin))
        except TypeError:           # a class with slots; then what refers to its objects is watched
            pass

    def all(self, root, origin):
        elements = [root]
        name = type(root).__name__
        if name == "XLog":
            elements += list(root) + [e for t in root for e in t]
        elif name == "XTrace":
            elements += list(root)
        for e in elements:
            self.one(e, origin)
            self.one(e.get_attributes(), origin)
            if type(e).__name__ == "XEvent":
                self.one(e.get_id(), origin)
            for a in snap.walk_attributes(e.get_attributes()):
                self.one(a, origin)
        if name == "XLog":
            for a in list(root.get_global_trace_attributes()) + list(root.get_global_event_attributes()):
                self.one(a, origin)

    def left(self):
        return [(label, origin) for ref, label, origin in self.refs if ref() is not None]


def watching_factory(watch, origin):
    """A factory that notes weakly what it makes."""
    class Watching(XFactory):
        pass

    def forward(name):
        def call(*args, **kwargs):
            out = getattr(XFactory, name)(*args, **kwargs)
            watch.one(out, origin)
            return out
        return staticmethod(call)
    for name in c20.NAMES:
        setattr(Watching, name, forward(name))
    return Watching()


# ---- the surroundings --------------------------------------------------------------------

class Around:
    """Checks that an operation leaves the process as it found it."""

    def __init__(self, ctx, kind, home=False, made=()):
        self.ctx, self.kind, self.made = ctx, kind, set(made)
        self.folders = [ctx.state["work"], ctx.state["tmp"], ctx.state["cwd"]] + ([] if home else [ctx.state["home"]])

    def __enter__(self):
        self.settings, self.files = settings(), [tree(f) for f in self.folders]
        self.open = open_files()

    def __exit__(self, kind, error, trace):
        if kind is not None:
            return
        self.ctx.same(open_files(), self.open, "files open after: " + self.kind)
        self.ctx.same(settings(), self.settings, "process-wide settings after: " + self.kind)
        after = [tree(f) for f in self.folders]
        for before, now in zip(self.files, after):
            self.ctx.same(sorted(set(now) - self.made), sorted(set(before) - self.made), "files in the folders after: " + self.kind)


class Parts(list):
    """Results that the user may drop one by one: (watch, what it holds)."""


# ---- operations --------------------------------------------------------------------------

class Refuses(io.RawIOBase):
    """A target that fails."""

    def writable(self):
        return True

    def write(self, data):
        raise OSError("no space")


class Unprintable:
    def __str__(self):
        raise ValueError("unprintable")


def quiet(call, *args):
    """Runs a call that may fail; says whether it did and drops the exception."""
    try:
        return call(*args), False
    except Violation:
        raise
    except Exception:
        return None, True


def some_log(rng, size=None):
    g = gen.Gen(rng, std_typed=True, nasty=rng.choice([0, 0.1]), finite=True, dates="utc")
    return gen.build_log(g.log(size or rng.choice(["tiny", "small", "small"])))


def tool(ctx, rng, table, kind):
    if rng.random() < 0.6:
        ctx.count("long-lived tools")
        return ctx.state["tools"][table[kind]]
    return table[kind]()


def put(ctx, name, data):
    path = os.path.join(ctx.state["work"], name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def parse_file(reader, path):
    with open(path, "rb") as f:
        return reader.parse(f)


def read(ctx, rng, watch, damaged=False):
    kind = rng.choice(list(READERS))
    data = c20.document(ctx, rng, kind.split(".")[0])
    if damaged:
        cut = data.rstrip()[:rng.randint(0, max(0, len(data.rstrip()) - 2))]
        data = cut if rng.random() < 0.7 else data + rng.choice([b"<", b"junk", b"<a/>"])
    if kind.endswith("gz"):
        data = gzip.compress(data)
        if damaged and rng.random() < 0.4:
            data = data[:rng.randint(1, len(data) - 1)]
    path = put(ctx, "in%d.%s" % (rng.randint(0, 3), kind), data)
    factory = watching_factory(watch, ("damaged " if damaged else "") + "read of " + kind)
    kept = rng.random() < 0.6
    universal = rng.random() < 0.3
    if universal:
        reader = XUniversalParser()
        XFactoryRegistry().set_current_default(factory)
    elif kept:
        ctx.count("long-lived tools")
        reader = ctx.state["tools"][READERS[kind]]
        reader.factory = factory
    else:
        reader = READERS[kind](factory)
    before = len(watch.refs)
    with Around(ctx, "read of " + kind):
        logs, failed = quiet(parse_file, reader, path)
    XFactoryRegistry().set_current_default(ctx.state["standard"])
    if kept and not universal:
        reader.factory = None
    if failed:
        ctx.count("reads that failed")
        ctx.count("made by failed reads", len(watch.refs) - before)
    else:
        for log in logs:
            watch.all(log, "read of " + kind)
    return logs or []


def write_file(writer, log, path):
    with open(path, "wb" if path.endswith("gz") else "w", **({} if path.endswith("gz") else {"encoding": "utf-8"})) as f:
        writer.serialize(log, f)


def write(ctx, rng, watch, failing=False):
    kind = rng.choice(list(WRITERS))
    log = some_log(rng)
    if failing and (rng.random() < 0.5 or kind.endswith("gz")):
        bad = XFactory.create_attribute_literal("bad", "x")
        bad.set_value(Unprintable())
        rng.choice([log] + list(log) + [e for t in log for e in t]).get_attributes()["bad"] = bad
    watch.all(log, "write of " + kind)
    writer = tool(ctx, rng, WRITERS, kind)
    path = os.path.join(ctx.state["work"], "out%d.%s" % (rng.randint(0, 3), kind))
    there = os.path.exists(path)
    with Around(ctx, "write of " + kind, made=[path]):
        if failing and not kind.endswith("gz") and "bad" not in str(log.get_attributes().keys()) and rng.random() < 0.8:
            _, failed = quiet(writer.serialize, log, Refuses(), True)
        elif rng.random() < 0.3 and not kind.endswith("gz"):
            _, failed = quiet(writer.serialize, log, io.BytesIO(), True)
        else:
            _, failed = quiet(write_file, writer, log, path)
            if not there:
                ctx.count("files written")
    if failed:
        ctx.count("writes that failed")
    return [log]


def clone(ctx, rng, watch):
    """The original and its clones are dropped independently of each other."""
    log = some_log(rng)
    watch.all(log, "cloned log")
    things = [log] + list(log) + [e for t in log for e in t]
    parts = Parts([(watch, [log])])
    attributes = list(log.get_attributes().values())[:2]
    with Around(ctx, "clone"):
        for x in rng.sample(things, min(len(things), 3)) + attributes:
            parts.append((Watch(), [x.clone()]))
    for own, (x,) in parts[1:]:
        own.one(x, "cloned attribute") if type(x).__name__.startswith("XAttribute") else own.all(x, "clone")
    return parts


def classifiers(rng):
    return rng.sample([XEventNameClassifier(), XEventResourceClassifier(), XEventAttributeClassifier("mine", ["a", "concept:name"]),
                       XEventAndClassifier([XEventNameClassifier(), XEventAttributeClassifier("b", ["b"])])], rng.randint(0, 3))


class Unclonable(XAttributeLiteral):
    def clone(self):
        raise ValueError("unclonable")

    def __str__(self):
        raise ValueError("unprintable")

    def get_extension(self):
        raise ValueError("no extension")


class Unanswered(XEventNameClassifier):
    def get_class_identity(self, event):
        raise KeyError("no class")


def failing_calls(ctx, rng, watch):
    """Calls that fail half-way through a log; the log is complete again afterwards."""
    log = some_log(rng, "small")
    watch.all(log, "log with faults")
    holders = [log] + list(log) + [e for t in log for e in t]
    fault = rng.choice(["attribute", "attribute", "foreign trace", "foreign event", "timestamp", "none"])
    at = rng.choice(holders)
    traces = [t for t in log if len(t)] or [None]
    t = rng.choice(traces)
    if fault == "attribute":
        at.get_attributes()[rng.choice(["bad", "concept:name"])] = Unclonable("bad", "x")
    elif fault == "foreign trace":
        list.append(log, 5)
    elif fault == "foreign event" and t is not None:
        list.append(t, 5)
    elif fault == "timestamp" and t is not None:
        t[0].get_attributes()["time:timestamp"] = XFactory.create_attribute_literal("time:timestamp", "soon")
    new = XFactory.create_event()
    XTimeExtension().assign_timestamp(new, 1000)
    calls = [("clone", log.clone), ("clone", at.clone), ("summary", lambda: XLogInfo.create(log)),
             ("summary with classifiers", lambda: XLogInfo.create(log, XEventNameClassifier(), [Unanswered(), XEventNameClassifier()])),
             ("factory summary", lambda: XLogInfoFactory.create_log_info(log, Unanswered())),
             ("event classes", lambda: XEventClasses.derive_event_classes(Unanswered(), log)),
             ("extensions", log.get_extensions), ("text", lambda: str(at)), ("equality", lambda: [x == 5 for x in holders]),
             ("nested amounts", lambda: XCostExtension().assign_nested_amounts(at, {("a", 5): 1.0, 7: 2.0})),
             ("nested types", lambda: XCostExtension().extract_nested_types(at)),
             ("accessor", lambda: XTimeExtension().assign_timestamp(at, "soon")),
             ("accessor", lambda: XTimeExtension().extract_timestamp(None)),
             ("extended event", lambda: XExtendedEvent.wrap(5).set_name("x")),
             ("identifier", lambda: XID.parse("not an identifier")),
             ("derived", lambda: XAttributeUtils.derive_prototype(None)),
             ("extension", lambda: XExtensionManager().get_by_uri(5)), ("mapping", lambda: XGlobalAttributeNameMap().map(None, None))]
    if t is not None:
        calls.append(("ordered insertion", lambda: t.insert_ordered(new if rng.random() < 0.5 else 5)))
    for name, writer in WRITERS.items():
        path = os.path.join(ctx.state["work"], "fails." + name)
        calls.append(("write of " + name, lambda writer=writer, path=path: write_file(ctx.state["tools"][writer], log, path)))
    for what, call in rng.sample(calls, rng.randint(2, 8)):
        with Around(ctx, "failing %s (%s)" % (what, fault), made=[os.path.join(ctx.state["work"], "fails." + k) for k in WRITERS]):
            result, failed = quiet(call)
            ctx.count("calls that failed", failed)
            result = None
    list.__setitem__(log, slice(None), [x for x in log if x != 5])
    for t in log:
        list.__setitem__(t, slice(None), [x for x in t if type(x) is not int])
    return [log]


def summary(ctx, rng, watch):
    log = some_log(rng)
    watch.all(log, "summarised log")
    out = [log]
    with Around(ctx, "summary"):
        chosen = classifiers(rng)
        info = rng.choice([lambda: XLogInfo.create(log, None, chosen), lambda: XLogInfo.create(log),
                           lambda: XLogInfoFactory.create_log_info(log, chosen[0] if chosen else None),
                           lambda: XLogInfoFactory.create_log_info(log)])()
        out.append(info)
        for c in info.get_event_classifiers():
            out.append(info.get_event_classes(c))
        classes = XEventClasses.derive_event_classes(XEventNameClassifier(), log)
        out.append(classes)
        for t in log:
            info.get_trace_time_boundaries(t)
    watch.one(info, "summary")
    watch.one(classes, "event classes")
    for a in (info.get_event_attribute_info(), info.get_meta_attribute_info()):
        watch.one(a, "attribute statistics")
    for c in classes.get_classes():
        watch.one(c, "event class")
    return out


def compare(ctx, rng, watch):
    log = some_log(rng)
    other = log.clone()
    for x in (log, other):
        watch.all(x, "compared log")
    with Around(ctx, "comparison"):
        assert log == log and (log == other) in (True, False)
        for t, u in zip(log, other):
            assert (t == u) in (True, False) and hash(t) == hash(t)
            for e in t:
                hash(e), e == rng.choice(t), hash(e.get_id())
        everything = [a for e in [log] + list(log) + [e for t in log for e in t] for a in snap.walk_attributes(e.get_attributes())]
        for kind in set(map(snap.kind, everything)) - {"list", "container"}:
            sorted(a for a in everything if snap.kind(a) == kind)
        for a in everything:
            hash(a), str(a), a == rng.choice(everything)
            XAttributeUtils.get_type_string(a)
    return [log, other]


def access(ctx, rng, watch):
    log = some_log(rng, "small")
    watch.all(log, "log with accessors")
    views = []
    with Around(ctx, "accessors"):
        for t in log:
            XConceptExtension().assign_name(t, "name")
            XConceptExtension().extract_name(t)
            XCostExtension().assign_nested_amounts(t, {("a", "b"): 1.5})
            XCostExtension().extract_nested_amounts(t)
            for e in t:
                view = XExtendedEvent.wrap(e)
                view.set_name("n")
                view.get_name()
                view.get_extensions()
                XTimeExtension().extract_timestamp(e)
                views.append(view)
    for v in views:
        watch.one(v, "extended event")
    watch.all(log, "log with accessors")
    return [log] + views


def take_out(ctx, rng, watch):
    """Elements taken out of a living log are released."""
    log = some_log(rng, "small")
    gone = Watch()
    with Around(ctx, "editing"):
        for _ in range(rng.randint(1, 4)):
            traces = [t for t in log if len(t)]
            what = rng.choice(["trace", "event", "attribute", "replace", "map", "insert"])
            if what == "trace" and len(log):
                t = log.pop(rng.randrange(len(log)))
                if not any(t is x for x in log):
                    gone.one(t, "trace taken out")
            elif what == "event" and traces:
                t = rng.choice(traces)
                e = t.pop(rng.randrange(len(t)))
                if not any(e is x for y in log for x in y):
                    gone.one(e, "event taken out")
            elif what == "insert" and traces:
                t = rng.choice(traces)
                e = XFactory.create_event()
                XTimeExtension().assign_timestamp(e, 1000)
                quiet(t.insert_ordered, e)                      # fails if a timestamp was replaced by a text
                t[:] = [x for x in t if x is not e]
                gone.one(e, "event inserted and taken out")
            elif what in ("attribute", "replace"):
                e = rng.choice([log] + list(log) + [x for y in log for x in y])
                if e.get_attributes():
                    key = rng.choice(list(e.get_attributes()))
                    a = e.get_attributes()[key]
                    if what == "replace":
                        e.get_attributes()[key] = XFactory.create_attribute_literal(key, "new")
                    else:
                        del e.get_attributes()[key]
                    e.get_extensions()
                    gone.one(a, "attribute taken out")
            elif what == "map":
                e = rng.choice([log] + list(log) + [x for y in log for x in y])
                gone.one(e.get_attributes(), "attribute map taken out")
                e.set_attributes(XFactory.create_attribute_map())
            t = e = a = x = None
    traces = t = e = a = x = None
    gc.collect()
    ctx.count("taken out", len(gone.refs))
    ctx.check(not gone.left(), "elements taken out of a log are not released", which=gone.left()[:5])
    watch.all(log, "edited log")
    return [log]


DEFINITION = """<?xml version="1.0" encoding="UTF-8"?>
<xesextension name="Kept%d" prefix="kept%d" uri="%s">
<log><string key="a"><alias mapping="EN" name="A"/></string></log><event><date key="d"/></event><meta><int key="n"/></meta>
</xesextension>"""


def definition(ctx, rng, watch):
    n = rng.randint(0, 5)
    text = DEFINITION % (n, n, "http://example.org/rv/kept%d.xesext" % n)
    bad = rng.random() < 0.4
    path = put(ctx, "def%d.xesext" % n, (text[:rng.randint(5, len(text) - 20)] if bad else text).encode())
    with Around(ctx, "extension definition"):
        e, failed = quiet(XExtensionParser.parse if rng.random() < 0.5 else XExtensionParser().parse,
                          rng.choice([path, Path(path).as_uri()]))
    if e is not None:
        watch.one(e, "definition")
        for a in e.get_defined_attributes():
            watch.one(a, "defined attribute")
    return [e]


def cache(ctx, rng, watch):
    n = rng.randint(6, 9)
    path = os.path.join(ctx.state["serve"], "kept%d.xesext" % n)
    uri = Path(path).as_uri()
    if rng.random() < 0.3 and os.path.exists(path):
        os.remove(path)
    elif not os.path.exists(path):
        with open(path, "w") as f:
            f.write(DEFINITION % (n, n, uri) if rng.random() < 0.8 else "damaged")
    manager = XExtensionManager()
    with Around(ctx, "extension cache", home=True):
        quiet(manager.cache_extension, urlparse(uri))
        quiet(manager.load_extension_cache)
    return []


def lookups(ctx, rng, watch):
    with Around(ctx, "lookups"):
        manager = XExtensionManager()
        manager.get_by_name("Concept"), manager.get_by_prefix("nothing"), manager.get_by_index(99), manager.get_by_uri("x")
        XParserRegistry().get_available(), XSerializerRegistry().get_available(), XSerializerRegistry().current_default()
        names = XGlobalAttributeNameMap()
        names.get_mapping("EN"), names.map("concept:name"), names.get_standard_mapping()
        XUniversalParser.can_parse("a.xes")
        XIDFactory().create_id()
    return []


OPS = {"failing calls": failing_calls, "read": read, "damaged read": lambda c, r, w: read(c, r, w, True), "write": write,
       "failing write": lambda c, r, w: write(c, r, w, True), "clone": clone, "summary": summary, "compare": compare,
       "access": access, "take out": take_out, "definition": definition, "cache": cache, "lookups": lookups}


# ---- the workload ------------------------------------------------------------------------

def setup(ctx):
    gen.register_custom()
    for name in ("work", "tmp", "cwd", "home", "serve"):
        ctx.state[name] = os.path.join(ctx.scratch, name)
        os.makedirs(ctx.state[name])
    os.environ["HOME"] = ctx.state["home"]
    os.environ["TMPDIR"] = ctx.state["tmp"]
    tempfile.tempdir = ctx.state["tmp"]
    os.chdir(ctx.state["cwd"])
    ctx.state["tools"] = {cls: cls() for table in (READERS, WRITERS) for cls in table.values()}
    ctx.state["standard"] = XFactoryRegistry().current_default()
    urllib.request.urlopen(Path(__file__).as_uri()).close()        # Python installs its opener at the first use
    ctx.state["settings"] = settings()
    rng = random.Random(5)
    for _ in range(3):
        for op in OPS.values():             # lazily imported modules, codecs and caches of Python itself
            warm(ctx, op, rng)


def warm(ctx, op, rng):
    real = Around.__exit__
    Around.__exit__ = lambda *args: None
    counters = collections.Counter(ctx.counters)
    try:
        quiet(op, ctx, rng, Watch())
    finally:
        Around.__exit__ = real
        ctx.counters = counters


IMPORTS = """
import sys
sys.path[:0] = [%r, %r]
from rv.process import open_files, settings
import importlib, random
before = settings(), open_files()
path = list(sys.path)
for name in %r:
    importlib.import_module(name)
after = settings(), open_files()
print(["%%s: %%r, was %%r" %% (k, y[k], x[k]) for x, y in zip(before, after) for k in set(x) | set(y) if x.get(k) != y.get(k)])
"""


def imports(ctx, rng):
    """Importing the library, module by module in any order, changes nothing in a new process."""
    src = os.environ.get("RV_SRC", "/repo/src")
    names = [os.path.relpath(f, src)[:-3].replace(os.sep, ".") for f in tree(os.path.join(src, "opyenxes"))
             if f.endswith(".py") and os.path.basename(f) not in ("__init__.py", "cli.py")]
    rng.shuffle(names)
    done = subprocess.run([sys.executable, "-c", IMPORTS % (src, os.path.dirname(os.path.dirname(os.path.dirname(__file__))), names)],
                          capture_output=True, text=True, cwd=ctx.state["cwd"])
    ctx.check(done.returncode == 0, "the library cannot be imported", order=names, error=done.stderr[-1500:])
    ctx.check(done.stdout.strip() == "[]", "importing the library changes the process", changes=done.stdout)
    ctx.count("imports", len(names))


def release(ctx, units, chosen, kinds):
    """The user drops some results while it keeps the others."""
    watches = [units[n][0] for n in chosen]
    for n in sorted(chosen, reverse=True):
        del units[n]
    gc.collect()
    for watch in watches:
        left = watch.left()
        ctx.check(not left, "%d of %d elements are still held after they were dropped" % (len(left), len(watch.refs)),
                  which=left[:6], operations=kinds, others=len(units), holders=holders(watch) if left else None)
        ctx.count("released", len(watch.refs))
        for _, label, _ in watch.refs:
            ctx.count("released " + label)
        if units:
            ctx.count("released while others were held", len(watch.refs))


def case(ctx, rng, i):
    if "imported" not in ctx.state:
        ctx.state["imported"] = True
        imports(ctx, rng)
    if i // 8 % 12 == 11:
        return repeated(ctx, rng)
    units, kinds, n = [], [], 0                     # (watch, what the user holds)
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(KINDS)
        kinds.append(kind)
        ctx.count("kind " + kind)
        watch = Watch()
        held = OPS[kind](ctx, rng, watch)
        if type(held) is Parts:
            units += held
        else:
            units.append((watch, held))
        n += len(watch.refs)
        watch = held = None
        if rng.random() < 0.4:
            release(ctx, units, rng.sample(range(len(units)), rng.randint(1, len(units))), kinds)
    release(ctx, units, range(len(units)), kinds)
    ctx.same(settings(), ctx.state["settings"], "process-wide settings since the process began")
    ctx.count("histories")
    ctx.distinct(repr((kinds, n)))


def holders(watch):
    """What still refers to a held element, for the report."""
    for ref, _, _ in watch.refs:
        x = ref()
        if x is not None:
            return [type(r).__name__ + " " + repr(r)[:150] for r in gc.get_referrers(x) if type(r).__name__ != "frame"][:5]


def measure():
    """Live objects, and entries of live containers. (Blocks of memory are no measure: Python itself loses some.)"""
    gc.collect()
    objects = gc.get_objects()
    return len(objects), sum(len(o) for o in objects if type(o) in (list, dict, set, collections.deque))


def repeated(ctx, rng):
    """One operation on one input, again and again: its traces must not add up."""
    name, op = rng.choice(fixed(ctx, rng))
    for _ in range(REPEATS):
        op()
    readings = [measure()]
    for _ in range(2):
        for _ in range(REPEATS):
            op()
        readings.append(measure())
    for what, values in zip(("live objects", "container entries"), zip(*readings)):
        growth = [b - a for a, b in zip(values, values[1:])]
        ctx.check(min(growth) < REPEATS, "%s grow with every repetition of: %s" % (what, name), growth=growth)
    ctx.count("repeated operations")
    ctx.count("repeated " + name.split(" of ")[0])
    ctx.distinct("repeated " + name + str(ctx.index))


def fixed(ctx, rng):
    tools = ctx.state["tools"]
    kind = rng.choice(list(READERS))
    data = c20.document(ctx, rng, kind.split(".")[0])
    ends = data.rstrip()[:-3]
    pack = gzip.compress if kind.endswith("gz") else bytes
    good, bad = put(ctx, "good." + kind, pack(data)), put(ctx, "bad." + kind, pack(ends))
    log = some_log(rng)
    view = None if not any(len(t) for t in log) else XExtendedEvent.wrap(next(t for t in log if len(t))[0])
    n = rng.randint(0, 5)
    extension = put(ctx, "def%d.xesext" % n, (DEFINITION % (n, n, "http://example.org/rv/kept%d.xesext" % n)).encode())
    out = os.path.join(ctx.state["work"], "out." + kind)
    chosen = classifiers(rng)
    path = os.path.join(ctx.state["serve"], "kept6.xesext")
    with open(path, "w") as f:
        f.write(DEFINITION % (6, 6, Path(path).as_uri()))
    at = [log] + list(log) + [e for t in log for e in t]

    def accessors():
        XConceptExtension().assign_name(at[-1], "n")
        XConceptExtension().extract_name(at[-1])
        XTimeExtension().assign_timestamp(at[-1], 5000)
        XCostExtension().assign_nested_amounts(at[-1], {("a", "b"): 1.5})
        XCostExtension().extract_nested_amounts(at[-1])
        if view is not None:
            view.set_name("x"), view.get_name(), view.get_extensions()

    def cached():
        XExtensionManager().cache_extension(urlparse(Path(path).as_uri()))
        XExtensionManager().load_extension_cache()

    def bounds():
        info = XLogInfo.create(log, None, chosen)
        info.get_event_classes().harmonize_indices()

    def ordered():
        for t in log[:1]:
            e = XFactory.create_event()
            XTimeExtension().assign_timestamp(e, timedelta(seconds=1) // timedelta(milliseconds=1))
            t.insert_ordered(e)
            t[:] = [x for x in t if x is not e]

    def looks():
        lookups_only()
        for x in at:
            for a in x.get_attributes().values():
                str(a), hash(a), a == a.clone()
    ops = [("read of " + kind, lambda: parse_file(tools[READERS[kind]], good)),
           ("read of %s with a new reader" % kind, lambda: parse_file(READERS[kind](), good)),
           ("read of %s with the universal reader" % kind, lambda: parse_file(XUniversalParser(), good)),
           ("damaged read of " + kind, lambda: quiet(parse_file, tools[READERS[kind]], bad)),
           ("write of " + kind, lambda: write_file(tools[WRITERS[kind]], log, out)),
           ("failing write of " + kind, lambda: quiet(tools[WRITERS[kind.split(".")[0]]].serialize, log, Refuses(), True)),
           ("clone", lambda: log.clone()), ("summary", bounds), ("factory summary", lambda: XLogInfoFactory.create_log_info(log)),
           ("definition", lambda: XExtensionParser().parse(extension)), ("cache", cached), ("accessors", accessors),
           ("ordered insertion", ordered), ("lookups", looks)]
    return ops


def lookups_only():
    manager = XExtensionManager()
    manager.get_by_name("Concept"), manager.get_by_prefix("nothing"), manager.get_by_index(99), manager.get_by_uri("x")
    XParserRegistry().get_available(), XSerializerRegistry().get_available(), XSerializerRegistry().current_default()
    names = XGlobalAttributeNameMap()
    names.get_mapping("EN"), names.map("concept:name"), names.get_standard_mapping()
    XUniversalParser.can_parse("a.xes")
    XIDFactory().create_id()
