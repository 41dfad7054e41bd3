"""Models are built by the configured factory and registries."""
import gzip
import io
import os
import uuid

from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
from opyenxes.id.XID import XID
from opyenxes.utils.XRegistry import XRegistry

from rv import gen, mutate, sched, snap, xesdoc
from rv.props import c07

TECHNIQUE = "runtime monitor: recording factories and reference registries observe who creates every element"
RULE = ("random XES and MXML documents read by plain, compressed, universal, reused and interleaved readers under changing default "
        "and explicit recording factories; random registry histories against a reference registry; direct factory calls with "
        "mutation of everything handed out; non-trivial: a read with an element, a registry history or a factory call")
ASSUMPTIONS = ["readers may copy attributes of standard extensions from the extension's definitions",
               "MXML documents as in C07, XES documents as in C03"]
STATEFUL = True
CASES = {"quick": 14000, "thorough": 140000}
REQUIRED = ["checks", "reads", "elements", "explicit factory", "default factory", "default changed between reads",
            "default changed after the reader was made", "reader xes", "reader xes gzip", "reader mxml", "reader mxml gzip",
            "reader universal", "interleaved reads", "registry histories", "default set", "registered again",
            "system registries", "factory calls", "shared state probes", "nested attributes by the default",
            "definitions by the default", "falsy instances", "standard attributes copied"]
NAMES = [n for n in dir(XFactory) if n.startswith("create_")]


def recorder(label):
    """A factory that notes every element it makes."""
    class Recording(XFactory):
        def __init__(self):
            self.made = []
            self.ids = set()

        def __repr__(self):
            return "<factory %s>" % label

    def forward(name):
        def call(self, *args, **kwargs):
            out = getattr(XFactory, name)(*args, **kwargs)
            self.made.append((name, out))
            self.ids.add(id(out))
            return out
        call.__name__ = name
        return call
    for name in NAMES:
        setattr(Recording, name, forward(name))
    return Recording()


def setup(ctx):
    gen.register_custom()
    registry = XFactoryRegistry()
    ctx.check(type(registry.current_default()) is XFactory, "the first default factory is %r" % registry.current_default())
    ctx.state["standard"] = registry.current_default()
    for r in (XParserRegistry(), XSerializerRegistry()):
        ctx.check(len(r.get_available()) == 4 and r.current_default() in r.get_available(), "a registry is incomplete",
                  available=r.get_available())
    for r, kinds in ((XParserRegistry(), {"XMxmlParser", "XMxmlGZIPParser", "XesXmlParser", "XesXmlGZIPParser"}),
                     (XSerializerRegistry(), {"XMxmlSerializer", "XMxmlGZIPSerializer", "XesXmlSerializer", "XesXmlGZIPSerializer"})):
        ctx.same({type(x).__name__ for x in r.get_available()}, kinds, "instances of a system registry")


def case(ctx, rng, i):
    what = i % 7
    try:
        if what < 4:
            reads(ctx, rng, i)
        elif what == 4:
            registries(ctx, rng, i)
        elif what == 5:
            calls(ctx, rng)
        else:
            library(ctx, rng, i)
    finally:
        XFactoryRegistry().set_current_default(ctx.state["standard"])


# ---- readers ---------------------------------------------------------------------------

def document(ctx, rng, kind):
    if kind == "mxml":
        maker = c07.Maker(ctx, rng)
        return maker.document()[0][0]
    g = gen.Gen(rng, depth=3, nasty=0.05)
    spec = g.log(rng.choice(["tiny", "small"]))
    return xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()[0]


READERS = {"xes": (XesXmlParser, "xes"), "xes gzip": (XesXmlGZIPParser, "xes"), "mxml": (XMxmlParser, "mxml"),
           "mxml gzip": (XMxmlGZIPParser, "mxml"), "universal": (None, None)}


class Reading:
    """One prepared read: how, with which factory, from what."""

    def __init__(self, ctx, rng, factories, n):
        self.reader = rng.choice(list(READERS))
        cls, kind = READERS[self.reader]
        self.explicit = rng.choice(factories) if cls is not None and rng.random() < 0.5 else None
        self.kind = kind or rng.choice(["xes", "mxml"])
        self.zipped = "gzip" in self.reader or (cls is None and rng.random() < 0.5)
        self.data = document(ctx, rng, self.kind)
        if cls is not None:
            self.parser = cls(self.explicit) if self.explicit is not None or rng.random() < 0.5 else cls()
            if self.explicit is not None and rng.random() < 0.3:
                self.parser = cls(factory=self.explicit)
            elif self.explicit is not None and rng.random() < 0.3:
                self.parser = cls(rng.choice(factories)) if rng.random() < 0.5 else cls()
                self.parser.factory = self.explicit
                ctx.count("factory replaced")
        else:
            self.parser = XUniversalParser() if rng.random() < 0.5 else XUniversalParser
        self.path = os.path.join(ctx.scratch, "r%d.%s%s" % (n, self.kind, ".gz" if self.zipped else ""))
        with open(self.path, "wb") as f:
            f.write(gzip.compress(self.data) if self.zipped else self.data)
        ctx.count("reader " + self.reader)
        ctx.count("explicit factory" if self.explicit is not None else "default factory")

    def run(self):
        if self.reader in ("xes", "mxml"):
            with io.BytesIO(self.data) as f:
                return self.parser.parse(f)
        with open(self.path, "rb") as f:
            return self.parser.parse(f)


def elements(logs):
    """(object, allowed to be a copy of a definition) of everything in the logs."""
    for log in logs:
        yield log, False
        roots = list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes())
        for e in [log] + list(log) + [e for t in log for e in t]:
            if e is not log:
                yield e, False
            roots.extend(e.get_attributes().values())
        seen = set()
        for root in roots:
            for a in [root] + list(snap.walk_attributes(root.get_attributes())) + \
                    (list(root.get_collection()) if snap.kind(root) in ("list", "container") else []):
                if id(a) not in seen:
                    seen.add(id(a))
                    yield a, a.get_extension() is not None


def reads(ctx, rng, i):
    factories = [recorder("%d-%d" % (i, n)) for n in range(3)]
    registry = XFactoryRegistry()
    current = ctx.state["standard"]
    if rng.random() < 0.4:
        for f in rng.sample(factories, 2):
            registry.register(f)           # registering alone does not make a default
    readings = [Reading(ctx, rng, factories, n) for n in range(rng.randint(1, 3))]
    ctx.distinct(b"".join(r.data for r in readings))
    ctx.sample([r.reader for r in readings])
    if rng.random() < 0.25 and len(readings) > 1:
        current = rng.choice(factories)
        registry.set_current_default(current)
        ctx.count("interleaved reads")
        results = sched.Baton(rng.getrandbits(30), 0.03).run([r.run for r in readings])
        for r, (ok, logs) in zip(readings, results):
            ctx.check(ok, "a read failed: %r" % (logs,), document=r.data)
            examine(ctx, r, logs, r.explicit or current, factories)
        others(ctx, factories, {id(r.explicit or current) for r in readings})
        return
    for n, r in enumerate(readings * 2 if rng.random() < 0.3 else readings):
        if rng.random() < 0.6:
            ctx.count("default changed after the reader was made" if r.explicit is None else "default changed between reads")
            current = rng.choice(factories + [ctx.state["standard"]])
            registry.set_current_default(current)
        ctx.check(registry.current_default() is current, "the default factory is not the one set")
        for f in factories:
            f.made.clear()
            f.ids.clear()
        logs = r.run()
        examine(ctx, r, logs, r.explicit or current, factories)
        others(ctx, factories, {id(r.explicit or current)})


def examine(ctx, r, logs, factory, factories):
    ctx.count("reads")
    detail = {"reader": r.reader, "explicit": r.explicit, "document": r.data}
    if not hasattr(factory, "made"):
        return
    n = 0
    for e, copied in elements(logs):
        n += 1
        if id(e) in factory.ids:
            continue
        if r.kind == "mxml" and copied:
            ctx.count("standard attributes copied")
            continue
        ctx.fail("the %s %s was not made by %r" % (type(e).__name__, getattr(e, "get_key", str)() if hasattr(e, "get_key") else "",
                                                   factory), **detail)
    ctx.count("elements", n)
    ctx.count("checks", n)


def others(ctx, factories, used):
    for f in factories:
        if id(f) not in used:
            ctx.check(not f.made, "a factory made elements although it was not in charge", factory=f, made=f.made[:5])


# ---- registries ------------------------------------------------------------------------

class Thing:
    """An instance for a registry; some are false in a boolean context."""

    def __init__(self, n, true=True):
        self.n, self.true = n, true

    def __bool__(self):
        return self.true

    def __repr__(self):
        return "Thing(%d)" % self.n


def registries(ctx, rng, i):
    ctx.count("registry histories")
    system = rng.random() < 0.3
    if system:
        registry = rng.choice([XFactoryRegistry, XParserRegistry, XSerializerRegistry])()
        system = len(registry.get_available()) < 80     # instances stay registered for the life of the process
    if system:
        ctx.count("system registries")
        first = registry.current_default()
        model, default = list(registry.get_available()), first
    else:
        registry, model, default = XRegistry(), [], None
        ctx.check(registry.get_available() == () and registry.current_default() is None, "a new registry is not empty")
    pool = []
    for n in range(rng.randint(1, 6)):
        if system:
            pool.append(recorder("x") if isinstance(registry, XFactoryRegistry) else Unused())
        elif rng.random() < 0.2:
            pool.append(Thing(n, False))
            ctx.count("falsy instances")
        else:
            pool.append(rng.choice([Thing(n), "text %d" % n, XFactory(), (n,)]))
    history = []
    for _ in range(rng.randint(2, 20)):
        x = rng.choice(pool + model[:2])
        known = any(y is x or y == x for y in model)
        if rng.random() < 0.35:
            ctx.count("default set")
            registry.set_current_default(x)
            default = x
            history.append(("default", x))
        else:
            if known:
                ctx.count("registered again")
            registry.register(x)
            if not model and default is None:
                default = x
            history.append(("register", x))
        if not known:
            model.append(x)
        available = registry.get_available()
        detail = {"history": history, "available": available}
        ctx.check(isinstance(available, tuple), "the available instances can be modified", **detail)
        ctx.check(len(available) == len(model), "the registry has %d instances instead of %d" % (len(available), len(model)), **detail)
        ctx.check(all(sum(y is x for y in available) == 1 for x in model if not isinstance(x, (str, tuple))),
                  "an instance is missing or there twice", **detail)
        ctx.check(all(x in available for x in model), "an instance is missing", **detail)
        ctx.check(registry.current_default() is default or registry.current_default() == default,
                  "the default is %r instead of %r" % (registry.current_default(), default), **detail)
        ctx.check(registry.current_default() in available, "the default is not a registered instance", **detail)
        for x in pool:
            ctx.check((x in registry) == any(y is x or y == x for y in model), "membership of %r" % (x,), **detail)
    ctx.distinct(repr(history))
    if system:
        registry.set_current_default(first)


class Unused:
    """Stands for a parser or serializer that handles no file."""

    def can_parse(self, file):
        return False

    def get_suffices(self):
        return ()

    def name(self):
        return "unused"


# ---- the standard factory --------------------------------------------------------------

KINDS = {"create_attribute_literal": ("string", "string"), "create_attribute_boolean": ("boolean", "boolean"),
         "create_attribute_continuous": ("float", "float"), "create_attribute_discrete": ("int", "int"),
         "create_attribute_timestamp": ("date", "date"), "create_attribute_id": ("id", "id"),
         "create_attribute_list": ("list", None), "create_attribute_container": ("container", None)}


def calls(ctx, rng):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    factory = rng.choice([XFactory, XFactory(), ctx.state["standard"]])
    g = gen.Gen(rng, depth=2)
    made = []                       # (object, how to look at it, what was seen)
    history = []
    for _ in range(rng.randint(4, 15)):
        ctx.count("factory calls")
        name = rng.choice(NAMES)
        if name == "create_attribute_map":
            out = factory.create_attribute_map()
            ctx.check(len(out) == 0 and isinstance(out, dict), "a new attribute map is not empty")
            made.append((out, lambda m: snap.attrs(m, False)))
        elif name in KINDS:
            kind, valued = KINDS[name]
            a = gen.A(g.key(), kind, g.value(kind))
            extension = XExtensionManager().get_by_index(rng.randrange(8)) if rng.random() < 0.5 else None
            value = XID(a.value) if kind == "id" else a.value
            args = (a.key, value) if valued else (a.key,)
            if rng.random() < 0.3:
                out = getattr(factory, name)(*args, extension=extension)
            elif extension is None and rng.random() < 0.5:
                out = getattr(factory, name)(*args)
            else:
                out = getattr(factory, name)(*args, extension)
            a.ext = None if extension is None else extension.get_uri().geturl()
            ctx.same(snap.attr(out, False), gen.canon(a, False), "the attribute that " + name + " made")
            ctx.check(out.get_extension() is extension, "the extension is another object")
            if kind == "date" and valued:
                ctx.same(out.get_value(), a.value, "the value of a timestamp")
            made.append((out, lambda x: snap.attr(x, False, maps=True)))
        else:
            attrs = g.attributes(rng.choice([0, 0, 1, 3]))
            mapping = gen.build_map(attrs, factory)
            if rng.random() < 0.3:
                mapping, attrs = None, []
            expected = gen.canon_attrs(attrs, False)
            identity = None
            if name == "create_event":
                style = rng.randint(0, 3)
                identity = XID(uuid.UUID(int=rng.getrandbits(128))) if style else None
                text = str(identity)
                out = [lambda: factory.create_event(mapping), lambda: factory.create_event(mapping, identity),
                       lambda: factory.create_event(attribute=mapping, identity=identity),
                       lambda: factory.create_event(mapping, identity=identity)][style]()
                if identity is not None:
                    ctx.same(str(out.get_id()), text, "the identity of a created event")
                else:
                    ctx.check(all(out.get_id() != x.get_id() for x, _ in made if hasattr(x, "get_id")), "two events with one identity")
            else:
                out = getattr(factory, name)() if mapping is None else getattr(factory, name)(mapping)
                ctx.check(len(out) == 0, "%s made something with members" % name)
            if name == "create_log":
                ctx.same(snap.log(out, False, features=True), dict(gen.canon_log(gen.L(), features=True), attrs=expected), "a created log")
                made.append((out, lambda x: snap.log(x, False, maps=True, ids=True, features=True)))
            elif name == "create_trace":
                ctx.same(snap.trace(out, False), {"attrs": expected, "events": []}, "a created trace")
                made.append((out, lambda x: snap.trace(x, False, maps=True, ids=True)))
            else:
                ctx.same(snap.event(out, False), {"attrs": expected}, "a created event")
                made.append((out, lambda x: snap.event(x, False, maps=True, ids=True)))
        history.append((name, made[-1][1](made[-1][0])))
        probe(ctx, rng, made)
    ctx.distinct(repr(history))


def probe(ctx, rng, made):
    """Changing one made object shows in no other."""
    k = rng.randrange(len(made))
    seen = [look(x) for x, look in made]
    x = made[k][0]
    ctx.count("shared state probes")
    if isinstance(x, dict):
        x["added%d" % rng.randint(0, 10**9)] = XFactory.create_attribute_literal("k", "v")
        for key in list(x):
            x[key] = x[key] if x[key].get_key() == key else XFactory.create_attribute_literal(key, "v")
    elif hasattr(x, "get_classifiers"):
        mutate.log(rng, x)
    elif hasattr(x, "get_key"):
        mutate.attribute(rng, x)
    else:
        mutate.element(rng, x)
        if hasattr(x, "get_id"):
            x.get_id().set_uuid(uuid.UUID(int=rng.getrandbits(128)))
        else:
            x.append(XFactory.create_event())
    for n, (y, look) in enumerate(made):
        if n != k:
            ctx.same(look(y), seen[n], "a change to the object %d shows in the object %d" % (k, n))


# ---- what the library makes by itself --------------------------------------------------

def library(ctx, rng, i):
    factories = [recorder("%d-%d" % (i, n)) for n in range(2)]
    registry = XFactoryRegistry()
    for f in factories:
        registry.register(f)
    current = rng.choice(factories)
    registry.set_current_default(current)
    other = factories[0] if current is factories[1] else factories[1]
    if rng.random() < 0.5:
        ctx.count("nested attributes by the default")
        event = XFactory.create_event()
        paths = {tuple(rng.choice("abc") for _ in range(rng.randint(1, 4))): rng.random() + 0.1 for _ in range(rng.randint(1, 4))}
        XCostExtension().assign_nested_amounts(event, paths)
        for path in paths:
            node = event
            for key in path:
                node = node.get_attributes()[key]
                ctx.check(id(node) in current.ids, "an attribute on a path was not made by the default factory", path=path)
        ctx.distinct(repr(paths))
    else:
        ctx.count("definitions by the default")
        text = "<xesextension name='n' prefix='p%d' uri='urn:x'><%s>%s</%s></xesextension>"
        level = rng.choice(["log", "trace", "event", "meta"])
        kinds = [rng.choice(["string", "date", "int", "float", "boolean", "id"]) for _ in range(rng.randint(1, 4))]
        body = "".join("<%s key='k%d'/>" % (k, n) for n, k in enumerate(kinds))
        path = os.path.join(ctx.scratch, "def.xesext")
        with open(path, "w") as f:
            f.write(text % (i, level, body, level))
        e = XExtensionParser.parse(path)
        attributes = getattr(e, "get_%s_attributes" % level)()
        ctx.check(len(attributes) == len(kinds), "attributes of a definition got lost")
        ctx.check(all(id(a) in current.ids for a in attributes), "a defined attribute was not made by the default factory")
        ctx.distinct(text % (i, level, body, level))
    ctx.check(not other.made, "a factory that is not the default made elements", made=other.made[:5])
