"""Attribute statistics count every attribute exactly."""
import io
from collections import Counter

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XAttributeInfo import XAttributeInfo
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.utils.XAttributeUtils import XAttributeUtils

from rv import gen, mutate, snap, xesdoc

TECHNIQUE = "runtime monitor: statistics getters compared with a recount of the log through its attribute maps"
RULE = ("random logs (some with thousands of elements), built or read, with attributes of eight types at four levels, keys shared between levels, types and "
        "extensions, nesting up to 40 deep, elements that occur twice, and random histories of direct registrations in several "
        "statistics; prototypes edited at any depth; oracle: recount, snapshots; non-trivial: a key that occurs twice")
ASSUMPTIONS = ["the attribute time:timestamp of an event is a date", "the timestamps of one log either all have an offset or none has",
               "the attributes of an attribute are those in its attribute map"]
CASES = {"quick": 7500, "thorough": 80000}
CLASSES = {name: cls for cls, name in snap.KINDS}
TYPES = {"string": "LITERAL", "boolean": "BOOLEAN", "int": "DISCRETE", "float": "CONTINUOUS", "date": "TIMESTAMP", "id": "ID",
         "list": "LIST", "container": "CONTAINER"}
REQUIRED = ["checks", "summaries", "direct", "levels with attributes", "empty levels", "repeated keys", "same key of several types",
            "same key of several extensions", "same key at several levels", "meta attributes", "meta below depth 3", "deep chains",
            "read from documents", "elements twice", "prototypes edited", "later registrations", "shared attributes",
            "prototypes of definitions", "prototypes of identifiers", "huge logs"] + ["type " + k for k in CLASSES]


def setup(ctx):
    gen.register_custom()
    ctx.state["extensions"] = [XExtensionManager().get_by_index(n) for n in range(11)]


class Stats:
    """The recount of one level."""

    def __init__(self):
        self.first = {}
        self.ids = set()
        self.counts = Counter()
        self.types = {}
        self.extensions = {}

    def add(self, a):
        key = a.get_key()
        extension = a.get_extension()
        uri = None if extension is None else extension.get_uri().geturl()
        if key not in self.first:
            self.first[key] = (snap.kind(a), extension)
        self.counts[key] += 1
        self.types.setdefault(key, set()).add(snap.kind(a))
        self.extensions.setdefault(key, set()).add(uri)
        if snap.kind(a) == "id":
            self.ids.add(str(a.get_value()))


def recount(log):
    levels = {name: Stats() for name in ("log", "trace", "event", "meta")}
    deepest = 0

    def meta(a, depth):
        nonlocal deepest
        stack = [(iter(list(a.get_attributes().values())), depth)]
        while stack:
            items, depth = stack[-1]
            child = next(items, None)
            if child is None:
                stack.pop()
                continue
            deepest = max(deepest, depth)
            levels["meta"].add(child)
            stack.append((iter(list(child.get_attributes().values())), depth + 1))

    def element(name, x):
        for a in x.get_attributes().values():
            levels[name].add(a)
            meta(a, 1)
    element("log", log)
    for t in log:
        element("trace", t)
        for e in t:
            element("event", e)
    return levels, deepest


def neutral(ctx, a, kind, detail):
    """The value of a prototype."""
    if kind in ("list", "container"):
        return
    value = a.get_value()
    if kind == "string":
        ok = value == "UNKNOWN"
    elif kind == "boolean":
        ok = value is True
    elif kind in ("int", "float"):
        ok = value == 0 and type(value) is (int if kind == "int" else float)
    elif kind == "date":
        ok = snap.date_value(value, False)[0] == 62135596800 * 1000000
    else:
        ok = snap.kind(a) == "id" and value is not None
    ctx.check(ok, "a prototype of type %s has the value %r" % (kind, value), key=a.get_key(), **detail)


def check_info(ctx, rng, info, stats, detail):
    keys = set(stats.first)
    total = sum(stats.counts.values())
    ctx.count("levels with attributes" if keys else "empty levels")
    ctx.same(sorted(info.get_attribute_keys()), sorted(keys), "keys", **detail)
    prototypes = info.get_attributes()
    ctx.same(sorted(p.get_key() for p in prototypes), sorted(keys), "keys of the prototypes", **detail)
    by_key = {p.get_key(): p for p in prototypes}
    for key in keys:
        kind, extension = stats.first[key]
        p = by_key[key]
        if stats.counts[key] > 1:
            ctx.count("repeated keys")
        if len(stats.types[key]) > 1:
            ctx.count("same key of several types")
        if len(stats.extensions[key]) > 1:
            ctx.count("same key of several extensions")
        ctx.count("type " + kind)
        ctx.same(snap.kind(p), kind, "type of the prototype of %r" % key, **detail)
        ctx.check(p.get_extension() is extension, "extension of the prototype of %r" % key, got=p.get_extension(),
                  expected=extension, **detail)
        neutral(ctx, p, kind, detail)
        if kind == "id":
            ctx.count("prototypes of identifiers")
            ctx.check(str(p.get_value()) not in stats.ids, "the prototype of %r has the identifier of an attribute" % key, **detail)
        if rng.random() < 0.2:
            ctx.same(XAttributeUtils.get_type_string(p), TYPES[kind], "name of the type of a prototype", **detail)
            ctx.check(XAttributeUtils.get_type(p) is CLASSES[kind], "type of a prototype", **detail)
        for element in (key, p):
            ctx.same(info.get_frequency(element), stats.counts[key], "frequency of %r" % key, **detail)
            relative = info.get_relative_frequency(element)
            ctx.check(abs(relative - stats.counts[key] / total) < 1e-12, "relative frequency of %r: %r of %d / %d" % (
                key, relative, stats.counts[key], total), **detail)
    for kind, cls in CLASSES.items():
        expected = sorted(k for k in keys if stats.first[k][0] == kind)
        listing(ctx, info.get_attributes_for_type(cls), info.get_keys_for_type(cls), expected, by_key, "type " + kind, detail)
    used = {}
    for key in keys:
        extension = stats.first[key][1]
        uri = None if extension is None else extension.get_uri().geturl()
        used.setdefault(uri, (extension, []))[1].append(key)
    for e in ctx.state["extensions"]:
        used.setdefault(e.get_uri().geturl(), (e, []))
    used.setdefault(None, (None, []))
    for extension, expected in used.values():
        listing(ctx, info.get_attributes_for_extension(extension), info.get_keys_for_extension(extension), sorted(expected), by_key,
                "extension %s" % (extension and extension.get_prefix()), detail)
    listing(ctx, info.get_attributes_without_extension(), info.get_keys_without_extension(), sorted(used[None][1]), by_key,
            "no extension", detail)
    return by_key


def listing(ctx, prototypes, keys, expected, by_key, what, detail):
    ctx.same(sorted(keys), expected, "keys with " + what, **detail)
    ctx.same(sorted(p.get_key() for p in prototypes), expected, "prototypes with " + what, **detail)
    for p in prototypes:
        ctx.check(p is by_key[p.get_key()] or snap.attr(p) == snap.attr(by_key[p.get_key()]),
                  "the prototype of %r listed by %s is another one" % (p.get_key(), what), **detail)


def vary(ctx, rng, spec):
    """Few keys, many types and extensions."""
    pool = [gen.key_text(rng, 0.2) for _ in range(4)] + ["concept:name", "k"]
    uris = [None] + [uri for _, uri in dict(gen.STD, **gen.CUSTOM).values()]

    def visit(attrs, unique):
        taken = set()
        for a in list(attrs):
            if rng.random() < 0.5 and a.key != "time:timestamp" or a.key == "time:timestamp" and a.kind != "date":
                a.key = rng.choice(pool)
            if unique and a.key in taken:
                attrs.remove(a)
                continue
            taken.add(a.key)
            if rng.random() < 0.4:
                a.ext = rng.choice(uris)
            visit(a.kids, a.kind != "list")
    seen = set()
    for attrs in spec.all_attribute_lists():
        if id(attrs) not in seen:
            seen.add(id(attrs))
            visit(attrs, True)


def case(ctx, rng, i):
    if i % 4 == 3:
        return direct(ctx, rng)
    g = gen.Gen(rng, dates=rng.choice(["naive", "fixed"]), depth=rng.choice([1, 2, 4]), nasty=0.1)
    if i % 809 == 21:
        spec = g.huge(gen.HUGE[i // 809 % len(gen.HUGE)], rng.choice([600, 1100, 2100]))
        ctx.count("huge logs")
    else:
        spec = g.log(rng.choice([None, "small", "medium"]))
    vary(ctx, rng, spec)
    if rng.random() < 0.15:
        ctx.count("deep chains")
        rng.choice([spec.attrs] + [t[0] for t in spec.traces]).append(chain(rng, g))
        seen = set()
        spec.attrs = [a for a in spec.attrs if not (a.key in seen or seen.add(a.key))]
    if i % 4 == 1:
        ctx.count("read from documents")
        data, _ = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        log = XesXmlParser().parse(io.BytesIO(data))[0]
    else:
        log = gen.build_log(spec, style=rng.randint(0, 1))
        below_collections(rng, log)
    if len(log) and rng.random() < 0.2:
        ctx.count("elements twice")
        log.append(rng.choice(list(log)))
        t = rng.choice(list(log))
        if len(t):
            t.append(t[rng.randrange(len(t))])
    if len(log) and rng.random() < 0.2 and log.has_attributes():
        ctx.count("shared attributes")
        a = rng.choice(list(log.get_attributes().values()))
        log[0].get_attributes()[a.get_key()] = a
    definitions = snap.definitions() if i % 10 == 0 else None
    before = snap.log(log, ms=False, maps=True)
    stats, deepest = recount(log)
    detail = {"log": spec}
    ctx.sample(repr(spec))
    if any(n > 1 for s in stats.values() for n in s.counts.values()):
        ctx.distinct(repr(before))
    keys = [set(s.first) for s in stats.values()]
    if sum(len(k) for k in keys) > len(set().union(*keys)):
        ctx.count("same key at several levels")
    ctx.count("meta attributes", sum(stats["meta"].counts.values()))
    if deepest > 3:
        ctx.count("meta below depth 3")
    infos = []
    for _ in range(rng.choice([1, 1, 2])):
        ctx.count("summaries")
        info = XLogInfoFactory.create_log_info(log) if rng.random() < 0.5 else XLogInfo.create(log)
        found = {name: getattr(info, "get_%s_attribute_info" % name)() for name in stats}
        prototypes = []
        if infos and infos[-1] is info:
            continue
        for name, s in stats.items():
            prototypes += check_info(ctx, rng, found[name], s, detail).values()
        ctx.same(snap.log(log, ms=False, maps=True), before, "the log after collecting statistics", **detail)
        infos.append(info)
        if rng.random() < 0.7:
            ctx.count("prototypes edited")
            for p in prototypes:
                edit(rng, p)
            ctx.same(snap.log(log, ms=False, maps=True), before, "the log after editing prototypes", **detail)
            for name, s in stats.items():
                ctx.same(sorted(found[name].get_attribute_keys()), sorted(s.first), "keys after editing prototypes", **detail)
        for name in rng.sample(sorted(stats), 4):
            again = getattr(info, "get_%s_attribute_info" % name)()
            ctx.check(again is not None and sorted(again.get_attribute_keys()) == sorted(stats[name].first), "the statistics asked for again", **detail)
    if definitions is not None:
        ctx.same(snap.definitions(), definitions, "the definitions of the extensions after collecting statistics")


def chain(rng, g):
    if rng.random() < 0.5:
        return g.deep(rng.choice([4, 8]))
    return gen.Gen(rng, dates=g.o["dates"], kinds=["string", "int", "id", "boolean"]).deep(rng.choice([15, 40]))


def edit(rng, p):
    mutate.new_value(rng, p, snap.kind(p))
    for a in [p] + list(snap.walk_attributes(p.get_attributes())):
        if rng.random() < 0.5:
            mutate.attribute(rng, a)


def below_collections(rng, log):
    """Members of built collections sometimes also in their maps."""
    for m in [log.get_attributes()] + [t.get_attributes() for t in log]:
        for a in list(snap.walk_attributes(m)):
            if snap.kind(a) in ("list", "container") and rng.random() < 0.5:
                for member in a.get_collection():
                    a.get_attributes()[member.get_key()] = member


def direct(ctx, rng):
    """Registrations in several statistics, observed in between."""
    ctx.count("direct")
    g = gen.Gen(rng, dates=None, depth=2, nasty=0.1)
    spec = gen.L()
    spec.attrs = g.attributes(rng.randint(3, 12), unique=False)
    pool = [gen.build_attribute(a) for a in spec.attrs]
    keys = [a.get_key() for a in pool]
    for a in list(pool):
        k = rng.choice(keys)
        e = rng.choice([None] + ctx.state["extensions"])
        pool.append(rng.choice([lambda: XFactory.create_attribute_boolean(k, False, e),
                                lambda: XFactory.create_attribute_discrete(k, 7, e),
                                lambda: XFactory.create_attribute_continuous(k, 7.5, e),
                                lambda: XFactory.create_attribute_list(k, e)])())
    definitions = None
    if rng.random() < 0.5:
        ctx.count("prototypes of definitions")
        e = rng.choice(ctx.state["extensions"][:8])
        pool += list(e.get_defined_attributes())
        definitions = snap.extension(e)
    before = [snap.attr(a, ms=False, maps=True) for a in pool]
    infos = [(XAttributeInfo(), Stats()) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(1, 10)):
            info, stats = rng.choice(infos)
            a = rng.choice(pool)
            info.register(a)
            stats.add(a)
        for info, stats in infos:
            if stats.first:
                by_key = check_info(ctx, rng, info, stats, {"registered": dict(stats.counts)})
        ctx.count("later registrations")
    ctx.same([snap.attr(a, ms=False, maps=True) for a in pool], before, "attributes after their registration")
    for info, stats in infos:
        for p in info.get_attributes():
            edit(rng, p)
    for a in pool:
        p = XAttributeUtils.derive_prototype(a)
        ctx.same((p.get_key(), snap.kind(p)), (a.get_key(), snap.kind(a)), "key and type of a derived prototype")
        ctx.check(p.get_extension() is a.get_extension(), "extension of a derived prototype")
        neutral(ctx, p, snap.kind(p), {})
        if snap.kind(a) == "id":
            ctx.check(p.get_value() != a.get_value(), "a derived prototype has the identifier of the attribute")
        edit(rng, p)
    ctx.same([snap.attr(a, ms=False, maps=True) for a in pool], before, "attributes after editing prototypes")
    if definitions is not None:
        ctx.same(snap.extension(e), definitions, "the definitions of the extension after editing prototypes")
