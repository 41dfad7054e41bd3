"""Equality, order and hash obey their laws."""
import uuid
from datetime import timedelta, timezone

from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClass import XEventClass
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID

from rv import gen, mutate, snap

TECHNIQUE = "runtime monitor: algebraic laws checked on all pairs and triples of generated object pools"
RULE = ("pools of 5-14 objects of one type (six attribute types with values, lists and containers, identifiers, event "
        "classes, classifiers) and of mixed types, with values that are equal, adjacent or easily confused; every pair is "
        "compared with every operator in both directions, every triple for transitivity, several orders are sorted; events, "
        "traces, extended events and extensions for their equality and hashes over edits; oracle: order of (key, value) "
        "computed from plain values; non-trivial: pool with at least two different objects")
ASSUMPTIONS = ["no NaN; the timestamps of a pool either all have a fixed offset or none has"]
CASES = {"quick": 45000, "thorough": 450000}
REQUIRED = ["checks", "pairs", "equal pairs", "triples", "sorts", "pool string", "pool int", "pool float", "pool boolean",
            "pool id", "pool date", "pool list", "pool container", "pool XID", "pool class", "pool classifier",
            "pool mixed", "pool events", "pool traces", "pool extensions", "pool extended"]

TEXTS = ["", "a", "b", "A", "B", "aa", "ab", "a b", " a", "a ", "é", "e\u0301", "ß", "ss", "z", "Z", "10", "9", "01", "1",
         "\U0001f600", "\ufffd", "\ue000", "zz", "\n", "\x7f"]
KEYS = ["a", "b", "A", "", "a:b", "a b", "concept:name", "é", "zz"]
INTS = [0, 1, -1, 2, 9, 10, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, -2**63, 10**30, 10**30 + 1, 255]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 2**-56, 0.30000000000000004, 0.3, 1e308, 5e-324, -5e-324, float("inf"), float("-inf"),
          2.0**53, 1e16, 1 / 3, 0.5, 1e-300]
IDS = [0, 1, 2**61 - 1, 2**61, 2**127 - 1, 2**127, 2**128 - 1, 2**64, 2**64 - 1, 255, 256, 1 << 60, 0x0fffffffffffffffffffffffffffffff]
POOLS = ["string", "int", "float", "boolean", "id", "date", "list", "container", "XID", "class", "classifier", "mixed",
         "events", "traces", "extensions", "extended"]


def setup(ctx):
    gen.register_custom()


def dates(rng):
    base = gen.naive(rng, 1000, 3000)
    aware = rng.random() < 0.5
    out = []
    for delta in (0, 1, 999, 1000, 1001, 10**6, 60 * 10**6, 3600 * 10**6, 7200 * 10**6, 86400 * 10**6, -1, -3600 * 10**6):
        value = base + timedelta(microseconds=delta)
        if aware:
            offset = timezone(timedelta(minutes=rng.choice([0, 60, 120, -60, 30, 330])))
            if rng.random() < 0.5:      # the same instant at another offset
                value = value.replace(tzinfo=timezone.utc).astimezone(offset)
            else:
                value = value.replace(tzinfo=offset)
        out.append(value)
    return out


def values(rng, kind):
    if kind == "string":
        r = rng.random()
        return TEXTS if r < 0.75 else gen.alike(rng, 3, 4100) if r < 0.8 else [gen.text(rng) for _ in range(6)]
    if kind == "int":
        return INTS if rng.random() < 0.8 else [gen.integer(rng) for _ in range(6)]
    if kind == "float":
        return FLOATS if rng.random() < 0.8 else [gen.real(rng, True) for _ in range(6)]
    if kind == "boolean":
        return [True, False]
    if kind == "id":
        return [uuid.UUID(int=v) for v in IDS] if rng.random() < 0.8 else [gen.uid(rng) for _ in range(6)]
    if kind == "date":
        return dates(rng)
    return [None]


def rank(kind, value):
    """The place of a plain value in the order of its kind."""
    if kind == "id":
        return value.int
    if kind == "date":
        return snap.date_micros(value)[0]
    return value


class Item:
    """An object with its plain sort key."""

    def __init__(self, obj, key, ordered=True):
        self.obj, self.key, self.ordered = obj, key, ordered


def attribute(rng, kind, key, value, kids=()):
    spec = gen.A(key, kind, value, rng.choice([None, None, gen.STD["concept"][1], gen.STD["cost"][1]]), kids)
    made = gen.build_attribute(spec)
    if value is None or rng.random() < 0.7:
        return made
    earlier = value + timedelta(seconds=-1 if value.year > 1000 else 1) if kind == "date" else rng.choice(values(rng, kind))
    old = gen.build_attribute(gen.A(key, kind, earlier, spec.ext, kids))
    used(old, made)
    old.set_value(made.get_value())
    return old


def used(x, other):
    """The object takes part in comparisons before it is changed."""
    for y in (x, other):
        hash(x), str(x), x == y, y == x, x != y, x.compare_to(y), x < y, x >= y, {x: 1, y: 2}


def attributes(rng, kind):
    pool = values(rng, kind)
    pool = rng.sample(pool, min(len(pool), rng.randint(1, 5)))
    keys = rng.sample(KEYS, rng.choice([1, 2, 2, 4]))
    if rng.random() < 0.03:
        keys = gen.alike(rng, 2, 1100)
    out = []
    for _ in range(rng.randint(5, 12)):
        key, value = rng.choice(keys), rng.choice(pool)
        kids = [gen.A("k%d" % n, "string", "x") for n in range(rng.choice([0, 0, 1, 2]))]
        out.append(Item(attribute(rng, kind, key, value, kids),
                        (key,) if value is None else (key, rank(kind, value))))
    return out


def ids(rng):
    pool = rng.sample([uuid.UUID(int=v) for v in IDS] + [gen.uid(rng) for _ in range(4)], rng.randint(2, 7))
    if rng.random() < 0.4:      # the same number modulo those of hashes and fields
        first = rng.choice(pool).int
        pool += [uuid.UUID(int=(first + d * rng.choice([1, 2])) % 2**128) for d in (2**61 - 1, 2**64, 2**96, 2**31 - 1)]
    out = []
    for _ in range(rng.randint(5, 12)):
        value = rng.choice(pool)
        text = str(value)
        obj = XID(value) if rng.random() < 0.5 else XID.parse(rng.choice([text, text.upper()]))
        if rng.random() < 0.3:
            other, obj = obj, XID()
            used(obj, other)
            obj.set_uuid(value)
        out.append(Item(obj, (value.int,)))
    return out


def classes(rng):
    pool = rng.sample(TEXTS, rng.randint(2, 7))
    if rng.random() < 0.1:
        pool = gen.alike(rng, 3, 4100)
    out = []
    for _ in range(rng.randint(5, 12)):
        name = rng.choice(pool)
        obj = XEventClass(name, rng.randint(0, 5))
        obj.set_size(rng.randint(0, 9))
        out.append(Item(obj, (name,)))
    return out


def classifiers(rng):
    names = rng.sample(["c", "d", "", "Event Name", "Resource", "(c AND d)", "C", "é"], 3)
    keys = rng.sample(["a", "b", "concept:name", "org:resource", "aa", "", "é"], 4)
    r = rng.random()
    if r < 0.1:
        names = gen.alike(rng, 3, 1100)
    elif r < 0.2:
        keys = gen.alike(rng, 4, 1100)
    many = rng.random() < 0.15 and ["key %d" % n for n in range(rng.choice([7, 20, 70]))]
    out = []
    for _ in range(rng.randint(5, 12)):
        r = rng.random()
        if r < 0.2:
            obj = rng.choice([XEventNameClassifier, XEventResourceClassifier, XEventLifeTransClassifier])()
        elif r < 0.3:
            obj = XEventAndClassifier([XEventAttributeClassifier(rng.choice(["c", "d"]), [rng.choice(keys)])
                                       for _ in range(rng.choice([1, 2]))])
        elif r < 0.4:
            obj = XEventAttributeClassifier("Event Name", ["concept:name"])
        else:
            obj = XEventAttributeClassifier(rng.choice(names), rng.choice([list, list, tuple])(
                (many or []) + rng.sample(keys, rng.choice([0, 1, 1, 2, 2, 3]))))
        if rng.random() < 0.3:
            used(obj, XEventNameClassifier())
            obj.set_name(rng.choice(names))
        k = tuple(obj.get_defining_attribute_keys())
        out.append(Item(obj, (obj.name(), len(k), k)))
    return out


def mixed(rng):
    """Attributes of all kinds with equal keys and equal-looking values, and foreign objects."""
    out = []
    for kind, value in [("string", "1"), ("int", 1), ("float", 1.0), ("boolean", True), ("int", 0), ("float", 0.0),
                        ("boolean", False), ("string", "true"), ("string", ""), ("list", None), ("container", None),
                        ("id", uuid.UUID(int=1)), ("string", str(uuid.UUID(int=1))), ("date", gen.naive(rng))]:
        for key in rng.sample(["a", "b"], rng.choice([1, 2])):
            out.append(Item(attribute(rng, kind, key, value), (kind, key, value), False))
    rng.shuffle(out)
    out = out[:11]
    for foreign in rng.sample([XID(uuid.UUID(int=1)), XEventClass("a", 0), XEventClass("1", 0), XEventNameClassifier(),
                               "a", "1", 1, 1.0, True, None, (), [], {}, object(), XFactory.create_attribute_map(),
                               XFactory.create_event()], 4):
        out.append(Item(foreign, ("foreign", id(foreign)), False))
    return out


def hashable(obj):
    return type(obj).__hash__ is not None


def check_pairs(ctx, items, kind):
    for a in items:
        for b in items:
            if isinstance(a.key, tuple) and isinstance(b.key, tuple) and a.key[:1] == b.key[:1] == ("foreign",):
                continue
            ctx.count("pairs")
            same = a.key == b.key
            x, y = a.obj, b.obj
            what = {"pool": kind, "left": a.key, "right": b.key}
            equal = x == y
            ctx.check(isinstance(equal, bool), "equality answers %r" % (equal,), **what)
            ctx.same(equal, same, "==", **what)
            ctx.same(x != y, not same, "!=", **what)
            if same and hashable(x) and hashable(y):
                ctx.count("equal pairs")
                ctx.same(hash(x), hash(y), "hashes of equal objects", **what)
            if a.ordered and b.ordered:
                order = (a.key > b.key) - (a.key < b.key)
                got = x.compare_to(y)
                ctx.check(isinstance(got, int) and not isinstance(got, bool) or isinstance(got, bool), "compare_to answers %r" % got)
                ctx.same((got > 0) - (got < 0), order, "compare_to", **what)
                for name, result, expected in (("<", x < y, order < 0), ("<=", x <= y, order <= 0), (">", x > y, order > 0),
                                               (">=", x >= y, order >= 0)):
                    ctx.check(bool(result) is expected, name + " disagrees", got=result, **what)


def check_laws(ctx, rng, items, kind):
    """The laws alone, without a reference order: pairs and triples."""
    objs = [i.obj for i in items]
    sign = lambda v: (v > 0) - (v < 0)                      # noqa: E731
    table = {(m, n): sign(x.compare_to(y)) for m, x in enumerate(objs) for n, y in enumerate(objs)}
    for m, x in enumerate(objs):
        for n, y in enumerate(objs):
            c = table[m, n]
            what = {"pool": kind, "left": items[m].key, "right": items[n].key}
            ctx.check(c == -table[n, m], "compare_to is not antisymmetric", **what)
            ctx.check((c == 0) == (x == y), "compare_to and == disagree", **what)
            ctx.check((x < y) == (c < 0) and (x <= y) == (c <= 0) and (x > y) == (c > 0) and (x >= y) == (c >= 0),
                      "operators and compare_to disagree", **what)
    picks = range(len(objs))
    for m in picks:
        for n in picks:
            for k in picks:
                ctx.counters["triples"] += 1
                if table[m, n] <= 0 and table[n, k] <= 0:
                    ctx.check(table[m, k] <= 0, "the order is not transitive",
                              items=(items[m].key, items[n].key, items[k].key), pool=kind)
    orders = []
    for _ in range(3):
        shuffled = list(items)
        rng.shuffle(shuffled)
        ranked = {id(i.obj): i.key for i in shuffled}
        orders.append([ranked[id(o)] for o in sorted(i.obj for i in shuffled)])
        ctx.count("sorts")
    ctx.check(orders[0] == orders[1] == orders[2], "sorting depends on the initial order", orders=orders, pool=kind)
    ctx.same(max(objs) == sorted(objs)[-1] and min(objs) == sorted(objs)[0], True, "min and max")


def case(ctx, rng, i):
    kind = POOLS[i // 8 % len(POOLS)]
    ctx.count("pool " + kind)
    if kind in ("events", "traces", "extensions", "extended"):
        globals()[kind](ctx, rng)
        return
    if kind in gen.KIND_NAMES:
        items = attributes(rng, kind)
    else:
        items = {"XID": ids, "class": classes, "classifier": classifiers, "mixed": mixed}[kind](rng)
    if len({i.key for i in items}) > 1:
        ctx.distinct(repr((kind, [i.key for i in items])))
    hashes = [hash(i.obj) if hashable(i.obj) else None for i in items]
    if kind == "boolean":
        for item in items:
            item.ordered = False
        check_pairs(ctx, items, kind)
        for a in items:                       # by key first, whatever the order of the two values
            for b in items:
                if a.key[0] != b.key[0]:
                    ctx.check((a.obj < b.obj) is (a.key[0] < b.key[0]), "the order of keys", keys=(a.key, b.key))
        check_laws(ctx, rng, items, kind)
    elif kind == "mixed":
        check_pairs(ctx, items, kind)
    else:
        check_pairs(ctx, items, kind)
        check_laws(ctx, rng, items, kind)
    for item, value in zip(items, hashes):
        if value is not None:
            ctx.same(hash(item.obj), value, "a hash changed while the object did not", pool=kind, item=item.key)
    if kind in gen.KIND_NAMES and kind not in ("list", "container", "boolean"):
        # new values obey the laws too
        pool = values(rng, kind)
        if kind != "date":
            for item in rng.sample(items, 3):
                value = rng.choice(pool)
                item.obj.set_value(XID(value) if kind == "id" else value)
                item.key = (item.key[0], rank(kind, value))
            check_pairs(ctx, items, kind)
            check_laws(ctx, rng, items, kind)
    ctx.sample({"pool": kind, "items": [i.key for i in items][:8]})


def by_number(ctx, items, what):
    """Equality and hashes of objects against plain keys; no order."""
    for item in items:
        item.ordered = False
    check_pairs(ctx, items, what)
    ctx.distinct(repr((what, [i.key for i in items])))


def events(ctx, rng):
    g = gen.Gen(rng, nasty=0.1)
    pool = [gen.uid(rng) for _ in range(3)]
    items = []
    for _ in range(rng.randint(4, 9)):
        event = gen.build_event(g.event(rng.randint(0, 2)))
        if rng.random() < 0.6:
            value = rng.choice(pool)
            event.set_id(XID(value))
        else:
            value = event.get_id().get_uuid()
        items.append(Item(event, value.int))
    twin = gen.build_event(g.event(1))
    items.append(Item(twin, twin.get_id().get_uuid().int))
    items.append(Item(twin.clone(), "clone"))
    by_number(ctx, items, "events")
    hashes = [hash(i.obj) for i in items]
    for item in items:
        for _ in range(3):
            mutate.element(rng, item.obj)
        str(item.obj)
    by_number(ctx, items, "events after edits of their attributes")
    ctx.same([hash(i.obj) for i in items], hashes, "hashes of events after edits of their attributes")
    ctx.check(len({i.obj for i in items}) == len({i.key for i in items}), "a set of events", keys=[i.key for i in items])


def extended(ctx, rng):
    g = gen.Gen(rng, nasty=0.1)
    event = gen.build_event(g.event(2))
    items = [Item(XExtendedEvent.wrap(event), 0), Item(XExtendedEvent.wrap(event), 1)]
    items.append(Item(items[0].obj, 0))
    items.append(Item(items[0].obj.clone(), 2))
    items.append(Item(XExtendedEvent(gen.build_event(g.event(1))), 3))
    items.append(Item(event, 4))
    by_number(ctx, items, "extended events")
    keys = {}
    for item in items:
        keys.setdefault(snap.id_value(item.obj.get_id()), set()).add(item.key)
    ctx.check(all(len(v) == 1 for v in keys.values()), "two extended events with one identifier")
    hashes = [hash(i.obj) for i in items]
    items[0].obj.set_name("x")
    ctx.same([hash(i.obj) for i in items], hashes, "hashes of extended events after an edit")


def traces(ctx, rng):
    g = gen.Gen(rng, nasty=0.1)
    pool = [gen.build_event(g.event(1)) for _ in range(4)]
    for event, value in zip(pool, rng.sample(range(1, 100), 4)):
        event.set_id(XID(uuid.UUID(int=value)))
    items = []
    for _ in range(rng.randint(5, 12)):
        chosen = [rng.choice(pool[:3]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        trace = gen.build_trace((g.attributes(rng.choice([0, 1, 2])), []))
        for event in chosen:
            if rng.random() < 0.3:         # another event object with the same identifier
                other = gen.build_event(g.event(1))
                other.set_id(XID(event.get_id().get_uuid()))
                trace.append(other)
            else:
                trace.append(event)
        items.append(Item(trace, tuple(e.get_id().get_uuid().int for e in chosen)))
    by_number(ctx, items, "traces")
    hashes = [hash(i.obj) for i in items]
    for item in items:
        mutate.element(rng, item.obj)
        for e in item.obj:
            if rng.random() < 0.5:
                mutate.element(rng, e)
    ctx.same([hash(i.obj) for i in items], hashes, "hashes of traces after edits of attributes")
    by_number(ctx, items, "traces after edits of attributes")
    for item in items:                      # new content, new equality
        event = rng.choice(pool)
        item.obj.append(event)
        item.key += (event.get_id().get_uuid().int,)
    by_number(ctx, items, "traces after growth")
    for _ in range(3):                      # other content of the same length, or shorter
        for item in items:
            n, event = rng.randrange(len(item.obj)), rng.choice(pool)
            value, key = event.get_id().get_uuid().int, list(item.key)
            r = rng.random()
            if r < 0.4:
                item.obj[n] = event
                key[n] = value
            elif r < 0.5:
                item.obj.reverse()
                key.reverse()
            elif r < 0.6:
                item.obj[n:n + 1] = [event]
                key[n:n + 1] = [value]
            elif r < 0.7:
                item.obj.append(item.obj.pop(n))
                key.append(key.pop(n))
            elif r < 0.8 and len(key) > 1:
                del item.obj[n]
                del key[n]
            elif r < 0.85 and not any(item.obj[n] is e for x in items if x is not item for e in x.obj):
                item.obj[n].set_id(XID(uuid.UUID(int=value)))       # of an event of this trace only
                for m, e in enumerate(item.obj):
                    key[m] = e.get_id().get_uuid().int
            item.key = tuple(key)
        by_number(ctx, items, "traces after replacements")


def extensions(ctx, rng):
    uris = gen.alike(rng, 3, 1100) if rng.random() < 0.1 else ["http://www.xes-standard.org/concept.xesext", "http://www.xes-standard.org/time.xesext", "urn:a", "urn:b",
            "http://a/b?c#d", "http://a/b?c#e"]
    items = []
    for _ in range(rng.randint(4, 8)):
        uri = rng.choice(uris)
        items.append(Item(XExtension(rng.choice(["A", "B"]), rng.choice(["a", "b"]), gen.uri(rng, uri)), uri))
    manager = XExtensionManager()
    for n in rng.sample(range(11), 4):
        extension = manager.get_by_index(n)
        items.append(Item(extension, extension.get_uri().geturl()))
    by_number(ctx, items, "extensions")
    hashes = [hash(i.obj) for i in items]
    for item in items[:2]:
        if item.obj is not manager.get_by_uri(item.obj.get_uri()):
            item.obj.get_event_attributes().add(XFactory.create_attribute_literal("x", "y", item.obj))
    ctx.same([hash(i.obj) for i in items], hashes, "hashes of extensions after an edit")
    a, b = classifiers(rng)[0].obj, classifiers(rng)[0].obj
    ctx.same(XEventClasses(a) == XEventClasses(b), a == b, "equality of sets of event classes")
