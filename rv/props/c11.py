"""Event classes are the partition of the events by the classifier."""
from collections import Counter

from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.factory.XFactory import XFactory

from rv import gen, snap

TECHNIQUE = "runtime monitor: classes compared with a reference partition computed from the abstract events"
RULE = ("random logs (some with thousands of elements) whose events draw the values of few keys from small pools (all types, absent and empty values, values "
        "that contain each other), classified by the standard classifiers, classifiers with 0-5 keys and nested "
        "conjunctions, by derivation and by registering logs, traces, events and identities in random order with "
        "harmonisation in between; oracle: tuples of value texts; non-trivial: at least two events")
ASSUMPTIONS = ["the texts of attributes that are not texts are those the library prints"]
CASES = {"quick": 60000, "thorough": 600000}
REQUIRED = ["checks", "pairs same", "pairs different", "classes", "derived", "registered piecewise", "conjunctions",
            "keys 0", "keys 1", "keys 2", "keys 3", "keys 4", "missing values", "lookups of unknown", "identity texts",
            "non-text values", "texts like the separator", "events twice", "traces twice", "large logs", "huge logs",
            "long values alike", "many keys", "long keys alike", "keys more than 5"]

KEYS = ["concept:name", "org:resource", "lifecycle:transition", "org:role", "cost:type", "a", "b", "my key", "x&y", ""]
POOL = ["", "a", "b", "ab", "A", "a b", " a", "a ", "a&b", "B", "0", "1", "true", "None", "é", "e\u0301", "z", "Z", "\n", "中",
        "\U0001f600", "ﬁ", "complete", "a|b", "a;b", "[]", "x"]
JOINED = ["", "a", "&", "&&", "&&&", "a&", "&a", "a&&", "&&a", "a&&a", "a&a", "\\", "\\&", "a\\", "\\a", "\\&\\&", "a&&&a",
          "\\&&"]
HUGE = [(1, 1500), (2, 700), (1300, 1), (40, 40)]       # traces, events of each


def setup(ctx):
    gen.register_custom()


def text_of(a):
    """The text of an abstract attribute."""
    if a is None:
        return ""
    if a.kind == "string":
        return a.value
    if a.kind == "boolean":
        return "true" if a.value else "false"
    if a.kind == "id":
        return str(a.value).upper()
    if a.kind == "date":
        return "date " + a.value.isoformat()
    if a.kind in ("list", "container"):
        return "[" + ",".join(k.key + ":" + text_of(k) for k in a.kids) + "]"
    return str(a.value)


def value(ctx, rng, key, pool):
    r = rng.random()
    if r < 0.85:
        return gen.A(key, "string", rng.choice(pool))
    ctx.count("non-text values")
    if r < 0.88:
        return gen.A(key, "int", rng.choice([0, 1, 2, -1]))
    if r < 0.9:
        return gen.A(key, "boolean", rng.random() < 0.5)
    if r < 0.92:
        return gen.A(key, "float", rng.choice([0.0, 1.0, 0.5]))
    if r < 0.94:
        return gen.A(key, "date", gen.stamp(rng, "utc").replace(year=rng.choice([2000, 2001]), month=1, day=1, hour=0,
                                                                 minute=0, second=0, microsecond=0))
    if r < 0.96:
        return gen.A(key, "id", gen.uid(rng))
    return gen.A(key, "list", None, kids=[gen.A("k", "string", rng.choice(["a", "b"])) for _ in range(rng.randint(0, 2))])


def make_log(ctx, rng, huge=False):
    keys = rng.sample(KEYS, rng.randint(1, 6))
    if rng.random() < 0.5:
        keys = list(set(keys) | {"concept:name", "org:resource", "lifecycle:transition"})
    pool = rng.sample(POOL, rng.randint(2, 6))
    if rng.random() < 0.15:
        pool = rng.sample(JOINED, rng.randint(3, 10))
        ctx.count("texts like the separator")
    if rng.random() < 0.02:
        pool = gen.alike(rng, 3, 4100) + [""]
        ctx.count("long values alike")
    if rng.random() < 0.03:
        keys = ["key %d" % n for n in range(rng.choice([8, 18, 35, 70]))] + keys
        ctx.count("many keys")
    elif rng.random() < 0.02:
        keys = gen.alike(rng, 2, 300) + keys[:1]
        ctx.count("long keys alike")
    single = len(keys) > 8 and rng.random() < 0.8 and rng.choice(keys)      # the only key with several values
    large = huge or rng.random() < 0.002
    if huge:
        ctx.count("huge logs")
        pool = pool + ["activity %d" % n for n in range(4000)]
    elif large:
        ctx.count("large logs")
        pool = POOL + JOINED + ["activity %d" % n for n in range(rng.choice([12, 120]))]
    absent = rng.choice([0.1, 0.3, 0.6])
    again = rng.choice([0, 0, 0, 0.2])
    rows, log = [], XFactory.create_log()
    for _ in range(huge[0] if huge else rng.choice([0, 1, 2, 3, 6]) + large * rng.choice([1, 20, 60])):
        trace = XFactory.create_trace()
        for _ in range(huge[1] if huge else rng.choice([0, 1, 3, 5, 9]) * (1 + large)):
            attrs = [value(ctx, rng, key, pool) if not single or key == single else gen.A(key, "string", "same")
                     for key in keys if single or rng.random() > absent]
            if rng.random() < 0.3:
                attrs.append(gen.A("noise", "string", gen.text(rng)))
            rng.shuffle(attrs)
            event = gen.build_event(attrs)
            trace.append(event)
            rows.append((event, {a.key: a for a in attrs}))
            if rng.random() < again:
                ctx.count("events twice")
                event, attrs = rng.choice(rows)
                trace.append(event)
                rows.append((event, attrs))
        log.append(trace)
        if rng.random() < again:
            ctx.count("traces twice")
            log.append(trace)
            rows.extend([rows[-k] for k in range(len(trace), 0, -1)])
    return log, rows, keys


def make_classifier(ctx, rng, keys, depth=2):
    """(classifier, keys it distinguishes)"""
    r = rng.random()
    if depth and r < 0.25:
        members = [make_classifier(ctx, rng, keys, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
        ctx.count("conjunctions")
        return XEventAndClassifier([m for m, _ in members]), set().union(*[k for _, k in members])
    if r < 0.45:
        cls, key = rng.choice([(XEventNameClassifier, "concept:name"), (XEventResourceClassifier, "org:resource"),
                               (XEventLifeTransClassifier, "lifecycle:transition")])
        return cls(), {key}
    every = sorted(set(keys) | {"a", "nowhere"})
    chosen = rng.sample(every, rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]) % (len(set(keys)) + 1))
    if len(every) > 9 and rng.random() < 0.7:
        chosen = rng.sample(every, rng.randint(len(every) - 3, len(every)))
        ctx.count("keys more than 5")
    ctx.count("keys %d" % len(chosen))
    return XEventAttributeClassifier(rng.choice(["c", "my classifier", ""]), chosen), set(chosen)


def check_classes(ctx, classes, classifier, groups, rows, sorted_indices):
    """classes against {tuple: [events]}"""
    found = list(classes.get_classes())
    ctx.count("classes", len(found))
    ctx.same(len(found), len(groups), "number of classes")
    ctx.same(len(classes), len(groups), "length of the classes")
    ids = [c.get_id() for c in found]
    ctx.check(len(set(ids)) == len(ids), "two classes with the same identity", ids=ids)
    ctx.same(sorted(c.get_index() for c in found), list(range(len(found))), "indices")
    if sorted_indices:
        ctx.same([c.get_id() for c in sorted(found, key=lambda c: c.get_index())], sorted(ids), "alphabetical order of indices")
    by_tuple, objects = {}, {id(c) for c in found}
    for event, row in rows:
        one = classes.get_class_of(event)
        ctx.check(one is not None, "an event of the log has no class", row=row)
        ctx.check(classes.get_by_identity(classifier.get_class_identity(event)) is one, "lookup by identity differs")
        ctx.check(classes.get_by_index(one.get_index()) is one, "lookup by index differs")
        ctx.check(id(one) in objects, "the class of an event is not among the classes")
        by_tuple.setdefault(row, set()).add(one.get_id())
    for row, names in by_tuple.items():
        ctx.check(len(names) == 1, "events with equal values are in different classes", row=row, classes=names)
    ctx.same(len(set().union(set(), *by_tuple.values())), len(by_tuple), "events with different values share a class")
    for row, count in groups.items():
        if row in by_tuple:
            ctx.same(classes.get_by_identity(next(iter(by_tuple[row]))).size(), count, "size of a class", row=row)
    ctx.same(sum(c.size() for c in found), sum(groups.values()), "sum of sizes")
    ctx.count("lookups of unknown")
    ctx.check(classes.get_by_index(len(found)) is None and classes.get_by_index(-1) is None, "an index without class")
    missing = "no such identity && at all"
    ctx.check(classes.get_by_identity(missing) is None, "an identity without class")


def case(ctx, rng, i):
    log, rows, keys = make_log(ctx, rng, i % 1009 == 37 and rng.choice(HUGE))
    classifier, distinguished = make_classifier(ctx, rng, keys)
    distinguished = sorted(distinguished)
    table = []
    for event, attrs in rows:
        row = tuple(text_of(attrs.get(k)) for k in distinguished)
        ctx.count("missing values", sum(1 for k in distinguished if k not in attrs))
        table.append((event, row))
    if len(table) > 1:
        ctx.distinct(repr((distinguished, [r for _, r in table])))
    before = snap.log(log, ms=False, maps=True, ids=True)
    ctx.same(sorted(classifier.get_defining_attribute_keys()), distinguished, "defining keys")
    for _ in range(min(40, len(table) ** 2)):
        (a, row_a), (b, row_b) = rng.choice(table), rng.choice(table)
        ctx.count("pairs same" if row_a == row_b else "pairs different")
        ctx.same(classifier.same_event_class(a, b), row_a == row_b, "same event class", rows=(row_a, row_b),
                 keys=distinguished)
        ctx.same(classifier.get_class_identity(a) == classifier.get_class_identity(b), row_a == row_b,
                 "identities", rows=(row_a, row_b), keys=distinguished)
    groups = Counter(row for _, row in table)
    ctx.count("derived")
    derived = XEventClasses.derive_event_classes(classifier, log)
    ctx.check(derived.get_classifier() is classifier or derived.get_classifier() == classifier, "classifier of the classes")
    check_classes(ctx, derived, classifier, groups, table, True)
    for _ in range(2):
        pieces = piecewise(ctx, rng, classifier, log, table, groups)
        ctx.same(sorted((c.get_id(), c.size(), c.get_index()) for c in pieces.get_classes()),
                 sorted((c.get_id(), c.size(), c.get_index()) for c in derived.get_classes()),
                 "classes registered piece by piece")
    ctx.same(snap.log(log, ms=False, maps=True, ids=True), before, "classification changed the log")
    ctx.sample({"keys": distinguished, "rows": [r for _, r in table][:6]})


def piecewise(ctx, rng, classifier, log, table, groups):
    ctx.count("registered piecewise")
    rows = {id(e): row for e, row in table}
    units = []
    if rng.random() < 0.2:
        units.append(("log", log, [e for t in log for e in t]))
    else:
        for trace in log:
            if rng.random() < 0.4:
                units.append(("trace", trace, list(trace)))
            else:
                for event in trace:
                    if rng.random() < 0.6:
                        units.append(("event", event, [event]))
                    else:
                        units.append(("text", classifier.get_class_identity(event), [event]))
                        ctx.count("identity texts")
    rng.shuffle(units)
    classes = XEventClasses(classifier)
    counted, events = Counter(), []
    less = min(1, 100 / max(100, len(units) ** 1.2))
    for kind, unit, members in units:
        classes.register(unit)
        counted.update(rows[id(e)] for e in members)
        events.extend((e, rows[id(e)]) for e in members)
        if rng.random() < 0.1 * less:
            check_classes(ctx, classes, classifier, counted, events, False)
        if rng.random() < 0.15 * less:
            classes.harmonize_indices()
            check_classes(ctx, classes, classifier, counted, events, True)
    classes.harmonize_indices()
    check_classes(ctx, classes, classifier, groups, table, True)
    return classes
