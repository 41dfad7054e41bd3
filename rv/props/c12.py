"""The summary of a log agrees with the log."""
from collections import Counter
from datetime import timedelta

from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.info.XTimeBounds import XTimeBounds

from rv import gen, snap
from rv.props import c11

TECHNIQUE = "runtime monitor: summary getters compared with a recomputation from the abstract log"
RULE = ("random logs (some with thousands of elements) (empty logs and traces, events without timestamps, ties, several offsets) summarised with random default "
        "and additional classifiers, directly and through the factory in random histories over several logs and their "
        "clones, plus random histories of bounds registrations; oracle: recomputation; non-trivial: at least one event")
ASSUMPTIONS = ["the timestamps of one log either all have an offset or none has"]
CASES = {"quick": 30000, "thorough": 300000}
REQUIRED = ["checks", "summaries", "without timestamps", "empty traces", "empty logs", "factory requests", "reused summaries",
            "factory requests for clones", "bounds histories", "dates within", "dates outside", "additional classifiers", "many classifiers",
            "bounds of bounds", "bounds of events", "naive", "aware", "events twice", "traces twice", "huge logs"]


def setup(ctx):
    gen.register_custom()


def stamp(rng, aware, base):
    value = base + timedelta(microseconds=rng.choice([0, 1, 1000, 999, 60 * 10**6, 3600 * 10**6, 86400 * 10**6,
                                                      rng.randint(0, 10**13)]) * rng.choice([1, 1, -1]))
    if not aware:
        return value
    from datetime import timezone
    return value.replace(tzinfo=timezone(timedelta(minutes=gen.fixed_offset(rng))))


def make_log(ctx, rng, aware, huge=False):
    base = gen.naive(rng, 1900, 2100)
    pool = rng.sample(c11.POOL, rng.randint(2, 5))
    timed = rng.choice([0, 0.5, 0.9, 1])
    again = rng.choice([0, 0, 0, 0.2])
    log, rows = XFactory.create_log(), []
    large = rng.random() < 0.002
    if huge:
        ctx.count("huge logs")
        pool = pool + ["activity %d" % n for n in range(4000)]
    ctx.count("large logs", large)
    for _ in range(huge[0] if huge else rng.choice([0, 1, 2, 4, 7]) + large * rng.choice([1, 20, 60])):
        trace, row = XFactory.create_trace(), []
        for _ in range(huge[1] if huge else rng.choice([0, 0, 1, 2, 4, 8]) + large * rng.randint(0, 40)):
            attrs = [c11.value(ctx, rng, key, pool) for key in ("concept:name", "org:resource", "lifecycle:transition", "a", "b")
                     if rng.random() < 0.7]
            if rng.random() < timed:
                previous = [a.value for _, r in row[-50:] for a in r.values() if a.key == "time:timestamp"]
                value = rng.choice(previous) if previous and rng.random() < 0.2 else stamp(rng, aware, base)
                attrs.append(gen.A("time:timestamp", "date", value))
            rng.shuffle(attrs)
            event = gen.build_event(attrs)
            trace.append(event)
            row.append((event, {a.key: a for a in attrs}))
            if rng.random() < again:
                ctx.count("events twice")
                row.append(rng.choice([r for _, one in rows[-50:] for r in one] + row))
                trace.append(row[-1][0])
        log.append(trace)
        rows.append((trace, row))
        if rng.random() < again:
            ctx.count("traces twice")
            log.append(trace)
            rows.append((trace, row))
        if not row:
            ctx.count("empty traces")
    if not rows:
        ctx.count("empty logs")
    return log, rows


def instant(value):
    return None if value is None else snap.date_value(value, False)[0]


def check_bounds(ctx, bounds, dates, what):
    dates = sorted(dates, key=instant)
    if not dates:
        ctx.count("without timestamps")
        ctx.check(bounds.get_start_date() is None and bounds.get_end_date() is None, what + " without timestamps",
                  bounds=str(bounds))
        return
    ctx.same((instant(bounds.get_start_date()), instant(bounds.get_end_date())), (instant(dates[0]), instant(dates[-1])),
             what, dates=dates)
    ctx.check(bounds.get_start_date() in dates and bounds.get_end_date() in dates, what + ": the ends are not dates of the log")


def classifiers(ctx, rng):
    keys = ["concept:name", "org:resource", "lifecycle:transition", "a", "b"]
    return c11.make_classifier(ctx, rng, keys)


def partition(rows, keys):
    return Counter(tuple(c11.text_of(attrs.get(k)) for k in sorted(keys)) for _, row in rows for _, attrs in row)


def check_classes(ctx, classes, rows, keys, what):
    table = [(e, tuple(c11.text_of(attrs.get(k)) for k in sorted(keys))) for _, row in rows for e, attrs in row]
    ctx.check(classes is not None, what + ": no classes")
    ctx.same(sorted(classes.get_classifier().get_defining_attribute_keys()), sorted(keys), what + ": classifier")
    c11.check_classes(ctx, classes, classes.get_classifier(), partition(rows, keys), table, True)


def check_info(ctx, info, log, rows, covered, default_keys):
    """covered: [(classifier, keys)]"""
    ctx.count("summaries")
    ctx.check(info.get_log() is log, "the summary is about another log")
    ctx.same(info.get_number_of_traces(), len(rows), "number of traces")
    ctx.same(info.get_number_of_event(), sum(len(r) for _, r in rows), "number of events")
    standard = [(XEventNameClassifier(), {"concept:name"}, info.get_name_classes()),
                (XEventResourceClassifier(), {"org:resource"}, info.get_resource_classes()),
                (XEventLifeTransClassifier(), {"lifecycle:transition"}, info.get_transition_classes())]
    for classifier, keys, classes in standard:
        check_classes(ctx, classes, rows, keys, classifier.name())
        ctx.check(info.get_event_classes(classifier) is classes, "classes by classifier differ from the named getter",
                  classifier=classifier.name())
    for classifier, keys in covered:
        check_classes(ctx, info.get_event_classes(classifier), rows, keys, "covered classifier")
    check_classes(ctx, info.get_event_classes(), rows, default_keys, "default classifier")
    expected = {(c.name(), tuple(c.get_defining_attribute_keys())) for c, _ in covered} | \
               {(c.name(), tuple(c.get_defining_attribute_keys())) for c, _, _ in standard}
    found = list(info.get_event_classifiers())
    ctx.same(sorted((c.name(), tuple(c.get_defining_attribute_keys())) for c in found), sorted(expected),
             "covered classifiers")
    foreign = XEventAttributeClassifier("not covered", ["not", "covered"])
    ctx.check(info.get_event_classes(foreign) is None, "classes for a classifier that is not covered")
    times = [[attrs["time:timestamp"].value for _, attrs in row if "time:timestamp" in attrs] for _, row in rows]
    check_bounds(ctx, info.get_log_time_boundaries(), [t for ts in times for t in ts], "bounds of the log")
    for (trace, _), ts in zip(rows, times):
        bounds = info.get_trace_time_boundaries(trace)
        ctx.check(bounds is not None, "no bounds for a trace")
        check_bounds(ctx, bounds, ts, "bounds of a trace")
    counts = Counter(k for _, row in rows for _, attrs in row for k in attrs)
    found = info.get_event_attribute_info()
    ctx.same({k: found.get_frequency(k) for k in found.get_attribute_keys()}, dict(counts), "event attributes")


STANDARD_KEYS = {"concept:name", "lifecycle:transition"}


def case(ctx, rng, i):
    aware = rng.random() < 0.5
    ctx.count("aware" if aware else "naive")
    log, rows = make_log(ctx, rng, aware, i % 1009 == 37 and rng.choice(c11.HUGE))
    if any(r for _, r in rows):
        ctx.distinct(repr([[attrs for _, attrs in r] for _, r in rows]))
    before = snap.log(log, ms=False, maps=True, ids=True)
    extra = [classifiers(ctx, rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if rng.random() < 0.02 and len(rows) < 10:
        ctx.count("many classifiers")
        extra += [(XEventAttributeClassifier("classifier %d" % n, ["a", "b"][:n % 3]), set(["a", "b"][:n % 3])) for n in range(rng.choice([12, 40]))]
        rng.shuffle(extra)
    ctx.count("additional classifiers", len(extra))
    default = classifiers(ctx, rng) if rng.random() < 0.6 else None
    info = XLogInfo.create(log, default[0] if default else None, [c for c, _ in extra] if extra or rng.random() < 0.5 else None)
    covered = list(extra)
    if default:
        covered.append(default)
    else:
        covered.append((XEventAttributeClassifier("MXML Legacy Classifier", ["concept:name", "lifecycle:transition"]),
                        STANDARD_KEYS))
    check_info(ctx, info, log, rows, covered, default[1] if default else STANDARD_KEYS)
    ctx.same(snap.log(log, ms=False, maps=True, ids=True), before, "creating a summary changed the log")
    if i % 3 == 0:
        factory_history(ctx, rng, aware)
    elif i % 3 == 1:
        bounds_history(ctx, rng, aware)
    ctx.sample({"traces": len(rows), "events": sum(len(r) for _, r in rows), "classifiers": [sorted(k) for _, k in covered]})


def factory_history(ctx, rng, aware):
    """Requests through the factory over several logs; nothing else changes the logs in between."""
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        pool.append((*make_log(ctx, rng, aware), "log"))
    specs = [classifiers(ctx, rng) for _ in range(3)]
    seen = []
    for _ in range(rng.randint(3, 9)):
        if rng.random() < 0.25 and len(pool) < 6:
            log, rows, _ = rng.choice(pool)
            clone = log.clone()
            new = [(t, [(e, attrs) for e, (_, attrs) in zip(t, row)]) for t, (_, row) in zip(clone, rows)]
            if rng.random() < 0.7:           # the clone becomes a different log
                if rng.random() < 0.5 and new:
                    k = rng.randrange(len(new))
                    clone.pop(k)
                    new.pop(k)
                else:
                    event = gen.build_event([gen.A("concept:name", "string", "new in clone")])
                    trace = XFactory.create_trace()
                    trace.append(event)
                    clone.append(trace)
                    new.append((trace, [(event, {"concept:name": gen.A("concept:name", "string", "new in clone")})]))
            pool.append((clone, new, "clone"))
        log, rows, kind = rng.choice(pool)
        spec = rng.choice(specs + [None])
        ctx.count("factory requests")
        if kind == "clone":
            ctx.count("factory requests for clones")
        if spec is None:
            classifier, keys = None, STANDARD_KEYS
            name = ("MXML Legacy Classifier", ("concept:name", "lifecycle:transition"))
        else:
            classifier, keys = spec
            if rng.random() < 0.3 and type(classifier) is XEventAttributeClassifier:    # an equal one
                classifier = XEventAttributeClassifier(classifier.name(), list(classifier.get_defining_attribute_keys()))
            name = (classifier.name(), tuple(classifier.get_defining_attribute_keys()))
        info = XLogInfoFactory.create_log_info(log, classifier)
        for other, other_log, other_name in seen:
            if other is info:
                ctx.count("reused summaries")
                ctx.check(other_log is log, "a summary is reused for another log")
                ctx.same(other_name, name, "a summary is reused for another classifier")
        seen.append((info, log, name))
        used = classifier or XEventAttributeClassifier(name[0], list(name[1]))
        check_info(ctx, info, log, rows, [(used, keys)], keys)


def bounds_history(ctx, rng, aware):
    ctx.count("bounds histories")
    base = gen.naive(rng, 1900, 2100)
    bounds, dates = XTimeBounds(), []
    ctx.check(not bounds.is_within(stamp(rng, aware, base)), "empty bounds contain a date")
    for _ in range(rng.randint(1, 10)):
        r = rng.random()
        if r < 0.4:
            value = stamp(rng, aware, base)
            bounds.register(value)
            dates.append(value)
        elif r < 0.6:
            ctx.count("bounds of events")
            attrs = [gen.A("time:timestamp", "date", stamp(rng, aware, base))] if rng.random() < 0.8 else []
            bounds.register(gen.build_event(attrs))
            dates.extend(a.value for a in attrs)
        else:
            ctx.count("bounds of bounds")
            other, more = XTimeBounds(), [stamp(rng, aware, base) for _ in range(rng.choice([0, 1, 2, 3]))]
            for value in more:
                other.register(value)
            bounds.register(other)
            check_bounds(ctx, other, more, "bounds that were registered in others")
            dates.extend(more)
        check_bounds(ctx, bounds, dates, "bounds after a registration")
        if not dates:
            continue
        first, last = min(map(instant, dates)), max(map(instant, dates))
        lo, hi = min(dates, key=instant), max(dates, key=instant)
        step = timedelta(microseconds=1)
        for value in (lo, hi, lo - step, lo + step, hi - step, hi + step, stamp(rng, aware, base), rng.choice(dates)):
            inside = first <= instant(value) <= last
            ctx.count("dates within" if inside else "dates outside")
            ctx.check(bounds.is_within(value) is inside, "wrong answer of is_within", value=value, bounds=str(bounds))
