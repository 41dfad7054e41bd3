"""Ordered insertion keeps traces chronological and stable."""
from datetime import timedelta, timezone

from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory

from rv import gen, snap

TECHNIQUE = "runtime monitor: each insertion compared with a reference list of event objects"
RULE = ("random traces (empty, chronological, unordered, with events without timestamps) grown by 1-40 ordered insertions of "
        "events with close, equal and equal-instant-other-offset timestamps or none, also the same event or an equal one again, mixed with appends and removals; "
        "oracle: list of event objects and integer instants; non-trivial: history of at least two insertions")
ASSUMPTIONS = ["the timestamps of one trace either all have a fixed offset or none has"]
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = ["checks", "insertions", "into empty", "at the front", "in the middle", "after all", "ties", "without timestamp",
            "met an event without timestamp", "place found before one without timestamp", "unordered traces",
            "chronological histories", "long histories", "long traces", "the same event again", "equal events"]


def setup(ctx):
    gen.register_custom()


def make_event(rng, value):
    attrs = [gen.A("concept:name", "string", rng.choice("abc"))] if rng.random() < 0.7 else []
    if value is not None:
        attrs.insert(rng.randint(0, len(attrs)), gen.A("time:timestamp", "date", value))
    event = gen.build_event(attrs, style=rng.randint(0, 1))
    if value is not None and rng.random() < 0.2:
        XTimeExtension().assign_timestamp(event, value)
    return event


def case(ctx, rng, i):
    base = gen.naive(rng, 1000, 3000)
    aware = rng.random() < 0.6
    unit = rng.choice([1, 1, 1000, 10**6, 3600 * 10**6, 86400 * 10**6])
    spread = rng.choice([2, 4, 30])
    missing = rng.choice([0, 0, 0, 0.1, 0.3])

    def value():
        if rng.random() < missing:
            return None
        date = base + timedelta(microseconds=unit * rng.randint(-spread, spread))
        if not aware:
            return date
        zone = timezone(timedelta(minutes=rng.choice([0, 0, 60, -300, 330, 840, -720])))
        return date.replace(tzinfo=timezone.utc).astimezone(zone)

    trace = XFactory.create_trace()
    model, times, keep = [], {}, []          # keep: no identity is reused

    def add(event, v):
        times[id(event)] = None if v is None else snap.date_micros(v)[0]
        return event
    start = rng.choice(["empty", "empty", "chronological", "unordered"])
    if start != "empty":
        size = rng.randint(1, 8)
        if i % 300 == 17:
            size = rng.choice([99, 129, 257, 400, 1100])
            spread = rng.choice([4, 30, size])
            ctx.count("long traces")
        vs = [value() for _ in range(size)]
        if start == "chronological":
            vs = sorted((v for v in vs if v is not None), key=lambda v: snap.date_micros(v)[0])
        else:
            ctx.count("unordered traces")
        for v in vs:
            model.append(add(make_event(rng, v), v))
            keep.append(model[-1])
            trace.append(model[-1])
    n = rng.choice([2, 3, 5, 10, 10, 20, 40])
    if n >= 20:
        ctx.count("long histories")
    history = []
    for _ in range(n):
        r = rng.random()
        if r < 0.05 and model:
            k = rng.randrange(len(model))
            model.pop(k)
            trace.pop(k)
            continue
        again = rng.random()
        if again < 0.03 and model:
            event = rng.choice(model)
            v = event.get_attributes()["time:timestamp"].get_value() if times[id(event)] is not None else None
            ctx.count("the same event again")
        else:
            v = value()
            event = add(make_event(rng, v), v)
            keep.append(event)
            if again < 0.06 and model:
                event.set_id(rng.choice(model).get_id())
                ctx.count("equal events")
        if r < 0.08:
            model.append(event)
            trace.append(event)
            continue
        before = snap.event(event, ms=False, ids=True)
        index = trace.insert_ordered(event)
        ctx.count("insertions")
        ctx.same(snap.event(event, ms=False, ids=True), before, "the inserted event changed")
        now = list(trace)
        history.append(times[id(event)])
        detail = {"trace": [times[id(e)] for e in model], "inserted": times[id(event)], "index": index}
        ctx.check(isinstance(index, int) and 0 <= index < len(now), "the returned index is not in the trace", **detail)
        ctx.check(len(now) == len(model) + 1 and now[index] is event, "the event is not at the returned index", **detail)
        rest = now[:index] + now[index + 1:]
        ctx.check(all(a is b for a, b in zip(rest, model)), "other events moved or changed", **detail)
        expected = place(ctx, [times[id(e)] for e in model], times[id(event)])
        if expected is not None:
            ctx.same(index, expected, "place of the inserted event", **detail)
        model = now
    values = [times[id(e)] for e in model]
    if start != "unordered" and missing == 0 and values == sorted(values):
        ctx.count("chronological histories")
    ctx.distinct(repr((start, history)))
    ctx.sample({"start": start, "inserted": history[:8]})


def place(ctx, times, new):
    """The index the specification determines, or None."""
    if not times:
        ctx.count("into empty")
        return 0
    if new is None:
        ctx.count("without timestamp")
        return len(times)
    gaps = [k for k, t in enumerate(times) if t is None]
    first = gaps[-1] + 1 if gaps else 0
    tail = times[first:]
    if tail != sorted(tail):
        return None
    if new in tail:
        ctx.count("ties")
    earlier = [k for k, t in enumerate(tail) if t <= new]
    if earlier:
        index = first + earlier[-1] + 1
        ctx.count("after all" if index == len(times) else "in the middle")
        if gaps:
            ctx.count("place found before one without timestamp")
        return index
    if gaps:
        ctx.count("met an event without timestamp")
        return len(times)
    ctx.count("at the front")
    return 0
