"""A clone is equal to its original and independent of it."""
import io

from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.id.XID import XID
from opyenxes.info.XLogInfoFactory import XLogInfoFactory

from rv import gen, mutate, snap, xesdoc

TECHNIQUE = "runtime monitor: snapshots of original and clone around generated edits of either side"
RULE = ("random logs (some with thousands of elements), traces, events, extended events, attribute maps, attributes of all eight types, identifiers and the "
        "attribute definitions of the extensions, built through the factory or read from documents, cloned (also clones "
        "of clones), then edited at any depth on one side while the other is observed; oracle: snapshots through the "
        "getters, sets of all identifiers seen; non-trivial: subject with at least one attribute")
ASSUMPTIONS = ["extension and classifier objects may be shared between original and clone"]
CASES = {"quick": 8800, "thorough": 88000}
REQUIRED = ["checks", "cloned log", "cloned trace", "cloned event", "cloned map", "cloned attribute", "cloned id",
            "cloned extended event", "cloned definition", "edits of the original", "edits of the clone",
            "cloned kind list", "cloned kind container", "cloned kind id", "cloned kind date", "cloned kind int",
            "cloned kind float", "cloned kind boolean", "cloned kind string", "edit set_uuid", "edit collection",
            "edit nested", "edit remove nested", "read from documents", "ids compared", "huge logs"]


def setup(ctx):
    gen.register_custom()


def full(log):
    return snap.log(log, ms=False, maps=True, features=True)


def source(ctx, rng, spec, i):
    """The log of a specification, built or read."""
    style = i % 4
    if style < 2:
        return gen.build_log(spec, style=style)
    ctx.count("read from documents")
    if style == 2:
        data, _ = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        return XesXmlParser().parse(io.BytesIO(data))[0]
    out = io.BytesIO()
    XMxmlSerializer().serialize(gen.build_log(spec), out, True)
    return XMxmlParser().parse(io.BytesIO(out.getvalue()))[0]


def events_of(log):
    return [e for t in log for e in t]


def check_ids(ctx, events, clones):
    ids = [snap.id_value(e.get_id()) for e in clones]
    ctx.count("ids compared", len(ids))
    ctx.check(len(set(ids)) == len(ids), "two cloned events have the same identifier", ids=ids)
    ctx.check(not set(ids) & {snap.id_value(e.get_id()) for e in events}, "a cloned event has the identifier of an original")
    seen = ctx.state.setdefault("ids", set())
    ctx.check(not set(ids) & seen, "a cloned event has an identifier that was seen before")
    seen.update(ids)
    objects = [id(e.get_id()) for e in clones] + list({id(e): id(e.get_id()) for e in events}.values())
    ctx.check(len(set(objects)) == len(objects), "events share an identifier object")


def both_sides(ctx, rng, original, clone, look, edit, rounds):
    """Edits one side and watches the other; look may include identifiers."""
    for _ in range(rounds):
        side = rng.random() < 0.5
        active, passive = (original, clone) if side else (clone, original)
        before = look(passive)
        names = edit(active)
        for name in names or ():
            ctx.count("edit " + name)
        ctx.count("edits of the original" if side else "edits of the clone")
        ctx.same(look(passive), before, "an edit of the %s is visible through the %s" % (
            ("original", "clone") if side else ("clone", "original")), edits=names)


def edit_attribute(rng, root):
    targets = [root] + list(snap.walk_attributes(root.get_attributes()))
    if snap.kind(root) in ("list", "container"):
        targets += list(snap.walk_attributes({n: a for n, a in enumerate(root.get_collection())}))
    return [mutate.attribute(rng, rng.choice(targets)) for _ in range(rng.choice([1, 1, 3]))]


def edit_holder(rng, holder):
    below = list(snap.walk_attributes(holder.get_attributes()))
    if below and rng.random() < 0.75:
        return [mutate.attribute(rng, rng.choice(below)) for _ in range(rng.choice([1, 1, 3]))]
    mutate.element(rng, holder)
    return ["map"]


def check_attribute(ctx, rng, attribute, definition=False):
    kinds = {snap.kind(attribute)} | {snap.kind(a) for a in snap.walk_attributes(attribute.get_attributes())}
    for k in kinds:
        ctx.count("cloned kind " + k)
    look = lambda a: snap.attr(a, ms=False, maps=True)          # noqa: E731
    before = look(attribute)
    clone = attribute.clone()
    ctx.same(look(attribute), before, "cloning an attribute changed it")
    ctx.same(look(clone), before, "the clone of an attribute differs")
    ctx.check(clone is not attribute, "an attribute is its own clone", attribute=before)
    ctx.check(type(clone) is type(attribute), "the clone has another type", attribute=before)
    ctx.check(clone.get_extension() is attribute.get_extension(), "the clone has another extension", attribute=before)
    ctx.check(clone == attribute or before[2] == "nan", "a clone is not equal to its attribute", attribute=before)
    again = clone.clone()
    ctx.same(look(again), before, "the clone of a clone differs")
    if definition:
        for _ in range(2):
            edit_attribute(rng, clone)
            ctx.same(look(attribute), before, "an edit of a clone changed the definition")
    else:
        both_sides(ctx, rng, attribute, clone, look, lambda a: edit_attribute(rng, a), rng.choice([2, 4]))
    ctx.same(look(again), before, "edits of original and clone are visible in a second clone")


def case(ctx, rng, i):
    g = gen.Gen(rng, nasty=rng.choice([0, 0.2]), std_typed=i % 4 == 3 or i % 3 == 0,
                dates="utc" if i % 3 == 0 else None)
    if i % 811 == 41:
        spec = g.huge(gen.HUGE[i // 811 % len(gen.HUGE)], rng.choice([600, 1100, 2100]))
        ctx.count("huge logs")
    else:
        spec = g.log(rng.choice(["tiny", "small"]) if i % 40 else "medium")
    if rng.random() < 0.3:
        spec.features["xes.version"] = "1.0"
    spec.attrs.append(g.attribute(3, "special", rng.choice(gen.KIND_NAMES)))
    spec.traces.append(g.trace(2))
    log = source(ctx, rng, spec, i)
    ctx.distinct(repr(spec)[:5000])
    subject = ["log", "log", "trace", "event", "map", "attribute", "definition", "id"][i // 4 % 8]
    if i % 811 == 41:
        subject = rng.choice(["log", "trace"])
    ctx.count("cloned " + subject)
    if subject == "log":
        whole_log(ctx, rng, log, i % 3 == 0)
    elif subject == "trace":
        for trace in list(log)[:4]:
            look = lambda t: snap.trace(t, ms=False, maps=True, ids=True)       # noqa: E731
            before = look(trace)
            clone = trace.clone()
            ctx.same(look(trace), before, "cloning a trace changed it")
            ctx.same(snap.trace(clone, ms=False, maps=True), snap.trace(trace, ms=False, maps=True),
                     "the clone of a trace differs")
            ctx.check(type(clone) is type(trace) and clone is not trace, "not a new trace")
            check_ids(ctx, list(trace), list(clone))

            def edit(t):
                if len(t) and rng.random() < 0.6:
                    e = rng.choice(list(t))
                    if rng.random() < 0.2:
                        e.get_id().set_uuid(gen.uid(rng))
                        return ["event id"]
                    return edit_holder(rng, e)
                if rng.random() < 0.5:
                    return edit_holder(rng, t)
                r = rng.random()
                if r < 0.4 or not len(t):
                    t.append(gen.build_event(g.event(2)))
                elif r < 0.7:
                    t.pop()
                else:
                    t.reverse()
                return ["events"]
            both_sides(ctx, rng, trace, clone, look, edit, 5)
    elif subject == "event":
        for event in events_of(log)[:6]:
            one_event(ctx, rng, event)
    elif subject == "map":
        for holder in ([log] + list(log) + events_of(log))[:8]:
            m = holder.get_attributes()
            before = snap.attrs(m, False, maps=True)
            clone = m.clone()
            ctx.same(snap.attrs(m, False, maps=True), before, "cloning a map changed it")
            ctx.same(snap.attrs(clone, False, maps=True), before, "the clone of a map differs")
            ctx.same(list(clone), list(m), "the order of keys in the clone of a map")
            ctx.check(type(clone) is type(m) and clone is not m, "not a new map")

            def edit_map(x):
                below = list(snap.walk_attributes(x))
                if below and rng.random() < 0.7:
                    return [mutate.attribute(rng, rng.choice(below))]
                if rng.random() < 0.5 or not len(x):
                    a = g.attribute(1)
                    x[a.key] = gen.build_attribute(a)
                else:
                    del x[rng.choice(list(x))]
                return ["map"]
            both_sides(ctx, rng, m, clone, lambda x: snap.attrs(x, False, maps=True), edit_map, 4)
    elif subject == "attribute":
        roots = []
        for holder in [log] + list(log) + events_of(log):
            roots.extend(holder.get_attributes().values())
        roots.extend(log.get_global_trace_attributes())
        rng.shuffle(roots)
        for root in roots[:14]:
            check_attribute(ctx, rng, root)
        for kind in gen.KIND_NAMES:
            check_attribute(ctx, rng, gen.build_attribute(g.attribute(3, "k", kind)))
    elif subject == "definition":
        manager = XExtensionManager()
        extension = manager.get_by_index(rng.randrange(11))
        before = snap.definitions()
        for a in sorted(extension.get_defined_attributes(), key=lambda a: a.get_key()):
            check_attribute(ctx, rng, a, definition=True)
        ctx.same(snap.definitions(), before, "the definitions of extensions after cloning them")
    else:
        for _ in range(20):
            value = XID(gen.uid(rng)) if rng.random() < 0.8 else XID()
            text = str(value)
            clone = value.clone()
            ctx.check(clone is not value and clone == value and str(clone) == text and str(value) == text,
                      "the clone of an identifier differs", value=text)
            active, passive = rng.sample([value, clone], 2)
            active.set_uuid(gen.uid(rng))
            ctx.check(str(passive) == text, "a changed identifier shows through its clone", value=text)
    ctx.sample({"subject": subject, "attributes": spec.count_attributes()})


def one_event(ctx, rng, event):
    look = lambda e: snap.event(e, ms=False, maps=True, ids=True)       # noqa: E731
    before = look(event)
    clone = event.clone()
    ctx.same(look(event), before, "cloning an event changed it")
    ctx.same(snap.event(clone, ms=False, maps=True), snap.event(event, ms=False, maps=True), "the clone of an event differs")
    ctx.check(type(clone) is type(event) and clone is not event and clone != event, "not a new event")
    check_ids(ctx, [event], [clone])

    def edit(e):
        if rng.random() < 0.15:
            e.get_id().set_uuid(gen.uid(rng))
            return ["event id"]
        return edit_holder(rng, e)
    both_sides(ctx, rng, event, clone, look, edit, 4)
    ctx.count("cloned extended event")
    view = XExtendedEvent.wrap(event)
    look = lambda v: (snap.attrs(v.get_attributes(), False, maps=True), str(v.get_id()))    # noqa: E731
    before = look(view)
    clone = view.clone()
    ctx.same(look(view), before, "cloning an extended event changed it")
    ctx.same(look(clone)[0], before[0], "the clone of an extended event differs")
    ctx.check(look(clone)[1] != before[1] and str(clone.get_id()) != str(event.get_id()) and clone != view,
              "the clone of an extended event has no identifier of its own")

    def edit_view(v):
        if rng.random() < 0.4:
            rng.choice([lambda: v.set_name("n%r" % rng.random()), lambda: v.set_resource("r%r" % rng.random()),
                        lambda: v.set_transition("t%r" % rng.random())])()
            return ["view"]
        return edit_holder(rng, v)
    both_sides(ctx, rng, view, clone, look, edit_view, 3)


def whole_log(ctx, rng, log, summarise):
    if rng.random() < 0.2 and len(log):
        log.append(log[0])                        # the same trace twice
    if rng.random() < 0.2 and len(log) and len(log[0]):
        log[-1].append(log[0][0])                 # the same event twice
    if summarise:
        XLogInfoFactory.create_log_info(log)
    content, with_ids = full(log), snap.log(log, ms=False, maps=True, ids=True, features=True)
    clone = log.clone()
    ctx.same(snap.log(log, ms=False, maps=True, ids=True, features=True), with_ids, "cloning a log changed it")
    ctx.same(full(clone), content, "the clone of a log differs")
    ctx.check(type(clone) is type(log) and clone is not log, "not a new log")
    check_ids(ctx, events_of(log), events_of(clone))
    second = clone.clone() if rng.random() < 0.5 else log.clone()
    ctx.same(full(second), content, "a second clone of a log differs")
    check_ids(ctx, events_of(log) + events_of(clone), events_of(second))
    look = lambda x: snap.log(x, ms=False, maps=True, ids=True, features=True)      # noqa: E731
    definitions = snap.definitions()
    second_look = look(second)

    def edit(x):
        mutate.log(rng, x, rng.choice([0.0, 0.05, 0.3, 1.0]))
        return ["log"]

    def small(x):
        holders = [x] + list(x) + events_of(x)
        return edit_holder(rng, rng.choice(holders))
    both_sides(ctx, rng, log, clone, look, small, 3)
    both_sides(ctx, rng, log, clone, look, edit, 3)
    ctx.same(look(second), second_look, "edits of original and clone are visible in a second clone")
    ctx.same(snap.definitions(), definitions, "the definitions of extensions after edits")
