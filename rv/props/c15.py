"""The accessors of the standard extensions store and return what they name."""
import io
import os
import time
import uuid
from urllib.parse import urlparse

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID

from rv import gen, snap

TECHNIQUE = "runtime monitor: accessor histories compared step by step with a reference dictionary"
RULE = ("random histories of 15-40 assign, extract and remove calls through the standard extensions and the extended event "
        "view (new or made before the history) on a log, traces, events and attributes (built and read) whose maps get replaced, with valid, blank and missing values under several "
        "host time zones; oracle: reference dictionary of canonical attributes of every element after every step; "
        "non-trivial: history with an assignment")
ASSUMPTIONS = ["attributes under standard keys have the standard type", "lifecycle values have no outer white space"]
CASES = {"quick": 4500, "thorough": 45000}

LIFECYCLE = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
             "autoskip", "manualskip", "unknown"]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Australia/Lord_Howe", "Europe/Amsterdam"]


VIEWS = {}               # views of the events of this case, made before its history


def viewed(ctx, event):
    """A view of an event: one that was made before, or a new one."""
    if id(event) in VIEWS and len(VIEWS[id(event)]) % 2:
        ctx.count("views made before")
        VIEWS[id(event)].append(None)
        return VIEWS[id(event)][0]
    if id(event) in VIEWS:
        VIEWS[id(event)].append(None)
    return XExtendedEvent.wrap(event)


class Slot:
    """One attribute with its accessors: key, type, targets, how to assign, extract and remove."""

    def __init__(self, name, key, kind, targets, assign, extract, view=None, remove=None, unset=None):
        self.name, self.key, self.kind, self.targets = name, key, kind, targets
        self.assign, self.extract, self.view, self.remove, self.unset = assign, extract, view, remove, unset
        self.ext = gen.STD[key.split(":")[0]][1]


ALL = ("log", "trace", "event")
ANY = ("log", "trace", "event", "attribute")
SLOTS = [
    Slot("name", "concept:name", "string", ALL, lambda e, v: XConceptExtension().assign_name(e, v),
         lambda e: XConceptExtension().extract_name(e), ("set_name", "get_name")),
    Slot("instance", "concept:instance", "string", ("event",), lambda e, v: XConceptExtension().assign_instance(e, v),
         lambda e: XConceptExtension().extract_instance(e), ("set_instance", "get_instance")),
    Slot("resource", "org:resource", "string", ("event",), lambda e, v: XOrganizationalExtension().assign_resource(e, v),
         lambda e: XOrganizationalExtension().extract_resource(e), ("set_resource", "get_resourse")),
    Slot("role", "org:role", "string", ("event",), lambda e, v: XOrganizationalExtension().assign_role(e, v),
         lambda e: XOrganizationalExtension().extract_role(e), ("set_role", "get_role")),
    Slot("group", "org:group", "string", ("event",), lambda e, v: XOrganizationalExtension().assign_group(e, v),
         lambda e: XOrganizationalExtension().extract_group(e), ("set_group", "get_group")),
    Slot("model", "lifecycle:model", "string", ("log",), lambda e, v: XLifecycleExtension().assign_model(e, v),
         lambda e: XLifecycleExtension().extract_model(e)),
    Slot("transition", "lifecycle:transition", "string", ("event",),
         lambda e, v: XLifecycleExtension().assign_transition(e, v),
         lambda e: XLifecycleExtension().extract_transition(e), ("set_transition", "get_transition")),
    Slot("timestamp", "time:timestamp", "date", ("event",), lambda e, v: XTimeExtension().assign_timestamp(e, v),
         lambda e: XTimeExtension().extract_timestamp(e), ("set_time_stamp", "get_time_stamp")),
    Slot("identity", "identity:id", "id", ANY, lambda e, v: XIdentityExtension().assign_id(e, v),
         lambda e: XIdentityExtension().extract_id(e)),
    Slot("identity name", "identity:id", "id", ANY, lambda e, v: XIdentityExtension().assign_id(e, v),
         lambda e: XIdentityExtension().extract_name(e)),
    Slot("references", "semantic:modelReference", "string", ANY,
         lambda e, v: XSemanticExtension().assign_model_references(e, v),
         lambda e: XSemanticExtension().extract_model_references(e),
         ("set_model_references", "get_model_references"), unset=[]),
    Slot("level", "micro:level", "int", ("event",), lambda e, v: XMicroExtension().assign_level(e, v),
         lambda e: XMicroExtension().extract_level(e), None, lambda e: XMicroExtension().remove_level(e), -1),
    Slot("parent", "micro:parentId", "id", ("event",), lambda e, v: XMicroExtension().assign_parent_id(e, v),
         lambda e: XMicroExtension().extract_parent_id(e), None, lambda e: XMicroExtension().remove_parent_id(e)),
    Slot("length", "micro:length", "int", ("event",), lambda e, v: XMicroExtension().assign_length(e, v),
         lambda e: XMicroExtension().extract_length(e), None, lambda e: XMicroExtension().remove_length(e), -1),
    Slot("total", "cost:total", "float", ("trace", "event"), lambda e, v: XCostExtension().assign_total(e, v),
         lambda e: XCostExtension().extract_total(e)),
    Slot("currency", "cost:currency", "string", ("trace", "event"), lambda e, v: XCostExtension().assign_currency(e, v),
         lambda e: XCostExtension().extract_currency(e)),
    Slot("amount", "cost:amount", "float", ("attribute", "event"), lambda e, v: XCostExtension().assign_amount(e, v),
         lambda e: XCostExtension().extract_amount(e)),
    Slot("driver", "cost:driver", "string", ("attribute", "event"), lambda e, v: XCostExtension().assign_driver(e, v),
         lambda e: XCostExtension().extract_driver(e)),
    Slot("type", "cost:type", "string", ("attribute", "event"), lambda e, v: XCostExtension().assign_type(e, v),
         lambda e: XCostExtension().extract_type(e)),
]
BY_NAME = {s.name: s for s in SLOTS}
REQUIRED = ["checks", "views made before", "maps replaced", "blank values", "removed", "absent reads", "present reads", "views compared", "assigned identity name", "through the view", "millisecond stamps",
            "standard transitions", "decoded", "decoded to unknown", "reference uris", "read from documents",
            "assigned over existing", "assigned over a shared attribute", "assigned over an odd attribute",
            "assigned to new", "assigned name", "assigned instance", "assigned resource", "assigned role",
            "assigned group", "assigned model", "assigned transition", "assigned timestamp", "assigned identity",
            "assigned references", "assigned level", "assigned parent", "assigned length", "assigned total", "assigned currency",
            "assigned amount", "assigned driver", "assigned type"]


def setup(ctx):
    gen.register_custom()


def text(rng):
    for _ in range(20):
        t = gen.text(rng, empty=False)
        if t.strip():
            return t
    return "x"


def new_value(rng, slot):
    """(value to assign, comparable form of the value that is read back)"""
    if slot.name in ("model", "transition"):
        v = rng.choice(LIFECYCLE + ["standard", "my model"]) if rng.random() < 0.6 else text(rng).strip()
        return v, v
    if slot.name == "references":
        refs = []
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(["http://example.org/onto#A", "urn:X:y", "Plain", "http://EXAMPLE.org/a?b=C&d", "x" * 80, "é#ö", "a"])
            refs.append(t)
        return refs, refs
    if slot.kind == "string":
        v = text(rng)
        return v, v
    if slot.kind == "date":
        v = gen.stamp(rng)
        return v, v
    if slot.kind == "id":
        v = gen.uid(rng)
        return XID(v), str(v)
    if slot.name == "length":
        v = rng.choice([0, 0, 1, 5, 2**40, rng.randint(0, 10**6)])
        return v, v
    if slot.kind == "int":
        v = rng.choice([1, 2, 10**20, rng.randint(1, 10**6)])
        return v, v
    v = rng.choice([0.1, 1e-300, 1e300, 12.5, 5e-324, rng.random() + 1e-9])
    return v, v


def blank_value(rng, slot):
    if slot.name == "references":
        return []
    if slot.kind == "string":
        return rng.choice([None, "", " ", "\n", "\t  "])
    return None


def comparable(slot, value):
    if slot.kind == "id" and value is not None:
        return str(value).lower()
    if slot.kind == "date" and value is not None:
        return snap.date_value(value, False) + (value.tzinfo is None,)
    if slot.name == "references":
        return list(value)
    if slot.kind == "float" and isinstance(value, float):
        return repr(value)
    return value


def stored(slot, form):
    """Canonical (key, kind, value, ext) of the attribute for a comparable form."""
    value = form
    if slot.kind == "int":
        value = ("int", form)
    elif slot.kind == "date":
        value = form[:2]
    return [slot.key, slot.kind, value, slot.ext]


class World:
    """A log with two traces and events plus attributes, and the expected attributes of each."""

    def __init__(self, ctx, rng):
        g = gen.Gen(rng, std_typed=True, finite=True, nasty=0.1, depth=2)
        spec = gen.L()
        spec.attrs = g.attributes(rng.choice([0, 2, 4]))
        spec.attrs.append(g.attribute(2, "holder", rng.choice(gen.KIND_NAMES)))
        spec.traces = [g.trace(2), g.trace(1)]
        for attrs, events in spec.traces:
            attrs[:] = [a for a in attrs if a.key != "holder"] + [g.attribute(2, "holder", rng.choice(gen.KIND_NAMES))]
        log = gen.build_log(spec, style=rng.randint(0, 1))
        if rng.random() < 0.3:
            ctx.count("read from documents")
            out = io.BytesIO()
            XesXmlSerializer().serialize(log, out, True)
            log = XesXmlParser().parse(io.BytesIO(out.getvalue()))[0]
        self.log = log
        self.elements = {"log": [log], "trace": list(log), "event": [e for t in log for e in t],
                         "attribute": [log.get_attributes()["holder"]] + [t.get_attributes()["holder"] for t in log]}

    def snapshot(self):
        return snap.log(self.log, ms=False, maps=True, ids=True)


def extract(ctx, rng, slot, element, kind):
    if kind == "event" and slot.view and rng.random() < 0.4:
        ctx.count("through the view")
        return getattr(viewed(ctx, element), slot.view[1])()
    return slot.extract(element)


def case(ctx, rng, i):
    os.environ["TZ"] = rng.choice(ZONES)
    time.tzset()
    world = World(ctx, rng)
    VIEWS.clear()
    VIEWS.update((id(e), [XExtendedEvent.wrap(e)]) for e in world.elements["event"] if rng.random() < 0.7)
    definitions = snap.definitions()
    expected = {}           # (slot name, element id) -> comparable form assigned last
    history = []
    names = [s.name for s in SLOTS] + ["timestamp", "transition", "references"]
    for _ in range(rng.randint(15, 40)):
        slot = BY_NAME[rng.choice(names)]
        kind = rng.choice(slot.targets)
        element = rng.choice(world.elements[kind])
        if rng.random() < 0.1:
            # the element gets another map with the same attributes
            new = XFactory.create_attribute_map()
            new.update(element.get_attributes())
            if kind == "event" and rng.random() < 0.5:
                viewed(ctx, element).set_attributes(new)
            else:
                element.set_attributes(new)
            ctx.check(element.get_attributes() is new, "the element does not have the map it was given", kind=kind)
            ctx.count("maps replaced")
        step(ctx, rng, world, slot, kind, element, expected, history)
        if rng.random() < 0.2:
            view(ctx, rng, world)
    ctx.same(snap.definitions(), definitions, "the definitions of the extensions after a history")
    if history:
        ctx.distinct(repr(history))
    ctx.sample(history[:8])


def step(ctx, rng, world, slot, kind, element, expected, history):
    r = rng.random()
    if r >= 0.53 and rng.random() < 0.3:
        disturb(ctx, rng, world, slot, kind, element, expected)
    before = world.snapshot()
    mapping = element.get_attributes()
    old = mapping.get(slot.key)
    old_snap = None if old is None else snap.attr(old, False, maps=True)
    others = {k: v for k, v in mapping.items() if k != slot.key}
    place = (slot.key, id(element))
    what = {"slot": slot.name, "element": kind, "before": old_snap}
    if r < 0.35:            # read
        value = comparable(slot, extract(ctx, rng, slot, element, kind))
        if old is None:
            ctx.count("absent reads")
            ctx.same(value, slot.unset, "reading an absent attribute", **what)
        else:
            ctx.count("present reads")
            if place in expected:
                ctx.same(value, expected[place], "reading an assigned attribute", **what)
            elif slot.name == "references":
                ctx.same(value, old.get_value().split(), "reading an attribute", **what)
            else:
                ctx.same(value, comparable(slot, old.get_value()), "reading an attribute", **what)
        if slot.name == "transition":
            standard(ctx, rng, slot, element, old)
        if slot.name == "model":
            ctx.same(XLifecycleExtension().uses_standard_model(element), value is not None and value.strip() == "standard",
                     "uses the standard model", **what)
        if slot.name == "references":
            uris = (viewed(ctx, element).get_model_references_uris() if kind == "event" and rng.random() < 0.5
                    else XSemanticExtension().extract_model_reference_uris(element))
            ctx.same([u.geturl() for u in uris], [urlparse(v).geturl() for v in value], "reference URIs", **what)
        ctx.same(world.snapshot(), before, "reading changed something", **what)
        return
    if r < 0.45 and slot.remove is not None:
        slot.remove(element)
        ctx.count("removed")
        expected.pop(place, None)
        ctx.check(slot.key not in element.get_attributes(), "a removed attribute is still there", **what)
        ctx.same(comparable(slot, extract(ctx, rng, slot, element, kind)), slot.unset, "reading a removed attribute", **what)
        ctx.check(all(element.get_attributes().get(k) is v for k, v in others.items()), "removing touched other attributes",
                  **what)
        history.append(("remove", slot.name))
        mask(ctx, world, before, element, kind, slot, what)
        return
    if r < 0.53 and slot.name not in ("parent", "level", "length", "timestamp"):
        value = blank_value(rng, slot)
        ctx.count("blank values")
        assign(ctx, rng, slot, element, kind, value)
        ctx.same(world.snapshot(), before, "assigning a blank value changed something", value=value, **what)
        return
    value, form = new_value(rng, slot)
    if slot.name == "timestamp" and rng.random() < 0.4:
        value = rng.choice([0, 1, -1, 999, 1000, rng.randint(-10**12, 4 * 10**12)])
        ctx.count("millisecond stamps")
        assign(ctx, rng, slot, element, kind, value)
        got = extract(ctx, rng, slot, element, kind)
        epoch = (719162 * 86400) * 1000
        ctx.same(snap.date_micros(got)[0], (epoch + value) * 1000, "instant of a timestamp assigned in milliseconds",
                 value=value, zone=os.environ["TZ"], got=got)
        form = comparable(slot, got)
    elif slot.name == "transition" and rng.random() < 0.3:
        form = rng.choice(LIFECYCLE)
        text_form = rng.choice([form, form.upper(), form.capitalize()])
        ctx.count("standard transitions")
        if rng.random() < 0.5:
            XLifecycleExtension().assign_standard_transition(element, text_form)
        else:
            viewed(ctx, element).set_standard_transition(text_form)
    elif slot.name == "references" and rng.random() < 0.4:
        uris = [gen.uri(rng, v) for v in value]
        form = [u.geturl() for u in uris]
        ctx.count("reference uris")
        if kind == "event" and rng.random() < 0.5:
            viewed(ctx, element).set_model_references_uris(uris)
        else:
            XSemanticExtension().assign_model_reference_uris(element, uris)
    else:
        assign(ctx, rng, slot, element, kind, value)
        form = form if slot.kind == "id" else comparable(slot, value)
    ctx.count("assigned " + slot.name)
    ctx.count("assigned to new" if old is None else "assigned over existing")
    history.append(("assign", slot.name, kind, repr(form)[:60]))
    expected[place] = form
    what["value"] = form
    got = comparable(slot, extract(ctx, rng, slot, element, kind))
    ctx.same(got, form, "reading after assigning", **what)
    attribute = element.get_attributes().get(slot.key)
    ctx.check(attribute is not None, "nothing is stored under the standard key", **what)
    found = snap.attr(attribute, False, maps=True)
    if slot.name == "references":
        ctx.same([found[0], found[1], found[2].split() if isinstance(found[2], str) else found[2], found[3]],
                 [slot.key, "string", form, slot.ext], "the stored attribute", **what)
    else:
        ctx.same(found[:4], stored(slot, form), "the stored attribute", **what)
    if slot.name == "transition":
        standard(ctx, rng, slot, element, attribute)
    ctx.check(all(element.get_attributes().get(k) is v for k, v in others.items()), "assigning touched other attributes", **what)
    mask(ctx, world, before, element, kind, slot, what)


def view(ctx, rng, world):
    """The extended view of an event is the event."""
    event = rng.choice(world.elements["event"])
    if rng.random() < 0.3:
        event = XFactory.create_event()
    wrapped = viewed(ctx, event)
    ctx.count("views compared")
    ctx.same(wrapped.has_attributes(), bool(event.get_attributes()), "has_attributes of the view")
    ctx.check(dict(wrapped.get_attributes()) == dict(event.get_attributes()) and
              all(wrapped.get_attributes()[k] is a for k, a in event.get_attributes().items()), "attributes of the view")
    ctx.check(set(map(id, wrapped.get_extensions())) == set(map(id, event.get_extensions())), "extensions of the view")


def disturb(ctx, rng, world, slot, kind, element, expected):
    """Before an assignment: an attribute of another kind, without extension or with nested attributes is
    in its place, or one that another element holds too."""
    make = XFactory
    current = element.get_attributes().get(slot.key)
    if current is not None and rng.random() < 0.4:
        others = [e for e in world.elements[kind] if e is not element]
        if others:
            other = rng.choice(others)
            other.get_attributes()[slot.key] = current
            expected.pop((slot.key, id(other)), None)
            if (slot.key, id(element)) in expected:
                expected[slot.key, id(other)] = expected[slot.key, id(element)]
            ctx.count("assigned over a shared attribute")
            return
    ext = rng.choice([None, XConceptExtension(), XTimeExtension()])
    odd = rng.choice([
        lambda: make.create_attribute_literal(slot.key, "old", ext),
        lambda: make.create_attribute_discrete(slot.key, 7, ext),
        lambda: make.create_attribute_boolean(slot.key, True, ext),
        lambda: make.create_attribute_continuous(slot.key, 1.5, ext),
        lambda: make.create_attribute_id(slot.key, XID(), ext),
        lambda: make.create_attribute_timestamp(slot.key, 5000, ext),
        lambda: make.create_attribute_list(slot.key, ext)])()
    if rng.random() < 0.5:
        odd.get_attributes()["inner"] = make.create_attribute_literal("inner", "x", None)
    element.get_attributes()[slot.key] = odd
    ctx.count("assigned over an odd attribute")


def mask(ctx, world, before, element, kind, slot, what):
    """Nothing but the one attribute differs from the snapshot before the step."""
    mapping = element.get_attributes()
    attribute = mapping.get(slot.key)
    saved = dict(mapping)
    order = list(mapping)
    after = world.snapshot()
    strip = strip_path(world, element)
    ctx.same(remove_at(after, strip, slot.key), remove_at(before, strip, slot.key),
             "something else than the attribute changed", **what)
    ctx.check(list(mapping) == order and all(mapping[k] is v for k, v in saved.items()) and
              mapping.get(slot.key) is attribute, "looking changed the element")


def strip_path(world, element):
    """Path of an element inside the snapshot of the log."""
    log = world.log
    if element is log:
        return ("log",)
    for n, t in enumerate(log):
        if element is t:
            return ("trace", n)
        for m, e in enumerate(t):
            if element is e:
                return ("event", n, m)
        if element is t.get_attributes().get("holder"):
            return ("holder", n)
    return ("holder", None)


def remove_at(snapshot, path, key):
    import copy
    out = copy.deepcopy(snapshot)
    if path[0] == "log":
        out["attrs"].pop(key, None)
    elif path[0] == "trace":
        out["traces"][path[1]]["attrs"].pop(key, None)
    elif path[0] == "event":
        out["traces"][path[1]]["events"][path[2]]["attrs"].pop(key, None)
    else:
        holder = (out if path[1] is None else out["traces"][path[1]])["attrs"]["holder"]
        holder[-1].pop(key, None)
    return out


def standard(ctx, rng, slot, element, attribute):
    """The standard transition of the event, and of texts like its own."""
    got = (XLifecycleExtension().extract_standard_transition(element) if rng.random() < 0.5
           else viewed(ctx, element).get_standard_transition())
    if attribute is None:
        ctx.check(got is None, "an event without transition has the standard transition %r" % (got,))
    else:
        ctx.same(got, decoded(attribute.get_value()), "standard transition", transition=attribute.get_value())
    base = rng.choice(LIFECYCLE)
    t = rng.choice([base, base.upper(), base.capitalize(), base.swapcase(), base + "x", base[:-1], "x" + base, base[1:], "",
                    "other", base.replace("_", "-"), base + "ed", text(rng), "pi-abort", "piabort", "skip", "abort"])
    got = XLifecycleExtension.StandardModel().decode(t)
    ctx.count("decoded" if decoded(t) != "unknown" else "decoded to unknown")
    ctx.same(got, decoded(t), "decoding of a transition", text=t)


def decoded(t):
    t = t.strip().lower()
    return t if t in LIFECYCLE else "unknown"


def assign(ctx, rng, slot, element, kind, value):
    if kind == "event" and slot.view and rng.random() < 0.4:
        ctx.count("through the view")
        getattr(viewed(ctx, element), slot.view[0])(value)
    else:
        slot.assign(element, value)
