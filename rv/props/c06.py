"""MXML round trip keeps process, instances, entries and extra attributes."""
import io
import os

from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent

from rv import gen, snap

RULE = ("random logs (some with thousands of elements) with names, originators (resource, role, group), transitions (standard in any case, other), "
        "timestamps, model references and extra attributes of every type with nested ones, written as MXML (plain, "
        "binary, compressed) and read back; oracle: the perspectives computed from the abstract log; non-trivial: at "
        "least one entry")
ASSUMPTIONS = ["names and originators are non-blank, without outer white space, transitions non-blank, all without control characters",
               "extra values have no outer white space or carriage return; extra keys do not start with ':'"]
CASES = {"quick": 16000, "thorough": 160000}
REQUIRED = ["checks", "instances", "entries", "originator from org:resource", "originator from org:role",
            "originator from org:group", "standard transitions", "other transitions", "no transition", "timestamps",
            "extra attributes", "model reference log", "model reference trace", "model reference event",
            "model reference transition", "empty instances", "target gzip", "target text", "target binary", "targets in other encodings", "huge logs", "transitions with outer blanks", "events in two traces"]

STANDARD = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort",
            "complete", "autoskip", "manualskip"]
OTHER = ["unknown", "in progress", "Completed", "custom", "COMPLETE_", "Être", "a&b <c>", "starting", "pi-abort", "x\"y'z",
         "UNKNOWN", "normal", "abort"]
SPECIAL = set(gen.STD_KEYS) - {"concept:instance", "cost:total", "cost:currency", "identity:id", "micro:level"}
SPECIAL |= {"source", "description"}


def setup(ctx):
    gen.register_custom()


def clean(text):
    for c in "\t\n\r":
        text = text.replace(c, " ")
    return text.strip()


def name(rng):
    return clean(gen.name_text(rng)) or "n"


def reference(rng):
    return " ".join(rng.choice(["http://example.org/onto#a", "http://example.org/onto?x=1&y=2", "urn:x:y", "ref", "ünï#1"])
                    for _ in range(rng.randint(1, 3)))


def extras(g, rng, n):
    out, keys = [], set()
    for a in g.attributes(n, 2):
        a.key = clean(a.key).lstrip(":").strip() or "k"
        a.ext = gen.extension_of_key(a.key, g.known)
        if a.key in SPECIAL or a.key in keys:
            continue
        if a.kind == "string":
            a.value = a.value.replace("\r", "").strip()
        keys.add(a.key)
        out.append(a)
    return out


def literal(key, value, kids=()):
    return gen.A(key, "string", value, gen.extension_of_key(key, gen.STD), kids)


def with_reference(ctx, rng, attrs, what):
    if rng.random() < 0.2:
        attrs.insert(rng.randint(0, len(attrs)), literal("semantic:modelReference", reference(rng)))
        ctx.count("model reference " + what)
    return attrs


def entry(ctx, g, rng):
    attrs = extras(g, rng, rng.choice([0, 0, 1, 2, 4]))
    if rng.random() < 0.9:
        attrs.append(literal("concept:name", name(rng)))
    for key, p in (("org:resource", 0.4), ("org:role", 0.4), ("org:group", 0.4)):
        if rng.random() < p:
            attrs.append(literal(key, name(rng)))
    if rng.random() < 0.7:
        r = rng.random()
        if r < 0.6:
            value = rng.choice(STANDARD)
            value = rng.choice([value, value, value.upper(), value.capitalize()])
        else:
            value = rng.choice(OTHER) if rng.random() < 0.7 else name(rng)
        if rng.random() < 0.08 and value.lower() not in STANDARD:
            ctx.count("transitions with outer blanks")
            value = rng.choice([" ", "", "  "]) + value + rng.choice([" ", "  "])
        kids = []
        if rng.random() < 0.2:
            kids.append(literal("semantic:modelReference", reference(rng)))
            ctx.count("model reference transition")
        attrs.append(literal("lifecycle:transition", value, kids))
    if rng.random() < 0.7:
        attrs.append(gen.A("time:timestamp", "date", gen.stamp(rng), gen.STD["time"][1]))
        ctx.count("timestamps")
    rng.shuffle(attrs)
    return with_reference(ctx, rng, attrs, "event")


def make(ctx, rng, i):
    g = gen.Gen(rng, std_typed=True, nasty=rng.choice([0, 0.2, 0.5]))
    spec = gen.L()
    spec.extensions = rng.sample(list(gen.STD), rng.randint(0, 5))
    spec.attrs = extras(g, rng, rng.choice([0, 1, 3]))
    if rng.random() < 0.9:
        spec.attrs.append(literal("concept:name", name(rng)))
    with_reference(ctx, rng, spec.attrs, "log")
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        attrs = extras(g, rng, rng.choice([0, 0, 1, 2]))
        if rng.random() < 0.9:
            attrs.append(literal("concept:name", name(rng)))
        with_reference(ctx, rng, attrs, "trace")
        spec.traces.append((attrs, [entry(ctx, g, rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]))
    if i % 397 == 29:
        ctx.count("huge logs")
        n = rng.choice([600, 1100, 2100]) * (1 if ctx.quick else rng.choice([1, 8]))
        what = i // 397 % 3
        if what == 0:           # instances, some of them empty
            spec.traces = [([literal("concept:name", "case %d" % k)], [entry(ctx, g, rng)] * (k % 5 > 0)) for k in range(n)]
        elif what == 1:
            spec.traces.append(([], [entry(ctx, g, rng) for _ in range(n)]))
        else:
            many = [literal("extra %d" % k, "value %d" % k) for k in range(n)]
            place = rng.randint(0, 2)
            if place == 0:
                spec.attrs += many
            else:
                spec.traces.append((many if place == 1 else [], [entry(ctx, g, rng) + (many if place == 2 else [])]))
    return spec


def value_of(attrs, key):
    for a in attrs:
        if a.key == key:
            return a.value
    return None


def extra_texts(element):
    """Printed texts of the extra attributes of a library element that is about to be written
    (None where white space keeps the text from being comparable)."""
    return {k: str(a) if str(a).strip() and "\r" not in str(a) and str(a) == str(a).strip() else None
            for k, a in element.get_attributes().items() if k not in SPECIAL}


def check_element(ctx, element, extra, standard, where):
    """extra: key -> text; standard: keys handled elsewhere."""
    attributes = element.get_attributes()
    for key, text in extra.items():
        if text is None:
            continue
        ctx.check(key in attributes, "%s: attribute %r is lost" % (where, key))
        a = attributes[key]
        ctx.check(snap.kind(a) == "string" and a.get_key() == key, "%s: attribute %r is no text" % (where, key))
        ctx.same(a.get_value(), text, "%s: attribute %r" % (where, key))
        ctx.count("extra attributes")
    for key in attributes:
        ctx.check(key in extra or key in standard or key.startswith(":"),
                  "%s: attribute %r appears from nowhere" % (where, key), value=str(attributes[key]))


def case(ctx, rng, i):
    spec = make(ctx, rng, i)
    log = gen.build_log(spec, style=rng.randint(0, 1))
    if spec.events() and rng.random() < 0.1:        # one event object in several places
        ctx.count("events in two traces")
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([n for n, t in enumerate(spec.traces) if t[1]])
            to, m = rng.randrange(len(spec.traces)), rng.randrange(len(spec.traces[n][1]))
            spec.traces[to][1].append(spec.traces[n][1][m])
            log[to].append(log[n][m])
    if spec.events():
        ctx.distinct(repr(spec))
    before = snap.log(log, ms=False, maps=True, ids=True, features=True)
    extra_log = extra_texts(log)
    kept = [(t, lt) for t, lt in zip(spec.traces, log) if t[1]]
    ctx.count("empty instances", len(spec.traces) - len(kept))
    extra_traces = [extra_texts(lt) for _, lt in kept]
    extra_events = [[extra_texts(e) for e in lt] for _, lt in kept]
    target = ["text", "binary", "gzip", "file"][i // 8 % 4]
    ctx.count("target " + target)
    serializer = XMxmlSerializer()
    if target == "text":
        out = io.StringIO()
        serializer.serialize(log, out)
        document = out.getvalue()
        logs = XMxmlParser().parse(io.StringIO(document))
    elif target == "binary":
        out = io.BytesIO()
        serializer.serialize(log, out, True)
        document = out.getvalue().decode("utf-8")
        logs = XMxmlParser().parse(io.BytesIO(out.getvalue()))
    elif target == "file":
        path = os.path.join(ctx.scratch, "x.mxml")
        codec = rng.choice(["utf-8"] + gen.CODECS)
        ctx.count("targets in other encodings", codec != "utf-8")
        with open(path, "w", encoding=codec) as out:
            serializer.serialize(log, out)
        with open(path, "rb") as f:
            logs = XMxmlParser().parse(f)
        with open(path, encoding=codec) as f:
            document = f.read()
    else:
        path = os.path.join(ctx.scratch, "x.mxml.gz")
        XMxmlGZIPSerializer().serialize(log, open(path, "wb"))
        logs = XMxmlGZIPParser().parse(open(path, "rb"))
        document = "(compressed)"
    ctx.same(snap.log(log, ms=False, maps=True, ids=True, features=True), before, "writing MXML changed the log")
    try:
        compare(ctx, spec, kept, extra_log, extra_traces, extra_events, logs)
    except Exception as error:
        error.args = (str(error) + "\n  document: " + document[:6000],)
        raise
    ctx.sample(document)


def compare(ctx, spec, kept, extra_log, extra_traces, extra_events, logs):
    ctx.check(isinstance(logs, list) and len(logs) == 1, "one log is read", got=len(logs))
    back = logs[0]
    process = value_of(spec.attrs, "concept:name")
    if process is not None:
        ctx.same(back.get_attributes()["concept:name"].get_value(), process, "process name")
    standard = {"concept:name", "description", "source", "lifecycle:model", "semantic:modelReference"}
    check_element(ctx, back, extra_log, standard, "log")
    same_reference(ctx, back, value_of(spec.attrs, "semantic:modelReference"), "log")
    ctx.same(len(back), len(kept), "number of process instances")
    for n, ((tspec, _), trace, textra, eextras) in enumerate(zip(kept, back, extra_traces, extra_events)):
        where = "instance %d" % n
        ctx.count("instances")
        tname = value_of(tspec[0], "concept:name")
        if tname is not None:
            ctx.same(trace.get_attributes()["concept:name"].get_value(), tname, where + ": name")
        check_element(ctx, trace, textra, {"concept:name", "description", "semantic:modelReference"}, where)
        same_reference(ctx, trace, value_of(tspec[0], "semantic:modelReference"), where)
        ctx.same(len(trace), len(tspec[1]), where + ": number of entries")
        for m, (espec, event, eextra) in enumerate(zip(tspec[1], trace, eextras)):
            check_entry(ctx, espec, event, eextra, "%s entry %d" % (where, m))


def same_reference(ctx, element, expected, where):
    a = element.get_attributes().get("semantic:modelReference")
    ctx.same(None if a is None else a.get_value(), expected, where + ": model reference")


def check_entry(ctx, espec, event, eextra, where):
    ctx.count("entries")
    view = XExtendedEvent.wrap(event)
    ctx.same(view.get_name(), value_of(espec, "concept:name"), where + ": activity")
    originator = None
    for key in ("org:resource", "org:role", "org:group"):
        if value_of(espec, key) is not None:
            originator = value_of(espec, key)
            ctx.count("originator from " + key)
            break
    got = event.get_attributes().get("org:resource")
    ctx.same(None if got is None else got.get_value(), originator, where + ": originator")
    for key in ("org:role", "org:group"):
        got = event.get_attributes().get(key)
        if got is not None or value_of(espec, key) is not None:
            ctx.same(None if got is None else got.get_value(), value_of(espec, key), where + ": " + key)
    transition = value_of(espec, "lifecycle:transition")
    if transition is None:
        expected = "complete"
        ctx.count("no transition")
    elif transition.lower() in STANDARD:
        expected = transition.lower()
        ctx.count("standard transitions")
    else:
        expected = transition
        ctx.count("other transitions")
    got = event.get_attributes().get("lifecycle:transition")
    ctx.same(None if got is None else got.get_value(), expected, where + ": transition")
    refs = [k.value for a in espec if a.key == "lifecycle:transition" for k in a.kids]
    if refs:
        same_reference(ctx, got, refs[0], where + ": transition")
    stamp = [a.value for a in espec if a.key == "time:timestamp"]
    got = event.get_attributes().get("time:timestamp")
    ctx.same(None if got is None else snap.date_value(got.get_value())[0],
             snap.date_value(stamp[0])[0] if stamp else None, where + ": timestamp")
    same_reference(ctx, event, value_of(espec, "semantic:modelReference"), where)
    standard = {"concept:name", "org:resource", "org:role", "org:group", "lifecycle:transition", "time:timestamp",
                "semantic:modelReference"}
    check_element(ctx, event, eextra, standard, where)
