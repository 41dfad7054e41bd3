"""Reading MXML gives exactly the logs the document denotes."""
import gzip
import io
import os

from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XUniversalParser import XUniversalParser

from rv import gen, snap, xesdoc

RULE = ("random abstract MXML logs (thousands of elements at times, several processes, instances with and without entries, data at every level, known "
        "and unknown event types, readable and unreadable timestamps, blank and absent fields, model references) "
        "rendered by an independent writer with the lexical freedom of XML and read from byte, text, file, gzip and "
        "chunked streams; oracle: the logs computed from the abstract document; non-trivial: at least one entry")
ASSUMPTIONS = ["tags in their canonical letter case; names of data attributes are unique per element and not standard keys",
               "a Source element names a program; instances and processes have an id attribute"]
CASES = {"quick": 45000, "thorough": 450000}
REQUIRED = ["checks", "processes", "instances", "entries", "empty instances", "unknown event types",
            "unreadable timestamps", "blank fields", "data attributes", "model references", "source chunks",
            "documents with several processes", "source gzip", "huge logs", "sources between processes", "sources after the processes"]
URI = {k: v[1] for k, v in gen.STD.items()}


def setup(ctx):
    gen.register_custom()
    ctx.state["parser"] = XMxmlParser()


class Maker:
    """Builds the markup and the expected logs side by side."""

    def __init__(self, ctx, rng, huge=None):
        self.ctx, self.rng = ctx, rng
        self.huge = huge                    # of what there is very much, and how much
        self.nasty = rng.choice([0, 0.2, 0.6])
        self.doc = xesdoc.Doc(rng, None, gen.STD)
        self.doc.cases = 0
        if self.doc.doctype:
            self.doc.entities = {"co": "Company & Co <ltd>", "nm": "register request", "e": "", "tr": "complete"}

    def words(self):
        t = gen.text(self.rng, empty=False) if self.rng.random() < self.nasty else self.rng.choice(
            gen.WORDS + ["Company & Co <ltd>", "register request"])
        return t.strip() or "t"

    def blank(self):
        self.ctx.count("blank fields")
        return self.rng.choice(["", " ", "\n", "\t \n"])

    def reference(self, p=0.15):
        if self.rng.random() < p:
            self.ctx.count("model references")
            return self.rng.choice(["http://example.org/onto#a", "urn:a b", "x?a=1&b=2", "réf"])
        return None

    def attributes(self, pairs, reference):
        out = [(k, v) for k, v in pairs if v is not None]
        if reference is not None:
            out.append(("modelReference", reference))
        elif self.rng.random() < 0.05:
            out.append(("modelReference", ""))
        if self.rng.random() < 0.05:
            out.append(("other", "x"))
        return out

    def number(self, what, usual):
        """How many of something there are; very many once."""
        if self.huge and self.huge[0] == what:
            n, self.huge = self.huge[1], None
            return n
        return self.rng.choice(usual)

    def semantic(self, target, reference):
        if reference is not None:
            target["semantic:modelReference"] = ["semantic:modelReference", "string", reference, URI["semantic"], {}]

    def data(self, target, p, kind="Data"):
        """Data attributes of one element; fills target with the expected attributes."""
        rng, doc = self.rng, self.doc
        if rng.random() > p:
            return []
        marks, names = [], set()
        for n in range(self.number("data", [0, 1, 1, 2, 3])):
            name = "name %d" % n if n > 9 else (gen.key_text(rng, self.nasty).strip() or "k") if rng.random() < 0.8 else rng.choice(
                ["rvcust:a", "cost:x", "name", "id", "source data", "value", "Attribute"])
            if name in names or name in gen.STD_KEYS or name in ("source", "description"):
                continue
            names.add(name)
            reference = self.reference(0.1)
            shown = name if rng.random() < 0.8 else " " + name + " "
            pairs = self.attributes([("name", shown)], reference)
            if rng.random() < 0.15:
                marks.append(doc.text_element("Attribute", pairs, self.blank()))
                continue
            value = self.words()
            kids = {}
            self.semantic(kids, reference)
            target[name] = [name, "string", value, None, kids]
            marks.append(doc.text_element("Attribute", pairs, value))
            self.ctx.count("data attributes")
        if rng.random() < 0.2 and len(marks) > 1:
            return [doc.element(kind, [], marks[:1]), doc.element(kind, [], marks[1:])]
        return [doc.element(kind, [], marks)]

    def entry(self):
        rng, doc, ctx = self.rng, self.doc, self.ctx
        ctx.count("entries")
        attrs, parts = {}, []
        parts.extend(self.data(attrs, 0.5))
        if rng.random() < 0.9:
            reference = self.reference()
            pairs = self.attributes([], reference)
            self.semantic(attrs, reference)
            if rng.random() < 0.1:
                parts.append(doc.text_element("WorkflowModelElement", pairs, self.blank()))
            else:
                text = self.words()
                parts.append(doc.text_element("WorkflowModelElement", pairs, text))
                attrs["concept:name"] = ["concept:name", "string", text, URI["concept"], {}]
        if rng.random() < 0.85:
            reference = self.reference()
            unknown = None
            if rng.random() < 0.2:
                unknown = self.words().replace("\t", " ").replace("\n", " ").replace("\r", " ")
                ctx.count("unknown event types")
            pairs = self.attributes([("unknownType", unknown)], reference)
            text = rng.choice(["complete", "start", "schedule", "ate_abort", "pi_abort", "normal", "COMPLETE"])
            if unknown is not None:
                text = rng.choice(["unknown", "unknown", "", "complete"])
            elif rng.random() < 0.1:
                text = self.blank()
            parts.append(doc.text_element("EventType", pairs, text))
            value = unknown if unknown is not None else text.strip()
            if value:
                kids = {}
                self.semantic(kids, reference)
                attrs["lifecycle:transition"] = ["lifecycle:transition", "string", value, URI["lifecycle"], kids]
        if rng.random() < 0.8:
            r = rng.random()
            if r < 0.15:
                ctx.count("unreadable timestamps")
                text = rng.choice(xesdoc.BAD_DATES)
            else:
                value = gen.stamp(rng, rng.choice(["naive", "fixed", "utc"]))
                text = xesdoc.date_variant(rng, value)
                attrs["time:timestamp"] = ["time:timestamp", "date", snap.date_value(value, False), URI["time"], {}]
            parts.append(doc.text_element("Timestamp", [], text))
        if rng.random() < 0.7:
            reference = self.reference()
            pairs = self.attributes([], reference)
            if rng.random() < 0.15:
                parts.append(doc.text_element("Originator", pairs, self.blank()))
            else:
                text = self.words()
                kids = {}
                self.semantic(kids, reference)
                parts.append(doc.text_element("Originator", pairs, text))
                attrs["org:resource"] = ["org:resource", "string", text, URI["org"], kids]
        if rng.random() < 0.3:
            rng.shuffle(parts)
        return doc.element("AuditTrailEntry", [], parts), {"attrs": attrs}

    def header(self, attrs):
        """id, description and model reference of a process or instance."""
        rng = self.rng
        name = self.words()
        if rng.random() < 0.1:
            name = self.blank()
        else:
            attrs["concept:name"] = ["concept:name", "string", name, URI["concept"], {}]
        description = None
        if rng.random() < 0.6:
            description = self.words()
            if rng.random() < 0.2:
                description = self.blank()
            else:
                attrs["description"] = ["description", "string", description, None, {}]
        reference = self.reference()
        self.semantic(attrs, reference)
        return self.attributes([("id", name), ("description", description)], reference)

    def process(self, source):
        rng, doc, ctx = self.rng, self.doc, self.ctx
        ctx.count("processes")
        attrs = {"lifecycle:model": ["lifecycle:model", "string", "standard", URI["lifecycle"], {}]}
        if source is not None:
            attrs["source"] = source
        pairs = self.header(attrs)
        parts, traces = [], []
        parts.extend(self.data(attrs, 0.4))
        for _ in range(self.number("instances", [0, 1, 1, 2, 3, 5])):
            tattrs = {}
            tpairs = self.header(tattrs)
            body = self.data(tattrs, 0.4)
            entries = [self.entry() for _ in range(self.number("entries", [0, 1, 1, 2, 3, 5]))]
            body.extend(m for m, _ in entries)
            if rng.random() < 0.1:
                extra = {}
                late = self.data(extra, 1)
                if not set(extra) & set(tattrs):
                    tattrs.update(extra)
                    body.extend(late)
            parts.append(doc.element("ProcessInstance", tpairs, body))
            if entries:
                ctx.count("instances")
                traces.append({"attrs": tattrs, "events": [e for _, e in entries]})
            else:
                ctx.count("empty instances")
        return doc.element("Process", pairs, parts), {"attrs": attrs, "traces": traces}

    def document(self):
        rng, doc = self.rng, self.doc
        source, parts = None, []

        def origin():
            kids = {}
            reference = self.reference()
            body = self.data(kids, 0.4)
            self.semantic(kids, reference)
            program = self.words()
            parts.append(doc.element("Source", self.attributes([("program", program)], reference), body))
            return ["source", "string", program, None, kids]
        if rng.random() < 0.95:
            source = origin()
        logs = []
        for n in range(self.number("processes", [0, 1, 1, 1, 1, 2, 3])):
            if n and n < 9 and rng.random() < 0.15:             # a source holds for the processes after it
                source = origin()
                self.ctx.count("sources between processes")
            mark, log = self.process(source)
            parts.append(mark)
            logs.append(log)
        if logs and rng.random() < (0.5 if source is None else 0.05):
            origin()
            self.ctx.count("sources after the processes")
        pairs = [("description", "a log")] if rng.random() < 0.5 else []
        if rng.random() < 0.3:
            pairs.append(("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"))
        root = doc.element("WorkflowLog", pairs, parts)
        return doc.finish(root, ["WorkflowLog"]), logs


def strip_ext(attrs):
    """Extension associations are compared for the standard keys only."""
    out = {}
    for key, (k, kind, value, ext, kids) in attrs.items():
        out[key] = [k, kind, value, ext if key in gen.STD_KEYS else None, strip_ext(kids)]
    return out


def observed(log):
    return {"attrs": strip_ext(snap.attrs(log.get_attributes(), ms=False)),
            "traces": [{"attrs": strip_ext(snap.attrs(t.get_attributes(), ms=False)),
                        "events": [{"attrs": strip_ext(snap.attrs(e.get_attributes(), ms=False))} for e in t]}
                       for t in log]}


EXTENSIONS = sorted(URI[p] for p in ("concept", "org", "lifecycle", "semantic", "time"))


def check_header(ctx, log):
    ctx.same(sorted(e.get_uri().geturl() for e in log.get_extensions()), EXTENSIONS, "extensions")
    ctx.same([[c.name(), list(c.get_defining_attribute_keys())] for c in log.get_classifiers()],
             [["MXML Legacy Classifier", ["concept:name", "lifecycle:transition"]], ["Event Name", ["concept:name"]],
              ["Resource", ["org:resource"]]], "classifiers")
    ctx.same([[a.get_key(), snap.kind(a)] for a in log.get_global_trace_attributes()], [["concept:name", "string"]],
             "global trace attributes")
    ctx.same([[a.get_key(), snap.kind(a)] for a in log.get_global_event_attributes()],
             [["concept:name", "string"], ["lifecycle:transition", "string"]], "global event attributes")


def case(ctx, rng, i):
    huge = None
    if i % 397 == 31:
        huge = [["instances", 1100], ["entries", 2100], ["data", 1100], ["processes", 300]][i // 397 % 4]
        huge[1] *= 1 if ctx.quick else rng.choice([1, 5])
    maker = Maker(ctx, rng, huge)
    (data, text), expected = maker.document()
    if any(e for log in expected for t in log["traces"] for e in t["events"]):
        ctx.distinct(data)
    ctx.count("huge logs", huge is not None and maker.huge is None)
    if len(expected) > 1:
        ctx.count("documents with several processes")
    source = ["bytes", "text", "file", "chunks", "gzip", "universal"][i // 8 % 6]
    ctx.count("source " + source)
    parser = ctx.state["parser"] if rng.random() < 0.7 else XMxmlParser()
    path = os.path.join(ctx.scratch, "x.mxml" + (".gz" if source == "gzip" else ""))
    if source == "text":
        handle = io.StringIO(text)
    elif source == "bytes":
        handle = io.BytesIO(data)
    elif source == "chunks":
        handle = xesdoc.chunky(data, rng, rng.choice([1, 2, 7, 1000]))
    else:
        with open(path, "wb") as f:
            f.write(gzip.compress(data) if source == "gzip" else data)
        handle = open(path, "rb")
        if source == "gzip":
            parser = XMxmlGZIPParser()
        elif source == "universal" and expected:
            parser = XUniversalParser()
    try:
        logs = parser.parse(handle)
    except Exception as error:
        ctx.fail("a well-formed document is not read: %r" % error, source=source, document=text)
    finally:
        handle.close()
    actual = [observed(log) for log in logs]
    ctx.same(actual, expected, "the logs read differ (%s, %s)" % (source, maker.doc.encoding), document=text)
    for log in logs:
        check_header(ctx, log)
    ctx.sample(text)
