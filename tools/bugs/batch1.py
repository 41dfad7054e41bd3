"""Planted bugs, first batch (see tools/seed.py)."""
PRE = '''
import io, os, sys, tempfile, contextlib
from datetime import datetime, timedelta, timezone
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer


def quiet(f, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args)


def read(text, parser=XesXmlParser):
    return quiet(parser().parse, io.BytesIO(text.encode("utf-8")))


def write(log, serializer=XesXmlSerializer):
    out = io.StringIO()
    quiet(serializer().serialize, log, out)
    return out.getvalue()


def put(element, *attributes):
    for a in attributes:
        element.get_attributes()[a.get_key()] = a
    return element


def log_of(*traces):
    log = F.create_log()
    for events in traces:
        trace = F.create_trace()
        for attributes in events:
            trace.append(put(F.create_event(), *attributes))
        log.append(trace)
    return log

'''


def bug(id, property, needs, breaks, edits, demo):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo)


BUGS = [
    bug("c01-list-children-unique", "C01", "a list attribute with two children of the same key",
        "the writer keeps one child per key, so repeated list children are lost on the way",
        [("data_out/XesXmlSerializer.py", "collection = attribute.get_collection()",
          "collection = {child.get_key(): child for child in attribute.get_collection()}.values()")],
        '''
log = log_of([[]])
items = F.create_attribute_list("items")
for v in ("a", "b", "c"):
    items.add_to_collection(F.create_attribute_literal("item", v))
put(log[0][0], items)
back = read(write(log))[0]
got = [c.get_value() for c in back[0][0].get_attributes()["items"].get_collection()]
assert got == ["a", "b", "c"], got
'''),
    bug("c01-nested-under-empty-text", "C01", "an attribute with an empty text that has nested attributes",
        "nested attributes of attributes with an empty value are not written",
        [("data_out/XesXmlSerializer.py", "elif attribute.has_attributes():",
          "elif str(attribute) and attribute.has_attributes():")],
        '''
log = log_of([[]])
a = put(F.create_attribute_literal("note", ""), F.create_attribute_discrete("weight", 3))
put(log[0][0], a)
back = read(write(log))[0][0][0].get_attributes()["note"]
assert back.get_attributes()["weight"].get_value() == 3
'''),
    bug("c01-float-digits", "C01", "a float that needs 17 significant digits",
        "floats are written with 15 significant digits and come back changed",
        [("model/XAttributeContinuous.py", "return str(self.__value)", 'return "{:.15g}".format(self.__value)')],
        '''
value = 0.1 + 0.2
log = log_of([[F.create_attribute_continuous("x", value)]])
back = read(write(log))[0][0][0].get_attributes()["x"].get_value()
assert back == value, back
'''),
    bug("c02-writing-sets-features", "C02", "any log without the xes.features marker, looked at after writing it",
        "writing registers a feature marker on the log it writes",
        [("data_out/XesXmlSerializer.py", 'log_xml.set("xes.features", "nested-attributes")',
          'log_xml.set("xes.features", log.get_features().setdefault("xes.features", "nested-attributes"))')],
        '''
log = log_of([[]])
before = dict(log.get_features())
write(log)
assert log.get_features() == before, log.get_features()
'''),
    bug("c02-classifier-keys-sorted", "C02", "a log with a classifier whose keys are not in alphabetical order",
        "writing a classifier sorts its keys, in the document and in the log",
        [("data_out/XesXmlSerializer.py",
          'classifier_xml.set("keys", XTokenHelper.format_token(classifier.get_defining_attribute_keys()))',
          'keys = classifier.get_defining_attribute_keys()\n'
          '                keys.sort()\n'
          '                classifier_xml.set("keys", XTokenHelper.format_token(keys))')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[]])
log.get_classifiers().append(XEventAttributeClassifier("both", ["lifecycle:transition", "concept:name"]))
text = write(log)
assert 'keys="lifecycle:transition concept:name"' in text
assert log.get_classifiers()[0].get_defining_attribute_keys() == ["lifecycle:transition", "concept:name"]
'''),
    bug("c03-prefix-last-colon", "C03", "an attribute key with two colons whose first part is a registered prefix",
        "the extension is looked up by everything before the last colon",
        [("data_in/XesXmlParser.py", 'prefix = name[:name.index(":")]', 'prefix = name[:name.rindex(":")]')],
        '''
log = read('<log><trace><event><string key="concept:name:short" value="x"/></event></trace></log>')[0]
a = log[0][0].get_attributes()["concept:name:short"]
assert a.get_extension() is not None and a.get_extension().get_prefix() == "concept"
'''),
    bug("c03-global-end-tag-case", "C03", "an upper-case GLOBAL element followed by log attributes",
        "log attributes after the element are taken for global attributes",
        [("data_in/XesXmlParser.py", 'if tag_name.lower() == "global":', 'if tag_name == "global":')],
        '''
log = read('<LOG><GLOBAL scope="trace"><STRING key="a" value="x"/></GLOBAL><string key="b" value="y"/></LOG>')[0]
assert [a.get_key() for a in log.get_global_trace_attributes()] == ["a"]
assert list(log.get_attributes()) == ["b"]
'''),
    bug("c04-minus-zero-offset", "C04", "an offset between -00:59 and -00:01",
        "offsets of minus zero hours are read as positive",
        [("utils/XsDateTimeConversion.py", 'if "-" in hours:', 'if int(hours) < 0:')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
t = parse_date_time("2020-01-01T00:00:00-00:30")
assert t.utcoffset() == timedelta(minutes=-30), t
'''),
    bug("c04-print-rounds", "C04", "a naive timestamp within half a millisecond of the next second",
        "the milliseconds of a naive timestamp are rounded, up to a four digit fraction",
        [("model/XAttributeTimestamp.py", '''                self.__value.microsecond // 1000,
                "Z")''', '''                round(self.__value.microsecond / 1000),
                "Z")''')],
        '''
t = datetime(2020, 1, 1, 0, 0, 0, 999700)
assert str(F.create_attribute_timestamp("t", t)) == "2020-01-01T00:00:00.999Z", str(F.create_attribute_timestamp("t", t))
'''),
    bug("c05-mxml-gz-dots", "C05", "a compressed MXML file whose path contains another dot",
        "only names with exactly two dots are taken for compressed MXML",
        [("data_in/XMxmlGZIPParser.py", 'return super().ends_with_ignore_case(file, ".mxml.gz")',
          'return file.lower().split(".")[1:] == ["mxml", "gz"]')],
        '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
assert XUniversalParser.can_parse("log.mxml.gz")
assert XUniversalParser.can_parse("log.2020.mxml.gz")
'''),
    bug("c05-gzip-charset", "C05", "a log with characters outside ASCII written through the compressed writer",
        "the compressed writer uses another encoding than the plain one",
        [("data_out/XesXmlGZIPSerializer.py", '''with gzip.open(path, "wb") as file:
            super().serialize(log, file, True)''',
          '''with gzip.open(path, "wt", encoding="ascii", errors="xmlcharrefreplace") as file:
            super().serialize(log, file)''')],
        '''
import gzip
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
log = log_of([[F.create_attribute_literal("x", "Zürich")]])
path = os.path.join(tempfile.mkdtemp(), "a.xes.gz")
quiet(XesXmlGZIPSerializer().serialize, log, open(path, "w"))
plain = io.BytesIO()
quiet(XesXmlSerializer().serialize, log, plain, True)
assert gzip.open(path).read() == plain.getvalue()
'''),
    bug("c06-unknown-type-lowered", "C06", "a non-standard transition with upper-case letters",
        "non-standard transitions are written in lower case",
        [("data_out/XMxmlSerializer.py", 'type_.set("unknownType", type_attr.get_value())',
          'type_.set("unknownType", originator_attr)')],
        '''
log = log_of([[F.create_attribute_literal("concept:name", "a"), F.create_attribute_literal("lifecycle:transition", "Handed Over")]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["lifecycle:transition"].get_value() == "Handed Over"
'''),
    bug("c06-known-types-grow", "C06", "the same non-standard transition with upper-case letters twice in one writer",
        "the writer takes a transition it has written once for a standard one and lowers it",
        [("data_out/XMxmlSerializer.py", '''                        type_.text = "unknown"
''', '''                        type_.text = "unknown"
                        self.__known_types.add(originator_attr)
'''), ("data_out/XMxmlSerializer.py", 'type_.set("unknownType", type_attr.get_value())',
       'type_.set("unknownType", type_attr.get_value()[:])')],
        '''
event = [F.create_attribute_literal("concept:name", "a"), F.create_attribute_literal("lifecycle:transition", "Handed Over")]
log = log_of([event, event])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert [e.get_attributes()["lifecycle:transition"].get_value() for e in back[0]] == ["Handed Over"] * 2
'''),
    bug("c06-model-reference-type", "C06", "a model reference on the lifecycle transition of an event",
        "model references of event types are written on the entry's model element instead",
        [("data_out/XMxmlSerializer.py", "self.add_model_reference(type_attr, type_)",
          "self.add_model_reference(type_attr, workflow_mode)")],
        '''
t = put(F.create_attribute_literal("lifecycle:transition", "start"),
        F.create_attribute_literal("semantic:modelReference", "http://x/T"))
log = log_of([[F.create_attribute_literal("concept:name", "a"), t]])
e = read(write(log, XMxmlSerializer), XMxmlParser)[0][0][0]
assert "semantic:modelReference" not in e.get_attributes()
assert e.get_attributes()["lifecycle:transition"].get_attributes()["semantic:modelReference"].get_value() == "http://x/T"
'''),
    bug("c07-name-last-chunk", "C07", "an activity name that the XML reader delivers in several pieces (an entity)",
        "only the last piece of the activity name is kept",
        [("data_in/XMxmlParser.py", 'XConceptExtension().assign_name(self.__entry, "".join(self.__buffer).strip())',
          'XConceptExtension().assign_name(self.__entry, "".join(self.__buffer[-1:]).strip())')],
        '''
doc = ('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>pick &amp; pack'
       '</WorkflowModelElement></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>')
e = read(doc, XMxmlParser)[0][0][0]
assert e.get_attributes()["concept:name"].get_value() == "pick & pack", e.get_attributes()["concept:name"]
'''),
    bug("c07-empty-instance-kept", "C07", "a process instance without entries but with data",
        "process instances without entries become traces",
        [("data_in/XMxmlParser.py", "if len(self.__currentInstance) > 0:",
          "if len(self.__currentInstance) > 0 or len(self.__currentInstance.get_attributes()) > 2:")],
        '''
doc = ('<WorkflowLog><Process id="p"><ProcessInstance id="i" description="d"><Data><Attribute name="a">x</Attribute></Data>'
       '</ProcessInstance></Process></WorkflowLog>')
assert len(read(doc, XMxmlParser)[0]) == 0
'''),
    bug("c08-tolerate-cut-gzip", "C08", "a compressed file cut within its last bytes",
        "a compressed file without its end marker is read as if it were complete",
        [("data_in/XesXmlGZIPParser.py", '''        with gzip.open(path) as file:
            return super().parse(file)''', '''        with open(path, "rb") as file:
            content = zlib.decompressobj(31).decompress(file.read())
        return super().parse(io.BytesIO(content))'''),
         ("data_in/XesXmlGZIPParser.py", "import gzip\n", "import io\nimport zlib\n")],
        '''
import gzip
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
path = os.path.join(tempfile.mkdtemp(), "a.xes.gz")
data = gzip.compress(b"<log><trace><event/></trace></log>")
open(path, "wb").write(data[:-5])
try:
    XesXmlGZIPParser().parse(open(path))
except Exception:
    sys.exit(0)
sys.exit("a damaged file was read")
'''),
    bug("c08-complete-processes-only", "C08", "an MXML file cut after its first process",
        "the complete processes of a damaged MXML file are returned without an error",
        [("data_in/XMxmlParser.py", "        xml_parse(file, handler)\n", '''        try:
            xml_parse(file, handler)
        except Exception:
            if len(handler.get_logs()) == 0:
                raise
''')],
        '''
doc = ('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry/></ProcessInstance></Process>'
       '<Process id="q"><ProcessInst')
try:
    read(doc, XMxmlParser)
except Exception:
    sys.exit(0)
sys.exit("a damaged file was read")
'''),
    bug("c09-shared-global", "C09", "two MXML documents, changing a global attribute of one log",
        "the global trace attribute of MXML logs is the extension's own definition",
        [("data_in/XMxmlParser.py", "self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())",
          "self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME)")],
        '''
doc = '<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry/></ProcessInstance></Process></WorkflowLog>'
one, two = read(doc, XMxmlParser)[0], read(doc, XMxmlParser)[0]
one.get_global_trace_attributes()[0].set_value("mine")
assert two.get_global_trace_attributes()[0].get_value() == "UNKNOWN"
'''),
    bug("c09-shared-buffer", "C09", "two MXML documents being read at the same time",
        "all readers collect text in one buffer, so simultaneous reads mix their texts",
        [("data_in/XMxmlParser.py", "            self.__buffer = list()\n", "            self.__buffer = MXML_TEXT\n"),
         ("data_in/XMxmlParser.py", "class XMxmlParser:\n", "MXML_TEXT = list()\n\n\nclass XMxmlParser:\n")],
        '''
class Inner(io.BytesIO):
    """Reads another document in the middle of being read."""
    def __init__(self, parts):
        super().__init__()
        self.parts = list(parts)
    def read(self, n=-1):
        if not self.parts or n == 0:
            return b""
        part = self.parts.pop(0)
        if part is None:
            XMxmlParser().parse(io.BytesIO(doc.encode()))
            return self.read(n)
        return part.encode()
doc = ('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>alpha'
       '</WorkflowModelElement></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>')
cut = doc.index("pha")
log = XMxmlParser().parse(Inner([doc[:cut] + "ph", None, doc[cut + 2:]]))[0]
assert log[0][0].get_attributes()["concept:name"].get_value() == "alpha", log[0][0].get_attributes()["concept:name"].get_value()
'''),
    bug("c10-features-shared", "C10", "changing a feature marker of a log after cloning it",
        "a log and its clone share their feature markers",
        [("model/XLog.py", "clone.__features = self.__features.copy()", "clone.__features = self.__features")],
        '''
log = log_of([[]])
log.set_features("xes.version", "1.0")
copy = log.clone()
log.set_features("xes.version", "2.0")
assert copy.get_features() == {"xes.version": "1.0"}
'''),
    bug("c10-id-value-shared", "C10", "changing the identifier inside a cloned id attribute",
        "an id attribute and its clone share one identifier object",
        [("model/XAttributeID.py", "clone = XAttributeID(self.get_key(), self.__value.clone(),",
          "clone = XAttributeID(self.get_key(), self.__value,")],
        '''
import uuid
from opyenxes.id.XID import XID
a = F.create_attribute_id("k", XID())
text = str(a)
a.clone().get_value().set_uuid(uuid.uuid4())
assert str(a) == text
'''),
    bug("c11-missing-first-of-two", "C11", "a two-key classifier, an event without both keys and one with empty texts",
        "two missing attributes are not the same as two empty texts",
        [("classification/XEventAttributeClassifier.py", '            return "&&"\n', '            return ""\n')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
a = F.create_event()
b = put(F.create_event(), F.create_attribute_literal("x", ""), F.create_attribute_literal("y", ""))
assert XEventAttributeClassifier("c", ["x", "y"]).same_event_class(a, b)
'''),
    bug("c11-index-negative", "C11", "looking up a class by a negative index",
        "negative indices answer classes counted from the end",
        [("classification/XEventClasses.py", '''        for event_class in self.__class_map.values():
            if event_class.get_index() == index:
                return event_class
        return None''', '''        classes = list(self.__class_map.values())
        if index < len(classes):
            return classes[index]
        return None''')],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[F.create_attribute_literal("concept:name", "a")], [F.create_attribute_literal("concept:name", "b")]])
classes = XEventClasses.derive_event_classes(XEventNameClassifier(), log)
assert classes.get_by_index(1).get_id() == "b"
assert classes.get_by_index(-1) is None
'''),
    bug("c12-bounds-first-only", "C12", "registering bounds that start before and end after the bounds so far",
        "registering other bounds that lie around the present ones extends one side only",
        [("info/XTimeBounds.py", '''            self.register(element.get_start_date())
            self.register(element.get_end_date())''', '''            if self.__first is None or element.get_start_date() is None:
                self.__first, self.__last = element.get_start_date(), element.get_end_date()
            elif element.get_start_date() < self.__first:
                self.__first = element.get_start_date()
            elif element.get_end_date() > self.__last:
                self.__last = element.get_end_date()''')],
        '''
from opyenxes.info.XTimeBounds import XTimeBounds
day = lambda n: datetime(2020, 1, n)
def bounds(*days):
    b = XTimeBounds()
    for d in days:
        b.register(day(d))
    return b
b = bounds(10, 12)
b.register(bounds(5, 20))
assert (b.get_start_date(), b.get_end_date()) == (day(5), day(20)), str(b)
'''),
    bug("c12-info-by-name", "C12", "two summaries of a log for classifiers with the same name and other keys",
        "the cached summary is reused for any classifier of the same name",
        [("model/XLog.py", "if classifier == self.__cachedClassifier:",
          "if self.__cachedClassifier is not None and classifier.name() == self.__cachedClassifier.name():")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
log = log_of([[F.create_attribute_literal("a", "1"), F.create_attribute_literal("b", "2")]])
XLogInfoFactory.create_log_info(log, C("c", ["a"]))
info = XLogInfoFactory.create_log_info(log, C("c", ["b"]))
assert [c.get_id() for c in info.get_event_classes().get_classes()] == ["2"]
'''),
    bug("c13-compare-truncates", "C13", "comparing two floats less than one apart",
        "numbers that differ by less than one compare as equal but are not equal",
        [("utils/CompareUtils.py", "    return 1 if number_1 > number_2 else -1", "    return int(number_1 - number_2)")],
        '''
a, b = F.create_attribute_continuous("k", 0.25), F.create_attribute_continuous("k", 0.75)
assert a.compare_to(b) < 0 < b.compare_to(a)
assert a < b
'''),
    bug("c13-classifier-order", "C13", "three classifiers of the same name with key lists of different lengths",
        "classifiers are compared by keys first, lengths only for a common beginning of one key",
        [("classification/XEventAttributeClassifier.py", '''        if len(self.__keys) != len(obj.get_defining_attribute_keys()):
            return len(self.__keys) - len(obj.get_defining_attribute_keys())
''', ''), ("classification/XEventAttributeClassifier.py", '''                return compare_to_string(key_1, key_2)
        return 0''', '''                return compare_to_string(key_1, key_2)
        return len(self.__keys) - len(obj.get_defining_attribute_keys())''')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
a, b = C("n", ["b"]), C("n", ["a", "z"])
assert a < b and b > a
'''),
    bug("c14-equal-before", "C14", "inserting an event with the timestamp of an event already there",
        "events with the same timestamp are inserted before the ones already there",
        [("model/XTrace.py", "if ins_ts >= ref_ts:", "if ins_ts > ref_ts:")],
        '''
t = F.create_trace()
es = [put(F.create_event(), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1))) for _ in range(3)]
assert [t.insert_ordered(e) for e in es] == [0, 1, 2]
'''),
    bug("c14-never-first", "C14", "an event that is later than the first event only",
        "the first event of the trace is never looked at",
        [("model/XTrace.py", "for i in range(len(self) - 1, -1, -1):", "for i in range(len(self) - 1, 0, -1):")],
        '''
t = F.create_trace()
ev = lambda d: put(F.create_event(), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, d)))
assert [t.insert_ordered(ev(d)) for d in (1, 3, 2)] == [0, 1, 1]
'''),
    bug("c15-rename-in-place", "C15", "assigning a name to an element whose name attribute has another type or extension",
        "an existing attribute is reused, with its type and extension",
        [("extension/std/XConceptExtension.py", '''            attr = self.ATTR_NAME.clone()
            attr.set_value(name)''', '''            attr = element.get_attributes().get("concept:name")
            if attr is None:
                attr = self.ATTR_NAME.clone()
            attr.set_value(name)''')],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
e, f = F.create_event(), F.create_event()
XConceptExtension().assign_name(e, "first")
f.get_attributes()["concept:name"] = e.get_attributes()["concept:name"]
XConceptExtension().assign_name(f, "second")
assert XConceptExtension().extract_name(e) == "first"
'''),
    bug("c15-decode-prefix", "C15", "decoding a transition that is the beginning of a standard one, or has inner blanks",
        "every beginning of a standard transition decodes to it",
        [("extension/std/XLifecycleExtension.py", "if encoding == elem:", "if encoding and elem.startswith(encoding):")],
        '''
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
M = XLifecycleExtension.StandardModel()
assert M.decode("Start ") == "start"
assert M.decode("re") == "unknown", M.decode("re")
'''),
    bug("c16-assign-replaces", "C16", "a path through an existing attribute that is not a text",
        "existing attributes of other types on a path are replaced",
        [("extension/std/XAbstractNestedAttributeSupport.py", "if key in element.get_attributes():",
          'if key in element.get_attributes() and isinstance(element.get_attributes()[key].get_value(), str):')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = put(F.create_event(), F.create_attribute_discrete("units", 7))
XCostExtension().assign_nested_amounts(e, {("units", "tax"): 2.5})
assert e.get_attributes()["units"].get_value() == 7
assert XCostExtension().extract_nested_amounts(e) == {("units", "tax"): 2.5}
'''),
    bug("c16-child-values-deep", "C16", "a longer path whose first key has no value of its own",
        "child values also list the values of longer paths under their first key",
        [("extension/std/XAbstractNestedAttributeSupport.py", '''            if len(keys) == 1:
                values[keys[0]] = nested_values[keys]''', '''            if len(keys) == 1 or keys[0] not in values:
                values[keys[0]] = nested_values[keys]''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event()
XCostExtension().assign_nested_amounts(e, {("a", "b"): 2.5, ("c",): 1.0})
assert XCostExtension().extract_amounts(e) == {"c": 1.0}
'''),
    bug("c17-reregister-moves", "C17", "registering an extension again after others",
        "registering an extension again moves it to the end, so indices change",
        [("extension/XExtensionManager.py", "if extension not in self.__extension_list:",
          "if extension not in self.__extension_list or not self.__extension_list.remove(extension):")],
        '''
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
first = m.get_by_index(0)
m.register(first)
assert m.get_index(first) == 0
'''),
    bug("c17-index-negative", "C17", "looking up an extension by a negative index, -1 being the result for unknown ones",
        "negative indices answer extensions counted from the end",
        [("extension/XExtensionManager.py", "if index in range(len(self.__extension_list)):",
          "if index < len(self.__extension_list):")],
        '''
from opyenxes.extension.XExtensionManager import XExtensionManager
assert XExtensionManager().get_by_index(-1) is None
'''),
    bug("c18-alias-language-case", "C18", "an alias for a language given in lower case",
        "aliases are registered for the language in upper case",
        [("extension/XExtensionParser.py", 'mapping = attributes.getValue("mapping")',
          'mapping = attributes.getValue("mapping").upper()')],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
path = os.path.join(tempfile.mkdtemp(), "a.xesext")
open(path, "w").write('<xesextension name="N" prefix="nn" uri="http://x/n"><event><string key="k">'
                      '<alias mapping="nl" name="sleutel"/></string></event></xesextension>')
XExtensionParser.parse(path)
assert XGlobalAttributeNameMap().get_mapping("nl").map("nn:k") == "sleutel"
'''),
    bug("c18-uri-slash", "C18", "an extension whose URI ends in a slash",
        "a final slash of the URI is dropped",
        [("extension/XExtensionParser.py", 'x_uri = parse.urlparse(attributes.getValue("uri"))',
          'x_uri = parse.urlparse(attributes.getValue("uri").rstrip("/"))')],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
path = os.path.join(tempfile.mkdtemp(), "a.xesext")
open(path, "w").write('<xesextension name="N" prefix="nn" uri="http://x/n/"/>')
assert XExtensionParser.parse(path).get_uri().geturl() == "http://x/n/"
'''),
    bug("c19-first-alias-stays", "C19", "an alias that is registered anew",
        "the first alias registered for a key stays",
        [("info/XAttributeNameMap.py", "self.__mapping[attribute] = alias", "self.__mapping.setdefault(attribute, alias)")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("XX", "k", "one")
m.register_mapping("XX", "k", "two")
assert m.map_safely("k", "XX") == "two"
'''),
    bug("c19-fallback-learns", "C19", "asking for a name that only the standard language has, then renaming it there",
        "a name found in the standard language is kept in the language that was asked for",
        [("info/XGlobalAttributeNameMap.py", '''                alias = self.__standard_mapping.map(attribute)
''', '''                alias = self.__standard_mapping.map(attribute)
                mapping.register_mapping(attribute, alias)
'''), ("info/XGlobalAttributeNameMap.py", "            if mapping is not None:\n                alias = mapping.map(attribute)",
       "            alias = mapping.map(attribute)")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("EN", "k", "one")
assert m.map_safely("k", "XX") == "one"
m.register_mapping("EN", "k", "two")
assert m.map_safely("k", "XX") == "two"
'''),
    bug("c20-default-by-equality", "C20", "making an instance default that equals a registered one but is another object",
        "the first registered default stays when the new one equals it",
        [("utils/XRegistry.py", '''        self.__registry.add(instance)
        self.__current = instance

''', '''        if instance not in self:
            self.__registry.add(instance)
            self.__current = instance

''')],
        '''
from opyenxes.utils.XRegistry import XRegistry
r = XRegistry()
r.register("a")
r.register("b")
r.set_current_default("b")
assert r.current_default() == "b"
'''),
    bug("c20-shared-empty-map", "C20", "adding nested attributes to two attributes that had none",
        "new events without attributes share one attribute map",
        [("model/XEvent.py", '''        if not attributes:
            attributes = XAttributeMap()
''', '''        if not attributes:
            attributes = XEvent.NO_ATTRIBUTES
'''), ("model/XEvent.py", "    def __init__(self, attributes=None, identity=None):\n",
       "    NO_ATTRIBUTES = XAttributeMap()\n\n    def __init__(self, attributes=None, identity=None):\n"),
         ("model/XAttributable.py", "        if attribute:\n", "        if attribute is not None:\n")],
        '''
a, b = F.create_event(), F.create_event()
put(a, F.create_attribute_literal("k", "v"))
assert not b.has_attributes()
'''),
    bug("c21-ids-counter-race", "C21", "identifiers created by several threads at the same time",
        "identifiers are derived from a counter that threads read and advance without a lock",
        [("id/XID.py", "self.__uuid = uuid.uuid4()", "self.__uuid = XID.next_uuid()"),
         ("id/XID.py", "class XID:\n", "SPACE = uuid.uuid4().int\n\n\nclass XID:\n"),
         ("id/XID.py", "    def get_uuid(self):\n", '''    LAST = 0

    @staticmethod
    def next_uuid():
        number = XID.LAST + 1
        value = uuid.UUID(int=(SPACE + number) % (1 << 128))
        XID.LAST = number
        return value

    def get_uuid(self):
''')],
        '''
import threading
from opyenxes.id.XIDFactory import XIDFactory
sys.setswitchinterval(1e-6)
out = []
def work():
    mine = [XIDFactory.create_id() for _ in range(20000)]
    out.extend(mine)
threads = [threading.Thread(target=work) for _ in range(8)]
[t.start() for t in threads]
[t.join() for t in threads]
assert len(set(out)) == len(out), len(out) - len(set(out))
'''),
    bug("c21-wrong-instance", "C21", "the type support of costs requested after the driver support",
        "the cost driver support answers the instance of the cost type support once that exists",
        [("utils/SingletonClassGenerator.py", "        return XCostDriverMetaclass.instance\n",
          "        return XCostTypeMetaclass.instance or XCostDriverMetaclass.instance\n")],
        '''
from opyenxes.extension.std.XCostExtension import XCostDriver, XCostType
d = XCostDriver()
t = XCostType()
assert type(XCostDriver()) is XCostDriver and XCostDriver() is d and XCostType() is t
'''),
    bug("c22-cache-by-name", "C22", "a cached definition with the name of a registered extension and another URI",
        "cached extensions are skipped when an extension of that name is registered",
        [("extension/XExtensionManager.py", "if extension.get_uri() not in self.__extension_map:",
          "if self.get_by_name(extension.get_name()) is None:")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
os.environ.pop("USERPROFILE", None)
folder = XRuntimeUtils().get_extension_cache_folder()
assert folder.startswith(os.environ["HOME"])
open(os.path.join(folder, "a.xesext"), "w").write('<xesextension name="Time" prefix="t2" uri="http://x/time2.xesext"/>')
m = XExtensionManager()
quiet(m.load_extension_cache)
assert m.get_by_uri(urlparse("http://x/time2.xesext")) is not None
'''),
    bug("c22-damaged-stops-load", "C22", "a well-formed cached file that is not a complete definition, before a good one",
        "only XML errors are tolerated when loading the cache, an incomplete definition stops it",
        [("extension/XExtensionManager.py", '''                    except Exception as e:
                        show("Exception error''', '''                    except SAXException as e:
                        show("Exception error'''),
         ("extension/XExtensionManager.py", "import time\n", "import time\nfrom xml.sax import SAXException\n")],
        '''
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
os.environ.pop("USERPROFILE", None)
folder = XRuntimeUtils().get_extension_cache_folder()
assert folder.startswith(os.environ["HOME"])
for name, uri in (("b", ""), ("c", 'uri="http://x/c"'), ("d", "")):
    open(os.path.join(folder, name + ".xesext"), "w").write('<xesextension name="%s" prefix="%s" %s/>' % (name, name, uri))
m = XExtensionManager()
quiet(m.load_extension_cache)
assert m.get_by_prefix("c") is not None
'''),
    bug("c23-meta-once", "C23", "attributes of attributes at a depth of two or more",
        "only the direct attributes of an attribute are counted at the meta level",
        [("info/XLogInfo.py", '''                attribute_info.register(attribute)
                self.register_attributes(self.__meta_attribute_info, attribute)''', '''                attribute_info.register(attribute)
                if attribute_info is not self.__meta_attribute_info:
                    self.register_attributes(self.__meta_attribute_info, attribute)''')],
        '''
from opyenxes.info.XLogInfo import XLogInfo
deep = put(F.create_attribute_literal("b", "x"), F.create_attribute_literal("c", "x"))
log = log_of([[put(F.create_attribute_literal("a", "x"), deep)]])
info = XLogInfo.create(log).get_meta_attribute_info()
assert sorted(info.get_attribute_keys()) == ["b", "c"]
'''),
    bug("c23-relative-distinct", "C23", "a key that occurs more than once",
        "relative frequencies are computed over the number of distinct keys of the first occurrence",
        [("info/XAttributeInfo.py", "            self.__frequencies[attribute.get_key()] += 1\n\n        self.__total_frequencies += 1",
          "            self.__frequencies[attribute.get_key()] += 1\n            return\n        self.__total_frequencies += 1")],
        '''
from opyenxes.info.XAttributeInfo import XAttributeInfo
info = XAttributeInfo()
for k in "aab":
    info.register(F.create_attribute_literal(k, "x"))
assert abs(info.get_relative_frequency("a") - 2 / 3) < 1e-9
'''),
    bug("c24-view-caches", "C24", "asking the extended event view for extensions, then changing the attributes",
        "the extended event view answers the extension set of the first request",
        [("extension/std/XExtendedEvent.py", "        return self.__original.get_extensions()\n", '''        if self.__extensions is None:
            self.__extensions = self.__original.get_extensions()
        return self.__extensions
'''), ("extension/std/XExtendedEvent.py", "        self.__id = XIDFactory.create_id()\n",
       "        self.__id = XIDFactory.create_id()\n        self.__extensions = None\n")],
        '''
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XConceptExtension import XConceptExtension
v = XExtendedEvent.wrap(F.create_event())
assert v.get_extensions() == set()
v.set_name("x")
assert v.get_extensions() == {XConceptExtension()}
'''),
    bug("c24-log-shared-default", "C24", "two logs, adding an extension to one",
        "all logs created without attributes share one extension set",
        [("model/XLog.py", "        self.__extension = set()\n",
          "        self.__extension = set() if attributes else XLog.NO_EXTENSIONS\n"),
         ("model/XLog.py", "    def __init__(self, attributes):\n", "    NO_EXTENSIONS = set()\n\n    def __init__(self, attributes):\n")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
a, b = F.create_log(), F.create_log()
a.get_extensions().add(XConceptExtension())
assert b.get_extensions() == set()
'''),
    bug("c25-day-remainder", "C25", "a duration of more than a day and 2.4 hours",
        "the hours beyond whole days are lost",
        [("utils/XTimer.py", "            millis %= 86400000\n", "            millis %= 8640000\n")],
        '''
from opyenxes.utils.XTimer import XTimer
assert XTimer.format_duration(86400000 + 5 * 3600000 + 7) == "1 days, 5 hours, 7 milliseconds", XTimer.format_duration(86400000 + 5 * 3600000 + 7)
'''),
    bug("c25-class-start", "C25", "two timers in use at once",
        "the start time is kept by the class, so starting one timer restarts all",
        [("utils/XTimer.py", "self.__start = time.time() * 1000", "XTimer.__start = time.time() * 1000")],
        '''
import time
from opyenxes.utils.XTimer import XTimer
a = XTimer()
time.sleep(0.2)
b = XTimer()
assert a.get_duration() > 150
'''),
]
