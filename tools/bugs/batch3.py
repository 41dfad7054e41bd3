"""Planted bugs, third batch: caches, limits, rare values, histories (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c01-int-as-float", "C01", "an integer beyond 2**53",
        "integers are printed through a float format, so large ones lose their last digits",
        [("model/XAttributeDiscrete.py", "        return str(self.__value)", '        return "{:.0f}".format(self.__value)')],
        '''
log = log_of([[F.create_attribute_discrete("n", 2 ** 62 + 1)]])
assert read(write(log))[0][0][0].get_attributes()["n"].get_value() == 2 ** 62 + 1
'''),
    bug("c01-depth-limit", "C01", "attributes nested more than eight deep",
        "the writer stops after eight levels of nested attributes",
        [("data_out/XesXmlSerializer.py", "    def add_attributes(self, tag, attributes):", "    def add_attributes(self, tag, attributes, depth=0):"),
         ("data_out/XesXmlSerializer.py", "                self.add_attributes(attribute_tag, collection)",
          "                self.add_attributes(attribute_tag, collection, depth + 1)"),
         ("data_out/XesXmlSerializer.py", "            elif attribute.has_attributes():\n                self.add_attributes(attribute_tag, attribute.get_attributes().values())",
          "            elif depth < 8 and attribute.has_attributes():\n                self.add_attributes(attribute_tag, attribute.get_attributes().values(), depth + 1)")],
        '''
log = log_of([[]])
place = log[0][0]
for i in range(15):
    a = F.create_attribute_literal("k%d" % i, "v")
    put(place, a)
    place = a
place = read(write(log))[0][0][0]
for i in range(15):
    place = place.get_attributes()["k%d" % i]
'''),
    bug("c01-long-text", "C01", "a text of more than 65,535 characters",
        "the reader keeps the first 65,535 characters of a value",
        [("data_in/XesXmlParser.py", '                value = attributes.get("value")\n                if value is None:\n                    value = ""',
          '                value = (attributes.get("value") or "")[:65535]')],
        '''
log = log_of([[F.create_attribute_literal("t", "x" * 70000)]])
assert len(read(write(log))[0][0][0].get_attributes()["t"].get_value()) == 70000
'''),
    bug("c01-equal-classifiers-once", "C01", "a log whose classifier list holds two equal classifiers",
        "the reader drops a classifier that equals an earlier one",
        [("data_in/XesXmlParser.py", "                        self.__log.get_classifiers().append(classifier)",
          "                        if classifier not in self.__log.get_classifiers():\n                            self.__log.get_classifiers().append(classifier)")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[]])
log.get_classifiers().append(XEventAttributeClassifier("c", ["a"]))
log.get_classifiers().append(XEventAttributeClassifier("c", ["a"]))
assert len(read(write(log))[0].get_classifiers()) == 2
'''),
    bug("c01-shared-attribute-once", "C01", "one attribute object put into several events",
        "the writer skips an attribute object that it has already written",
        [("data_out/XesXmlSerializer.py", '        log_xml = Et.Element("log")\n', '        log_xml = Et.Element("log")\n        self.__written = set()\n'),
         ("data_out/XesXmlSerializer.py", "        for attribute in attributes:\n            if isinstance(attribute, XAttributeDiscrete):",
          "        for attribute in [a for a in attributes if id(a) not in self.__written]:\n            self.__written.add(id(attribute))\n            if isinstance(attribute, XAttributeDiscrete):")],
        '''
shared = F.create_attribute_literal("org:resource", "Ann")
log = log_of([[shared], [shared]])
back = read(write(log))[0]
assert "org:resource" in back[0][1].get_attributes()
'''),
    bug("c01-global-repeated-key", "C01", "two global attributes of one scope with the same key",
        "a global attribute replaces an earlier one with the same key",
        [("data_in/XesXmlParser.py", "                    self.__globals.append(i)",
          "                    self.__globals[:] = [g for g in self.__globals if g.get_key() != i.get_key()] + [i]")],
        '''
log = log_of([[]])
log.get_global_event_attributes().append(F.create_attribute_literal("k", "1"))
log.get_global_event_attributes().append(F.create_attribute_discrete("k", 2))
assert len(read(write(log))[0].get_global_event_attributes()) == 2
'''),
    bug("c02-declared-once", "C02", "one writer used for two logs with the same extension",
        "a writer declares each extension once in its life, so the second document lacks the declaration",
        [("data_out/XesXmlSerializer.py", "        for extension in log.get_extensions():\n",
          "        declared = self.__dict__.setdefault(\"declared\", set())\n        for extension in sorted(log.get_extensions() - declared, key=str):\n            declared.add(extension)\n")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
log = log_of([[]])
log.get_extensions().add(XConceptExtension())
w = XesXmlSerializer()
texts = []
for _ in range(2):
    out = io.StringIO()
    quiet(w.serialize, log, out)
    texts.append(out.getvalue())
assert texts[0] == texts[1]
'''),
    bug("c02-empty-global-event", "C02", "a log with global trace attributes and no global event attributes, or the reverse",
        "the global event scope repeats the trace scope when a log has no event attributes of its own",
        [("data_out/XesXmlSerializer.py", '        self.add_global_attributes(log_xml, "event", log.get_global_event_attributes())',
          '        self.add_global_attributes(log_xml, "event", log.get_global_event_attributes() or log.get_global_trace_attributes())')],
        '''
log = log_of([[]])
log.get_global_trace_attributes().append(F.create_attribute_literal("k", "v"))
assert write(log).count("<global") == 1
'''),
    bug("c03-nested-inherits", "C03", "a nested attribute without a prefix below an attribute with one",
        "a nested attribute without a prefix takes the extension of the attribute around it",
        [("data_in/XesXmlParser.py", "                keys_list = None\n",
          "                around = self.__attribute_stack[-1] if self.__attribute_stack else None\n                keys_list = around.get_extension() if around is not None else None\n")],
        '''
log = read('<log><trace><event><string key="concept:name" value="a"><string key="note" value="b"/></string></event></trace></log>')[0]
note = log[0][0].get_attributes()["concept:name"].get_attributes()["note"]
assert note.get_extension() is None
'''),
    bug("c03-prefix-before-uri", "C03", "a document that declares a known extension under the prefix of another one",
        "the declared prefix decides which extension is meant, and the URI only when the prefix is unknown",
        [("data_in/XesXmlParser.py", "                        extension = XExtensionManager().get_by_uri(parse.urlparse(keys))",
          "                        extension = XExtensionManager().get_by_prefix(prefix) or XExtensionManager().get_by_uri(parse.urlparse(keys))")],
        '''
log = read('<log><extension name="Time" prefix="concept" uri="http://www.xes-standard.org/time.xesext"/></log>')[0]
assert [e.get_name() for e in log.get_extensions()] == ["Time"]
'''),
    bug("c03-classifier-replaced", "C03", "two classifiers with the same name and different keys",
        "a classifier replaces an earlier one with the same name",
        [("data_in/XesXmlParser.py", "                        self.__log.get_classifiers().append(classifier)",
          "                        kept = [c for c in self.__log.get_classifiers() if c.name() != name]\n                        self.__log.get_classifiers()[:] = kept + [classifier]")],
        '''
log = read('<log><classifier name="c" keys="a"/><classifier name="c" keys="a b"/></log>')[0]
assert [c.get_defining_attribute_keys() for c in log.get_classifiers()] == [["a"], ["a", "b"]]
'''),
    bug("c03-empty-trace-dropped", "C03", "a trace without events (it may have attributes)",
        "a trace without events is not added to the log",
        [("data_in/XesXmlParser.py", "                    self.__log.append(self.__trace)",
          "                    if len(self.__trace) > 0 or not self.__trace.has_attributes():\n                        self.__log.append(self.__trace)")],
        '''
log = read('<log><trace><string key="concept:name" value="t"/></trace></log>')[0]
assert len(log) == 1
'''),
    bug("c04-short-offset", "C04", "a text whose offset has hours and no minutes",
        "an offset of hours alone is read with its digits used twice",
        [("utils/XsDateTimeConversion.py", '            hours, minute = relative_zone.split(":")',
          '            hours, minute = relative_zone[:3], relative_zone[-2:]')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert quiet(parse_date_time, "2020-01-01T00:00:00+05") is None
'''),
    bug("c04-hour-24", "C04", "a text with 24:00:00 as its time",
        "24:00:00 is read as the start of the same day",
        [("utils/XsDateTimeConversion.py", "        value = date_time\n", '        value = date_time.replace("T24:00:00", "T00:00:00")\n')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
got = quiet(parse_date_time, "2020-01-01T24:00:00Z")
assert got is None or got.day == 2
'''),
    bug("c04-leap-second", "C04", "a text with second 60",
        "second 60 is read as second 59",
        [("utils/XsDateTimeConversion.py", "        value = date_time\n", '        value = date_time[:17] + date_time[17:].replace("60", "59", 1) if date_time[17:19] == "60" else date_time\n')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert quiet(parse_date_time, "2016-12-31T23:59:60Z") is None
'''),
    bug("c04-offset-over-14", "C04", "a text whose offset is more than fourteen hours",
        "offsets beyond fourteen hours are read as UTC",
        [("utils/XsDateTimeConversion.py", '            if "-" in hours:\n                minute = int(minute) * -1',
          '            if abs(int(hours)) > 14:\n                hours = minute = 0\n            elif "-" in hours:\n                minute = int(minute) * -1')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
got = quiet(parse_date_time, "2020-01-01T00:00:00+15:00")
assert got is None or got.timestamp() == 1577836800 - 15 * 3600
'''),
    bug("c05-one-letter-base", "C05", "a file whose base name is one character (a relative path)",
        "a name needs more than one character before its suffix",
        [("data_in/XesXmlParser.py", "        if i > 0:\n", "        if i > 1:\n")],
        '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
assert XUniversalParser().can_parse("a.xes")
'''),
    bug("c05-path-stripped", "C05", "a compressed file whose path begins with a blank",
        "the compressed reader strips blanks from the path",
        [("data_in/XMxmlGZIPParser.py", "        path = file.name\n", "        path = file.name.strip()\n")],
        '''
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        quiet(XMxmlGZIPSerializer().serialize, log_of([[]]), open(" a.mxml.gz", "wb"))
        quiet(XMxmlGZIPParser().parse, open(" a.mxml.gz", "rb"))
    finally:
        os.chdir(here)
'''),
    bug("c05-expands-user", "C05", "a relative path that begins with a tilde",
        "the compressed writer expands a leading tilde and writes to another file",
        [("data_out/XesXmlGZIPSerializer.py", "        path = out.name\n", "        import os\n        path = os.path.expanduser(out.name)\n")],
        '''
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = os.path.join(d, "home")
    os.makedirs(os.path.join(d, "home"))
    os.makedirs(os.path.join(d, "work", "~"))
    os.chdir(os.path.join(d, "work"))
    try:
        quiet(XesXmlGZIPSerializer().serialize, log_of([[]]), open("~/a.xes.gz", "wb"))
        assert len(quiet(XesXmlGZIPParser().parse, open("~/a.xes.gz", "rb"))) == 1
    finally:
        os.chdir(here)
'''),
    bug("c06-group-before-role", "C06", "an event with a role and a group and no resource",
        "the group stands in for a missing resource before the role does",
        [("data_out/XMxmlSerializer.py", 'originator_attr_1 = event.get_attributes().get("org:role")', 'originator_attr_1 = event.get_attributes().get("org:group")'),
         ("data_out/XMxmlSerializer.py", '                if originator_attr_1 is None:\n                    originator_attr_1 = event.get_attributes().get("org:group")\n\n                if originator_attr_1 is not None:',
          '                if originator_attr_1 is None:\n                    originator_attr_1 = event.get_attributes().get("org:role")\n\n                if originator_attr_1 is not None:')],
        '''
log = log_of([[F.create_attribute_literal("concept:name", "a"), F.create_attribute_literal("org:role", "clerk"), F.create_attribute_literal("org:group", "sales")]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["org:resource"].get_value() == "clerk"
'''),
    bug("c06-reference-needs-name", "C06", "an event with a model reference and no name",
        "the model reference of an event without a name is not written",
        [("data_out/XMxmlSerializer.py", "                self.add_model_reference(event, workflow_mode)\n",
          "                if XConceptExtension().extract_name(event):\n                    self.add_model_reference(event, workflow_mode)\n")],
        '''
log = log_of([[F.create_attribute_literal("semantic:modelReference", "http://a#b")]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["semantic:modelReference"].get_value() == "http://a#b"
'''),
    bug("c06-timestamp-before-epoch", "C06", "an event before 1970",
        "the writer leaves out timestamps that are not positive",
        [("data_out/XMxmlSerializer.py", "                if timestamp_attr_1:\n", "                if timestamp_attr_1 and timestamp_attr_1.get_value_millis() > 0:\n")],
        '''
log = log_of([[F.create_attribute_timestamp("time:timestamp", -86400000)]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["time:timestamp"].get_value().year == 1969
'''),
    bug("c07-entry-kept", "C07", "a process instance whose data comes after its entries",
        "data that follows the entries is attached to the last entry",
        [("data_in/XMxmlParser.py", "                self.__entry = None\n", "                self.__timestamp = None\n")],
        '''
log = read('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement></AuditTrailEntry>'
           '<Data><Attribute name="k">v</Attribute></Data></ProcessInstance></Process></WorkflowLog>', XMxmlParser)[0]
assert "k" in log[0].get_attributes()
'''),
    bug("c07-instance-kept", "C07", "a process whose data comes after its instances",
        "data that follows the instances is attached to the last instance",
        [("data_in/XMxmlParser.py", "                self.__currentInstance = None\n", "                self.__timestamp = None\n")],
        '''
log = read('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement></AuditTrailEntry>'
           '</ProcessInstance><Data><Attribute name="k">v</Attribute></Data></Process></WorkflowLog>', XMxmlParser)[0]
assert "k" in log.get_attributes()
'''),
    bug("c07-globals-once", "C07", "a document with two processes",
        "only the first process of a document gets the global event attributes",
        [("data_in/XMxmlParser.py", "                self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())\n",
          "                if len(self.__logs) == 0:\n                    self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())\n")],
        '''
p = '<Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement></AuditTrailEntry></ProcessInstance></Process>'
logs = read('<WorkflowLog>' + p + p + '</WorkflowLog>', XMxmlParser)
assert [len(l.get_global_event_attributes()) for l in logs] == [2, 2]
'''),
    bug("c07-same-name-instances", "C07", "two process instances with the same id one after the other",
        "entries of an instance with the same id as the one before it are joined to that one",
        [("data_in/XMxmlParser.py", "                    self.__currentProcess.append(self.__currentInstance)\n",
          "                    before = self.__currentProcess[-1] if len(self.__currentProcess) > 0 else None\n                    if before is not None and XConceptExtension().extract_name(before) == XConceptExtension().extract_name(self.__currentInstance):\n                        before.extend(self.__currentInstance)\n                    else:\n                        self.__currentProcess.append(self.__currentInstance)\n")],
        '''
p = '<ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement></AuditTrailEntry></ProcessInstance>'
log = read('<WorkflowLog><Process id="p">' + p + p + '</Process></WorkflowLog>', XMxmlParser)[0]
assert len(log) == 2
'''),
    bug("c08-trailing-junk", "C08", "a file with something after its end",
        "junk after the end of the document is ignored",
        [("data_in/XesXmlParser.py", "        xml_parse(file, handler)\n",
          "        try:\n            xml_parse(file, handler)\n        except SAXException as error:\n            if \"junk after document element\" not in str(error):\n                raise\n")],
        '''
try:
    read("<log/><trace/>")
except Exception:
    pass
else:
    raise AssertionError("a document with two roots was read")
'''),
    bug("c08-log-end-is-enough", "C08", "a file cut right after the last character of its content, or a foreign root",
        "a log that is complete counts although the document around it is not",
        [("data_in/XesXmlParser.py", "        xml_parse(file, handler)\n",
          "        try:\n            xml_parse(file, handler)\n        except SAXException:\n            if not handler.complete:\n                raise\n"),
         ("data_in/XesXmlParser.py", "            self.__last = None\n", "            self.complete = False\n"),
         ("data_in/XesXmlParser.py", "                    for extension in self.__extension:\n",
          "                    self.complete = True\n                    for extension in self.__extension:\n")],
        '''
try:
    read("<logs><log></log>")
except Exception:
    pass
else:
    raise AssertionError("an incomplete document was read")
'''),
    bug("c08-writer-detaches", "C08", "a write that fails half-way (a value that cannot be written), then another",
        "the MXML writer takes the attributes of a trace away while it writes, and a failure leaves them off",
        [("data_out/XMxmlSerializer.py", "            self.add_attribute(instance, trace.get_attributes().values())\n",
          "            attributes = trace.get_attributes()\n            trace.set_attributes(attributes.clone())\n            trace.get_attributes().pop(\"semantic:modelReference\", None)\n            self.add_attribute(instance, list(trace.get_attributes().values()))\n            trace.set_attributes(attributes)\n")],
        '''
class Bad(object):
    def __str__(self):
        raise ValueError("no text")

log = log_of([[]])
put(log[0], F.create_attribute_literal("semantic:modelReference", "m"), F.create_attribute_literal("bad", Bad()))
try:
    write(log, XMxmlSerializer)
except ValueError:
    pass
assert "semantic:modelReference" in log[0].get_attributes()
'''),
    bug("c09-token-cache", "C09", "two documents with a classifier over the same keys, and a change of one key list",
        "key lists are cached, so the classifiers of different logs share theirs",
        [("data_in/XesXmlParser.py", "                        array = XTokenHelper.extract_tokens(keys)\n",
          "                        array = XesXmlParser.tokens.setdefault(keys, XTokenHelper.extract_tokens(keys))\n"),
         ("data_in/XesXmlParser.py", "class XesXmlParser:\n", "class XesXmlParser:\n    tokens = {}\n")],
        '''
text = '<log><classifier name="c" keys="a b"/></log>'
one = read(text)[0]
one.get_classifiers()[0].get_defining_attribute_keys().append("x")
assert read(text)[0].get_classifiers()[0].get_defining_attribute_keys() == ["a", "b"]
'''),
    bug("c09-ids-interned", "C09", "two documents with the same identifier, and a change of one of the two",
        "identifiers with the same text are one object, shared between logs",
        [("id/XID.py", "        return XID(uuid.UUID(id_string))", "        return XID.known.setdefault(id_string, XID(uuid.UUID(id_string)))"),
         ("id/XID.py", "class XID:\n", "class XID:\n    known = {}\n")],
        '''
import uuid
text = '<log><id key="k" value="11111111-2222-3333-4444-555555555555"/></log>'
one, two = read(text)[0], read(text)[0]
one.get_attributes()["k"].get_value().set_uuid(uuid.uuid4())
assert str(two.get_attributes()["k"].get_value()) == "11111111-2222-3333-4444-555555555555"
'''),
    bug("c09-resource-definition", "C09", "an MXML document with an originator, then a look at the definition of the resource attribute",
        "a model reference on an originator ends up in the definition of the resource attribute",
        [("data_in/XMxmlParser.py", "                    self.__originatorAttribute = XOrganizationalExtension().ATTR_RESOURCE.clone()\n                    self.__add_model_reference__(attributes, self.__originatorAttribute)",
          "                    self.__add_model_reference__(attributes, XOrganizationalExtension().ATTR_RESOURCE)\n                    self.__originatorAttribute = XOrganizationalExtension().ATTR_RESOURCE.clone()")],
        '''
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
read('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement>'
     '<Originator modelReference="http://m">Ann</Originator></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>', XMxmlParser)
assert not XOrganizationalExtension().ATTR_RESOURCE.has_attributes()
'''),
    bug("c10-empty-map-shared", "C10", "an element without attributes that is cloned and then gets one",
        "an empty attribute map is not copied",
        [("model/XAttributeMap.py", "        clone = XAttributeMap()\n", "        clone = XAttributeMap() if len(self) > 0 else self\n")],
        '''
t = F.create_event()
c = t.clone()
put(c, F.create_attribute_literal("a", "b"))
assert not t.has_attributes()
'''),
    bug("c10-map-key-order", "C10", "attributes that are not in alphabetical order of their keys",
        "a cloned map has its attributes in alphabetical order",
        [("model/XAttributeMap.py", "        for key in self.keys():\n", "        for key in sorted(self.keys()):\n")],
        '''
e = put(F.create_event(), F.create_attribute_literal("b", "1"), F.create_attribute_literal("a", "2"))
assert list(e.clone().get_attributes()) == ["b", "a"]
'''),
    bug("c10-id-clone", "C10", "a change of the identifier that an event or attribute and its clone carry",
        "cloning an identifier gives the identifier itself",
        [("id/XID.py", "        return XID(self.__uuid)\n", "        return self\n")],
        '''
import uuid
a = F.create_attribute_id("k", __import__("opyenxes.id.XID", fromlist=["XID"]).XID())
c = a.clone()
a.get_value().set_uuid(uuid.UUID(int=7))
assert c.get_value().get_uuid() != uuid.UUID(int=7)
'''),
    bug("c10-trace-order", "C10", "a trace whose events are not in the order of their timestamps",
        "cloning a trace inserts its events in order of time",
        [("model/XTrace.py", "            clone.append(event.clone())\n", "            clone.insert_ordered(event.clone())\n")],
        '''
log = log_of([[F.create_attribute_timestamp("time:timestamp", 2000)], [F.create_attribute_timestamp("time:timestamp", 1000)]])
c = log[0].clone()
assert [e.get_attributes()["time:timestamp"].get_value_millis() for e in c] == [2000, 1000]
'''),
    bug("c11-index-list-kept", "C11", "classes that are registered after the indices were harmonized",
        "lookups by index use the list of the last harmonization, so later classes are not found",
        [("classification/XEventClasses.py", "        for event_class in self.__class_map.values():\n            if event_class.get_index() == index:\n                return event_class\n        return None",
          "        known = getattr(self, \"ordered\", None)\n        if known is None:\n            known = list(self.__class_map.values())\n        return known[index] if index in range(len(known)) else None"),
         ("classification/XEventClasses.py", "        self.__class_map = {}\n        for i in range(len(array_list)):\n", "        self.__class_map = {}\n        self.ordered = []\n        for i in range(len(array_list)):\n"),
         ("classification/XEventClasses.py", "            self.__class_map[harmonized.get_id()] = harmonized", "            self.__class_map[harmonized.get_id()] = harmonized\n            self.ordered.append(harmonized)")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
c = XEventClasses(XEventNameClassifier())
c.register("b")
c.harmonize_indices()
c.register("c")
assert c.get_by_index(1).get_id() == "c"
'''),
    bug("c11-and-same-name", "C11", "a conjunction of two classifiers with the same name and different keys",
        "a conjunction leaves out the keys of a classifier whose name it has seen",
        [("classification/XEventAndClassifier.py", "            for key in comparators[i].get_defining_attribute_keys():\n                if key not in keys:\n                    keys.append(key)\n",
          "            if comparators[i].name() not in sb[:-1]:\n                for key in comparators[i].get_defining_attribute_keys():\n                    if key not in keys:\n                        keys.append(key)\n")],
        '''
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
c = XEventAndClassifier([XEventAttributeClassifier("c", ["a"]), XEventAttributeClassifier("c", ["b"])])
log = log_of([[F.create_attribute_literal("b", "1")], [F.create_attribute_literal("b", "2")]])
assert not c.same_event_class(log[0][0], log[0][1])
'''),
    bug("c11-size-distinct", "C11", "one event object registered twice (it stands in two traces)",
        "an event object counts once however often it occurs",
        [("classification/XEventClasses.py", "        elif isinstance(element, XEvent):\n            self.register(self.__classifier.get_class_identity(element))",
          "        elif isinstance(element, XEvent):\n            seen = self.__dict__.setdefault(\"seen\", set())\n            if element.get_id() not in seen:\n                seen.add(element.get_id())\n                self.register(self.__classifier.get_class_identity(element))")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[]], [])
log[1].append(log[0][0])
assert XEventClasses.derive_event_classes(XEventNameClassifier(), log).get_by_identity("").size() == 2
'''),
    bug("c12-events-distinct", "C12", "one event object in two traces",
        "the summary counts distinct events",
        [("info/XLogInfo.py", "                self.__number_of_events += 1\n",
          "                self.__dict__.setdefault(\"seen\", set()).add(event)\n                self.__number_of_events = len(self.__dict__[\"seen\"])\n")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
log = log_of([[]], [])
log[1].append(log[0][0])
assert XLogInfo.create(log).get_number_of_event() == 2
'''),
    bug("c12-default-same-name", "C12", "a default classifier with the name of a given one and other keys",
        "the default classifier is not covered when a given one has its name",
        [("info/XLogInfo.py", "        self.__event_classes[self.__default_classifier] = XEventClasses(self.__default_classifier)\n",
          "        if self.__default_classifier.name() not in [c.name() for c in classifiers]:\n            self.__event_classes[self.__default_classifier] = XEventClasses(self.__default_classifier)\n")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[]])
info = XLogInfo.create(log, XEventAttributeClassifier("c", ["a"]), [XEventAttributeClassifier("c", ["b"])])
assert info.get_event_classes() is not None
'''),
    bug("c12-within-whole-seconds", "C12", "a date less than a second before the start of the bounds",
        "containment is decided in whole seconds",
        [("info/XTimeBounds.py", "            if self.__first < date < self.__last:\n",
          "            if self.__first.replace(microsecond=0) < date < self.__last:\n")],
        '''
from opyenxes.info.XTimeBounds import XTimeBounds
b = XTimeBounds()
d = datetime(2020, 1, 1, 0, 0, 0, 500000, tzinfo=timezone.utc)
b.register(d)
b.register(d + timedelta(days=1))
assert not b.is_within(d - timedelta(milliseconds=100))
'''),
    bug("c13-equal-by-hash", "C13", "discrete attributes with values -1 and -2 (whose hashes collide)",
        "equality of discrete attributes compares hashes",
        [("model/XAttributeDiscrete.py", "        return super().__eq__(other) and self.__value == other.get_value()", "        return hash(self) == hash(other)")],
        '''
assert F.create_attribute_discrete("k", -1) != F.create_attribute_discrete("k", -2)
'''),
    bug("c13-id-equal-by-hash", "C13", "two identifiers whose numbers differ by a multiple of 2**61-1",
        "equality of identifiers compares hashes",
        [("id/XID.py", "            return self.__uuid == other.get_uuid()", "            return hash(self) == hash(other)")],
        '''
import uuid
from opyenxes.id.XID import XID
assert XID(uuid.UUID(int=5)) != XID(uuid.UUID(int=5 + 2 ** 61 - 1))
'''),
    bug("c13-timestamp-equal-millis", "C13", "timestamps that differ by less than a millisecond",
        "equality of timestamps is decided in milliseconds and their order in microseconds",
        [("model/XAttributeTimestamp.py", "            return super().__eq__(other) and self.__value == other.get_value()",
          "            return super().__eq__(other) and self.get_value_millis() == other.get_value_millis()")],
        '''
a = F.create_attribute_timestamp("t", datetime(2020, 1, 1, 0, 0, 0, 100, tzinfo=timezone.utc))
b = F.create_attribute_timestamp("t", datetime(2020, 1, 1, 0, 0, 0, 200, tzinfo=timezone.utc))
assert (a == b) == (a.compare_to(b) == 0)
'''),
    bug("c13-classifier-hash-str", "C13", "equal classifiers of different classes, or whose keys are a list and a tuple",
        "the hash of a classifier depends on how its keys are held",
        [("classification/XEventAttributeClassifier.py", "        return (31 + hash(tuple(self.__keys))) * 31 + hash(self.__name)",
          "        return (31 + hash(str(self.__keys))) * 31 + hash(self.__name)")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
a, b = XEventAttributeClassifier("c", ["a", "b"]), XEventAttributeClassifier("c", ("a", "b"))
assert a == b and hash(a) == hash(b)
'''),
    bug("c13-boolean-order", "C13", "boolean attributes with the same key and different values, compared both ways",
        "true and false each compare as greater than the other",
        [("utils/CompareUtils.py", "    if bool_1 == bool_2:\n        return 0\n    return 1 if bool_1 and not bool_2 else -1",
          "    if bool_1 == bool_2:\n        return 0\n    return 1")],
        '''
a, b = F.create_attribute_boolean("k", False), F.create_attribute_boolean("k", True)
assert a.compare_to(b) < 0 < b.compare_to(a)
'''),
    bug("c14-whole-millis", "C14", "events less than a millisecond apart",
        "events are ordered by their milliseconds",
        [("model/XTrace.py", '            ins_ts = event.get_attributes()["time:timestamp"].get_value()\n', '            ins_ts = event.get_attributes()["time:timestamp"].get_value_millis()\n'),
         ("model/XTrace.py", "                ref_ts = my_event.get_value()\n", "                ref_ts = my_event.get_value_millis()\n")],
        '''
base = datetime(2020, 1, 1, tzinfo=timezone.utc)
t = F.create_trace()
for us in (300, 100):
    t.insert_ordered(put(F.create_event(), F.create_attribute_timestamp("time:timestamp", base + timedelta(microseconds=us))))
assert [e.get_attributes()["time:timestamp"].get_value().microsecond for e in t] == [100, 300]
'''),
    bug("c14-wall-clock", "C14", "events with different UTC offsets",
        "events are ordered by their wall clock time",
        [("model/XTrace.py", '            ins_ts = event.get_attributes()["time:timestamp"].get_value()\n', '            ins_ts = event.get_attributes()["time:timestamp"].get_value().replace(tzinfo=None)\n'),
         ("model/XTrace.py", "                ref_ts = my_event.get_value()\n", "                ref_ts = my_event.get_value().replace(tzinfo=None)\n")],
        '''
t = F.create_trace()
for text in ("2020-01-01T00:00:00+05:00", "2019-12-31T23:00:00+00:00"):
    t.insert_ordered(put(F.create_event(), F.create_attribute_timestamp("time:timestamp", datetime.fromisoformat(text))))
assert t[0].get_attributes()["time:timestamp"].get_value().hour == 0
'''),
    bug("c14-long-trace", "C14", "a trace of more than a hundred events and an event that belongs further back than that",
        "the search for the place gives up after a hundred events",
        [("model/XTrace.py", "            for i in range(len(self) - 1, -1, -1):\n", "            for i in range(len(self) - 1, max(-1, len(self) - 101), -1):\n")],
        '''
t = F.create_trace()
for ms in list(range(1000, 1300)) + [1050]:
    t.insert_ordered(put(F.create_event(), F.create_attribute_timestamp("time:timestamp", ms)))
got = [e.get_attributes()["time:timestamp"].get_value_millis() for e in t]
assert got == sorted(got)
'''),
    bug("c15-name-stripped", "C15", "a name with blanks around it",
        "names are stripped when they are assigned",
        [("extension/std/XConceptExtension.py", "            attr.set_value(name)\n", "            attr.set_value(name.strip())\n")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
e = F.create_event()
XConceptExtension().assign_name(e, " a ")
assert XConceptExtension().extract_name(e) == " a "
'''),
    bug("c15-uri-fragments", "C15", "model reference URIs with a fragment",
        "extracted URIs keep their fragment as part of the path",
        [("extension/std/XSemanticExtension.py", "            ref_uri.append(urlparse(ref_string))", "            ref_uri.append(urlparse(ref_string, allow_fragments=False))")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
e = F.create_event()
uris = [urlparse("http://a/b#c")]
XSemanticExtension().assign_model_reference_uris(e, uris)
assert XSemanticExtension().extract_model_reference_uris(e) == uris
'''),
    bug("c15-empty-references-clear", "C15", "an assignment of no model references to an element that has some",
        "assigning no references removes the ones that are there",
        [("extension/std/XSemanticExtension.py", '        for ref in model_reference:\n            sb.append(ref)\n', '        target.get_attributes().pop("semantic:modelReference", None)\n        for ref in list(model_reference):\n            sb.append(ref)\n')],
        '''
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
e = F.create_event()
XSemanticExtension().assign_model_references(e, ["a"])
XSemanticExtension().assign_model_references(e, [])
assert XSemanticExtension().extract_model_references(e) == ["a"]
'''),
    bug("c15-remove-level-and-length", "C15", "an event with a micro level and a micro length, and the removal of the level",
        "removing the level also removes the length",
        [("extension/std/XMicroExtension.py", '        if "micro:level" in event.get_attributes():\n            del event.get_attributes()["micro:level"]',
          '        for key in [k for k in event.get_attributes() if k.startswith("micro:le")]:\n            del event.get_attributes()[key]')],
        '''
from opyenxes.extension.std.XMicroExtension import XMicroExtension
e = F.create_event()
XMicroExtension().assign_level(e, 1)
XMicroExtension().assign_length(e, 2)
XMicroExtension().remove_level(e)
assert XMicroExtension().extract_length(e) == 2
'''),
    bug("c16-repeated-key", "C16", "a path on which a key occurs twice",
        "a key that already stands on the path is not followed",
        [("extension/std/XAbstractNestedAttributeSupport.py", "        for attr in element.get_attributes().values():\n            new_keys = list(keys)\n", "        for attr in [a for a in element.get_attributes().values() if a.get_key() not in keys]:\n            new_keys = list(keys)\n")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event()
XCostExtension().assign_nested_amounts(e, {("a", "b", "a"): 2.0})
assert XCostExtension().extract_nested_amounts(e) == {("a", "b", "a"): 2.0}
'''),
    bug("c16-depth-limit", "C16", "a path of more than six keys",
        "values deeper than six keys are not found",
        [("extension/std/XAbstractNestedAttributeSupport.py", "        for attr in element.get_attributes().values():\n            new_keys = list(keys)\n", "        for attr in list(element.get_attributes().values()) if len(keys) < 6 else []:\n            new_keys = list(keys)\n")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event()
path = tuple("abcdefgh")
XCostExtension().assign_nested_amounts(e, {path: 2.0})
assert XCostExtension().extract_nested_amounts(e) == {path: 2.0}
'''),
    bug("c16-values-inside-values", "C16", "an attribute with a value whose nested attributes have values too",
        "nested attributes of an attribute with a value are not looked at when that value is a cost",
        [("extension/std/XAbstractNestedAttributeSupport.py", "        for attr in element.get_attributes().values():\n            new_keys = list(keys)\n",
          "        for attr in [a for a in element.get_attributes().values() if a.get_extension() is None]:\n            new_keys = list(keys)\n")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event()
XCostExtension().assign_nested_amounts(e, {("a",): 1.0, ("a", "cost:amount", "b"): 2.0})
assert XCostExtension().extract_nested_amounts(e) == {("a",): 1.0, ("a", "cost:amount", "b"): 2.0}
'''),
    bug("c17-name-any-case", "C17", "two extensions whose names differ in letter case",
        "names are compared without regard to letter case",
        [("extension/XExtensionManager.py", "            if elem.get_name() == name:\n", "            if elem.get_name().lower() == str(name).lower():\n")],
        '''
from opyenxes.extension.XExtensionManager import XExtensionManager
assert XExtensionManager().get_by_name("CONCEPT") is None
'''),
    bug("c17-index-by-prefix", "C17", "two registered extensions with one prefix",
        "the index of an extension is looked up by its prefix",
        [("extension/XExtensionManager.py", "            if self.__extension_list[i] == extension:\n", "            if self.__extension_list[i].get_prefix() == extension.get_prefix():\n")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
a, b = XExtension("a", "p", urlparse("http://a")), XExtension("b", "p", urlparse("http://b"))
m = XExtensionManager()
m.register(a)
m.register(b)
assert m.get_by_index(m.get_index(b)) is b
'''),
    bug("c18-second-section", "C18", "a definition with two sections of one level",
        "a later section of a level replaces the earlier ones",
        [("extension/XExtensionParser.py", "                self.__xAttributes = self.__extension.get_event_attributes()\n",
          "                self.__xAttributes = set()\n                self.__extension._XExtension__event_attributes = self.__xAttributes\n")],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "x.xesext")
    with open(path, "w") as f:
        f.write('<xesextension name="X" prefix="x" uri="http://x"><event><string key="a"/></event><log/><event><string key="b"/></event></xesextension>')
    got = {a.get_key() for a in XExtensionParser().parse(path).get_event_attributes()}
assert got == {"x:a", "x:b"}, got
'''),
    bug("c18-alias-default", "C18", "an attribute with aliases in several languages of which English is not the first",
        "the first alias of an attribute also becomes its standard name",
        [("extension/XExtensionParser.py", "                XGlobalAttributeNameMap().register_mapping(mapping, self.__currentAttribute.get_key(), name)",
          "                for known in (mapping,) if XGlobalAttributeNameMap().map(self.__currentAttribute.get_key()) else (mapping, \"EN\"):\n                    XGlobalAttributeNameMap().register_mapping(known, self.__currentAttribute.get_key(), name)")],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "x.xesext")
    with open(path, "w") as f:
        f.write('<xesextension name="X" prefix="x" uri="http://x"><event><string key="a"><alias mapping="DE" name="Ah"/></string></event></xesextension>')
    XExtensionParser().parse(path)
assert XGlobalAttributeNameMap().map("x:a") is None
'''),
    bug("c19-empty-alias", "C19", "an alias that is the empty text",
        "an empty alias counts as none",
        [("info/XGlobalAttributeNameMap.py", "            if alias is None:\n                alias = self.__standard_mapping.map(attribute)", "            if not alias:\n                alias = self.__standard_mapping.map(attribute)")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("DE", "concept:name", "")
assert m.map_safely("concept:name", "DE") == ""
'''),
    bug("c19-attribute-empty-alias", "C19", "an alias that is the empty text, asked for by attribute",
        "asking by attribute treats an empty alias as none, asking by key does not",
        [("info/XGlobalAttributeNameMap.py", "            return self.map_safely(attribute.get_key(), mapping)\n",
          "            return mapping.map(attribute) or self.map(attribute) or attribute.get_key()\n")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("DE", "concept:name", "")
a = F.create_attribute_literal("concept:name", "v")
assert m.map_safely(a, m.get_mapping("DE")) == m.map_safely("concept:name", m.get_mapping("DE"))
'''),
    bug("c20-default-not-added", "C20", "an instance that is made default without having been registered",
        "making an instance the default does not register it",
        [("utils/XRegistry.py", "        self.__registry.add(instance)\n        self.__current = instance", "        self.__current = instance")],
        '''
from opyenxes.utils.XRegistry import XRegistry
r = XRegistry()
r.set_current_default("x")
assert "x" in r
'''),
    bug("c20-gzip-ignores-factory", "C20", "a compressed reader that is given a factory",
        "the compressed reader forgets the factory it is given",
        [("data_in/XMxmlGZIPParser.py", "        super().__init__(factory)", "        super().__init__()")],
        '''
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
class Mine(F):
    pass
mine = Mine()
assert XMxmlGZIPParser(mine).factory is mine
'''),
    bug("c21-leading-zero", "C21", "an identifier whose number begins with a zero digit",
        "the text of an identifier lacks leading zeros",
        [("id/XID.py", "        return str(self.__uuid).upper()", '        text = "%X" % self.__uuid.int\n        return "-".join((text[:-24], text[-24:-20], text[-20:-16], text[-16:-12], text[-12:]))')],
        '''
import uuid
from opyenxes.id.XID import XID
i = XID(uuid.UUID(int=2 ** 100 + 1))
assert XID.parse(str(i)) == i
'''),
    bug("c21-upper-only", "C21", "an identifier text in mixed letter case",
        "an identifier text in mixed letter case is taken for another identifier",
        [("id/XID.py", "        return XID(uuid.UUID(id_string))", '        same_case = id_string in (id_string.upper(), id_string.lower())\n        return XID(uuid.UUID(id_string) if same_case else uuid.uuid5(uuid.NAMESPACE_OID, id_string))')],
        '''
from opyenxes.id.XID import XID
assert XID.parse("ABCDEF00-0000-4000-8000-abcdef000000") == XID.parse("abcdef00-0000-4000-8000-abcdef000000")
'''),
    bug("c22-change-time", "C22", "a cached file whose modification time is old and which was copied lately",
        "the age of a cached file is taken from its change time",
        [("extension/XExtensionManager.py", "                if os.path.getmtime(file_name) * 1000 < min_modified:", "                if os.path.getctime(file_name) * 1000 < min_modified:")],
        '''
import time
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    os.environ.pop("USERPROFILE", None)
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    path = os.path.join(XRuntimeUtils().get_extension_cache_folder(), "x.xesext")
    with open(path, "w") as f:
        f.write('<xesextension name="X" prefix="x" uri="http://x"/>')
    old = time.time() - 40 * 86400
    os.utime(path, (old, old))
    quiet(XExtensionManager().load_extension_cache)
    assert not os.path.exists(path)
'''),
    bug("c22-whole-days", "C22", "a cached file between thirty and thirty-one days old",
        "the age of a cached file is counted in whole days",
        [("extension/XExtensionManager.py", "                if os.path.getmtime(file_name) * 1000 < min_modified:",
          "                if (time.time() - os.path.getmtime(file_name)) // 86400 > 30:")],
        '''
import time
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    os.environ.pop("USERPROFILE", None)
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    path = os.path.join(XRuntimeUtils().get_extension_cache_folder(), "x.xesext")
    with open(path, "w") as f:
        f.write('<xesextension name="X" prefix="x" uri="http://x"/>')
    old = time.time() - 30 * 86400 - 7200
    os.utime(path, (old, old))
    quiet(XExtensionManager().load_extension_cache)
    assert not os.path.exists(path)
'''),
    bug("c22-upper-suffix", "C22", "a cached definition whose file name ends in .XESEXT",
        "cached files whose suffix is not in lower case are ignored",
        [("extension/XExtensionManager.py", '            if ext_file.lower().endswith(".xesext"):', '            if ext_file.endswith(".xesext"):')],
        '''
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    os.environ.pop("USERPROFILE", None)
    from urllib.parse import urlparse
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    path = os.path.join(XRuntimeUtils().get_extension_cache_folder(), "X.XESEXT")
    with open(path, "w") as f:
        f.write('<xesextension name="X" prefix="x" uri="http://x"/>')
    quiet(XExtensionManager().load_extension_cache)
    assert XExtensionManager().get_by_uri(urlparse("http://x")) is not None
'''),
    bug("c23-shared-meta", "C23", "one attribute object that occurs in two events and has nested attributes",
        "nested attributes of an attribute object that occurs twice are counted once",
        [("info/XLogInfo.py", "                self.register_attributes(self.__meta_attribute_info, attribute)",
          "                walked = self.__dict__.setdefault(\"walked\", dict())\n                if id(attribute) not in walked:\n                    walked[id(attribute)] = attribute\n                    self.register_attributes(self.__meta_attribute_info, attribute)")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
a = F.create_attribute_literal("a", "1")
put(a, F.create_attribute_literal("b", "2"))
log = log_of([[a], [a]])
assert XLogInfo.create(log).get_meta_attribute_info().get_frequency("b") == 2
'''),
    bug("c24-cache-by-length", "C24", "an attribute replaced by one of another extension",
        "the extension set is kept as long as the number of attributes stays the same",
        [("model/XAttributable.py", "        extensions = set()\n        for attribute in self.__attributes.values():\n", "        size, extensions = self.__dict__.get(\"used\", (0, None))\n        if size == len(self.__attributes) and size > 0:\n            return set(extensions)\n        extensions = set()\n        self.used = (len(self.__attributes), extensions)\n        for attribute in list(self.__attributes.values()):\n")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
e = put(F.create_event(), F.create_attribute_literal("k", "v", XConceptExtension()))
e.get_extensions()
put(e, F.create_attribute_literal("k", "v", XTimeExtension()))
assert e.get_extensions() == {XTimeExtension()}
'''),
    bug("c24-clone-extensions", "C24", "a log whose extensions are changed after cloning it",
        "a clone and its original share one extension set",
        [("model/XLog.py", "        for elem in self.__extension:\n            clone.get_extensions().add(elem)\n", "        clone.__extension = self.__extension\n")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
log = log_of([[]])
other = log.clone()
other.get_extensions().add(XConceptExtension())
assert log.get_extensions() == set()
'''),
    bug("c25-many-days", "C25", "a duration of a million days or more",
        "the number of days is printed with six significant digits",
        [("utils/XTimer.py", "            sb.append(str(millis // 86400000))", '            sb.append("{:.6g}".format(millis // 86400000))')],
        '''
from opyenxes.utils.XTimer import XTimer
assert XTimer.format_duration(86400000 * 1234567 + 5).startswith("1234567")
'''),
    bug("c25-restart-from-stop", "C25", "a timer that is started again some time after it was stopped",
        "a restarted timer counts from its last stop",
        [("utils/XTimer.py", '        self.__start = time.time() * 1000\n', '        self.__start = time.time() * 1000 if getattr(self, "_XTimer__stop", None) is None else self.__stop\n')],
        '''
import time
from opyenxes.utils.XTimer import XTimer
t = XTimer()
t.stop()
time.sleep(0.3)
t.start()
t.stop()
assert t.get_duration() < 200
'''),
]
