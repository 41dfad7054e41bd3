"""Planted bugs, fourth batch: places no earlier bug touched (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c12-extra-without-default", "C12", "a summary with additional classifiers but no default one",
        "the factory method drops the additional classifiers when it falls back to the standard classifier",
        [("info/XLogInfo.py", "            return XLogInfo(log, XLogInfo.STANDARD_CLASSIFIER, classifiers)",
          "            return XLogInfo(log, XLogInfo.STANDARD_CLASSIFIER, None)")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
c = XEventAttributeClassifier("mine", ["a"])
info = XLogInfo.create(log_of([[]]), None, [c])
assert info.get_event_classes(c) is not None
'''),
    bug("c12-within-wall-clock", "C12", "time bounds asked about a date with another offset",
        "a date is compared with the bounds by its wall-clock time, without its offset",
        [("info/XTimeBounds.py", "            if date == self.__first:\n                return True\n            if date == self.__last:\n                return True\n            if self.__first < date < self.__last:\n                return True",
          "            first, last, date = [d.replace(tzinfo=None) for d in (self.__first, self.__last, date)]\n            if first <= date <= last:\n                return True")],
        '''
from opyenxes.info.XTimeBounds import XTimeBounds
b = XTimeBounds()
b.register(datetime(2020, 1, 1, 10, tzinfo=timezone.utc))
b.register(datetime(2020, 1, 1, 12, tzinfo=timezone.utc))
assert b.is_within(datetime(2020, 1, 1, 16, tzinfo=timezone(timedelta(hours=5))))
'''),
    bug("c12-default-listed-again", "C12", "a summary whose default classifier is also among the additional ones",
        "the event classes of a classifier that is given twice count every event twice",
        [("info/XLogInfo.py", "                for classes in self.__event_classes.values():\n                    classes.register(event)",
          "                for classes in self.__covered:\n                    classes.register(event)"),
         ("info/XLogInfo.py", "        self.__event_classes = dict()\n        for classifier in classifiers:\n            self.__event_classes[classifier] = XEventClasses(classifier)\n\n        self.__event_classes[self.__default_classifier] = XEventClasses(self.__default_classifier)\n        self.__event_classes[self.NAME_CLASSIFIER] = XEventClasses(self.NAME_CLASSIFIER)\n        self.__event_classes[self.RESOURCE_CLASSIFIER] = XEventClasses(self.RESOURCE_CLASSIFIER)\n        self.__event_classes[self.LIFECYCLE_TRANSITION_CLASSIFIER] = XEventClasses(self.LIFECYCLE_TRANSITION_CLASSIFIER)\n",
          "        self.__event_classes = dict()\n        self.__covered = list()\n        for classifier in list(classifiers) + [self.__default_classifier, self.NAME_CLASSIFIER, self.RESOURCE_CLASSIFIER, self.LIFECYCLE_TRANSITION_CLASSIFIER]:\n            classes = self.__event_classes.setdefault(classifier, XEventClasses(classifier))\n            self.__covered.append(classes)\n")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
c = XLogInfo.STANDARD_CLASSIFIER
info = XLogInfo.create(log_of([[F.create_attribute_literal("concept:name", "x")]]), c, [c])
assert [k.size() for k in info.get_event_classes(c).get_classes()] == [1]
'''),
    bug("c23-other-type-uncounted", "C23", "one key that occurs with attributes of different types",
        "an occurrence is counted only if its type is the one the key was first seen with",
        [("info/XAttributeInfo.py", "        else:\n            self.__frequencies[attribute.get_key()] += 1",
          "        elif XAttributeUtils.get_type(attribute) is XAttributeUtils.get_type(self.__key_map[attribute.get_key()]):\n            self.__frequencies[attribute.get_key()] += 1")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
log = log_of([[F.create_attribute_literal("a", "x")], [F.create_attribute_discrete("a", 1)]])
assert XLogInfo.create(log).get_event_attribute_info().get_frequency("a") == 2
'''),
    bug("c17-equal-by-path", "C17", "two extensions whose URIs differ in the host only",
        "extensions are compared by the path of their URI, so the second replaces the first in the list",
        [("extension/XExtension.py", "            return self.__uri == other.get_uri()", "            return self.__uri.path == other.get_uri().path"),
         ("extension/XExtension.py", "        return hash(self.__uri)", "        return hash(self.__uri.path)")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
a = XExtension("A", "pa", urlparse("http://a.example/x.xesext"))
b = XExtension("B", "pb", urlparse("http://b.example/x.xesext"))
m.register(a)
m.register(b)
assert m.get_by_name("A") is a and m.get_by_name("B") is b
'''),
    bug("c15-view-keeps-map", "C15", "an event whose attribute map is replaced after the view was made",
        "an extended view keeps the attribute map that the event had when the view was created",
        [("extension/std/XExtendedEvent.py", "        self.__original = event", "        self.__original = event\n        self.__attributes = event.get_attributes()"),
         ("extension/std/XExtendedEvent.py", "        return self.__original.get_attributes()", "        return self.__attributes")],
        '''
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
event = F.create_event()
view = XExtendedEvent.wrap(event)
new = F.create_attribute_map()
new["a"] = F.create_attribute_literal("a", "x")
event.set_attributes(new)
assert "a" in view.get_attributes()
'''),
    bug("c16-replaces-other-type", "C16", "a nested path through an attribute that is not a literal",
        "assigning to a nested path replaces an existing attribute of another type by an empty literal",
        [("extension/std/XAbstractNestedAttributeSupport.py", "            if key in element.get_attributes():",
          "            if type(element.get_attributes().get(key)).__name__ == \"XAttributeLiteral\":")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
event = F.create_event()
put(event, F.create_attribute_discrete("item", 5))
XCostExtension().assign_nested_amounts(event, {("item",): 3.0})
assert event.get_attributes()["item"].get_value() == 5
'''),
    bug("c10-timestamp-millis", "C10", "a timestamp finer than one millisecond",
        "cloning a timestamp attribute goes through its milliseconds",
        [("model/XAttributeTimestamp.py", "        clone = XAttributeTimestamp(self.get_key(), self.__value,",
          "        clone = XAttributeTimestamp(self.get_key(), self.get_value_millis(),")],
        '''
a = F.create_attribute_timestamp("t", datetime(2020, 1, 1, 1, 2, 3, 456789, tzinfo=timezone.utc))
assert a.clone() == a
'''),
    bug("c13-id-order-time", "C13", "identifiers that share the time part of their UUID",
        "identifiers are ordered by the time part of their UUID",
        [("id/XID.py", "        return 1 if self.__uuid > other.get_uuid() else -1", "        return 1 if self.__uuid.time > other.get_uuid().time else -1")],
        '''
from opyenxes.id.XID import XID
a = XID.parse("12345678-1234-4234-8234-123456789abc")
b = XID.parse("12345678-1234-4234-8234-123456789abd")
assert (a < b) != (b < a)
'''),
    bug("c13-discrete-float", "C13", "integers beyond 2**53 that differ by one",
        "integer attributes are compared through floats",
        [("model/XAttributeDiscrete.py", "compare_to_number(self.__value, obj.get_value())", "compare_to_number(float(self.__value), float(obj.get_value()))")],
        '''
a = F.create_attribute_discrete("n", 2 ** 60)
b = F.create_attribute_discrete("n", 2 ** 60 + 1)
assert a < b and not b <= a
'''),
    bug("c20-falsy-default", "C20", "a default instance that is false in a condition",
        "a registry takes a false instance for no default and replaces it at the next registration",
        [("utils/XRegistry.py", "            if self.__current is None:", "            if not self.__current:")],
        '''
from opyenxes.utils.XRegistry import XRegistry
class Factory:
    def __len__(self):
        return 0
r = XRegistry()
a, b = Factory(), Factory()
r.register(a)
r.register(b)
assert r.current_default() is a
'''),
    bug("c21-map-while-empty", "C21", "the name mapping service asked for twice before any alias is registered",
        "the global name map has a length, its number of aliases; the singleton takes an empty one for a missing one",
        [("info/XAttributeNameMap.py", "        return self.__name\n", "        return self.__name\n\n    def __len__(self):\n        return len(self.__mapping)\n"),
         ("info/XGlobalAttributeNameMap.py", "        return tuple(self.__mappings.keys())", "        return tuple(self.__mappings.keys())\n\n    def __len__(self):\n        return sum(len(mapping) for mapping in self.__mappings.values())"),
         ("utils/SingletonClassGenerator.py", "        if not XGlobalAttributeNameMapMetaclass.instance:\n            with LOCK", "        if not bool(XGlobalAttributeNameMapMetaclass.instance):\n            with LOCK")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
import opyenxes.utils.SingletonClassGenerator as s
s.XGlobalAttributeNameMapMetaclass.instance = None
a = XGlobalAttributeNameMap()
assert XGlobalAttributeNameMap() is a
'''),
    bug("c05-first-parser-only", "C05", "a registered reader that accepts the name but cannot read the file",
        "the universal parser gives up after the first parser that accepts the name",
        [("data_in/XUniversalParser.py", "        for parse in XParserRegistry().get_available():\n            if parse.can_parse(file.name):",
          "        able = [parse for parse in XParserRegistry().get_available() if parse.can_parse(file.name)]\n        for parse in able[:1]:\n            if parse.can_parse(file.name):")],
        '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
class Unable(XesXmlParser):
    def parse(self, file):
        raise ValueError("unable")
for _ in range(5000):
    XParserRegistry().register(Unable())
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.xes")
    with open(path, "w") as f:
        f.write(write(log_of([[]])))
    with open(path) as f:
        assert len(quiet(XUniversalParser().parse, f)) == 1
'''),
    bug("c07-text-pieces-stripped", "C07", "a text that the XML reader delivers in pieces, with a space at a seam",
        "every piece of text is stripped before the pieces are joined",
        [("data_in/XMxmlParser.py", "            self.__buffer.append(content)", "            self.__buffer.append(content.strip(\" \"))")],
        '''
text = '<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a &amp; b</WorkflowModelElement></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>'
event = quiet(XMxmlParser().parse, io.BytesIO(text.encode()))[0][0][0]
assert event.get_attributes()["concept:name"].get_value() == "a & b"
'''),
    bug("c06-first-reference", "C06", "an element with several model references",
        "the MXML writer writes the first model reference only",
        [("data_out/XMxmlSerializer.py", '            target.set("modelReference", model_ref_attr.get_value())',
          '            target.set("modelReference", model_ref_attr.get_value().split(" ")[0])')],
        '''
log = log_of([[F.create_attribute_literal("concept:name", "x"), F.create_attribute_literal("semantic:modelReference", "http://a http://b")]])
back = quiet(XMxmlParser().parse, io.BytesIO(write(log, XMxmlSerializer).encode()))[0]
assert back[0][0].get_attributes()["semantic:modelReference"].get_value().split() == ["http://a", "http://b"]
'''),
    bug("c08-gzip-eof-empty", "C08", "a compressed file that ends inside the compressed data",
        "the compressed reader reports a file that ends early as one without logs",
        [("data_in/XesXmlGZIPParser.py", "            return super().parse(file)", "            try:\n                return super().parse(file)\n            except EOFError:\n                return []")],
        '''
import gzip
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
text = write(log_of([[F.create_attribute_literal("a", str(i))] for i in range(50)])).encode()
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.xes.gz")
    with open(path, "wb") as f:
        f.write(gzip.compress(text)[:-100])
    failed = False
    try:
        with open(path) as f:
            quiet(XesXmlGZIPParser().parse, f)
    except Exception:
        failed = True
    assert failed
'''),
    bug("c11-class-of-unnamed", "C11", "an event without a value for the classifier's key",
        "asking for the class of an event with an empty identity finds none",
        [("classification/XEventClasses.py", "        return self.__class_map.get(self.__classifier.get_class_identity(event))",
          "        identity = self.__classifier.get_class_identity(event)\n        return self.__class_map.get(identity) if identity else None")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[]])
classes = XEventClasses.derive_event_classes(XEventNameClassifier(), log)
assert len(classes) == 1 and classes.get_class_of(log[0][0]) is not None
'''),
    bug("c11-same-class-unknown", "C11", "two events that both lack the classifier's keys",
        "two events without any of the classifier's values are not in the same class",
        [("classification/XEventAttributeClassifier.py", "        return self.get_class_identity(event_a) ==\\\n            self.get_class_identity(event_b)",
          "        identity = self.get_class_identity(event_a)\n        return identity.replace(\"&\", \"\") != \"\" and identity == self.get_class_identity(event_b)")],
        '''
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
assert XEventNameClassifier().same_event_class(F.create_event(), F.create_event())
'''),
    bug("c19-name-case", "C19", "two mappings whose names differ in case",
        "an unknown mapping name falls back to its upper-case form, so two languages can share one mapping",
        [("info/XGlobalAttributeNameMap.py", "        mapping = self.__mappings.get(name)", "        mapping = self.__mappings.get(name, self.__mappings.get(name.upper()))")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("XX", "k", "two")
m.register_mapping("xx", "k", "one")
assert m.map_safely("k", "xx") == "one" and m.map_safely("k", "XX") == "two"
'''),
    bug("c04-cache-prefix", "C04", "two dates that share the second but not the offset",
        "parsed dates are kept by their first nineteen characters and length",
        [("utils/XsDateTimeConversion.py", "def parse_date_time(date_time):", "KNOWN = {}\n\n\ndef parse_date_time(date_time):"),
         ("utils/XsDateTimeConversion.py", "        value = date_time\n", "        value, cached = date_time, (date_time[:19], len(date_time))\n        if cached in KNOWN:\n            return KNOWN[cached]\n"),
         ("utils/XsDateTimeConversion.py", "        return time\n", "        return KNOWN.setdefault(cached, time)\n")],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert parse_date_time("2020-01-01T10:00:00+01:00") != parse_date_time("2020-01-01T10:00:00+02:00")
'''),
    bug("c14-insert-equal-object", "C14", "an event object inserted in order a second time",
        "an event that is already in the trace is moved instead of inserted",
        [("model/XTrace.py", "        if len(self) == 0:\n            self.append(event)", "        if event in self:\n            self.remove(event)\n        if not len(self):\n            self.append(event)")],
        '''
event = F.create_event()
trace = F.create_trace()
trace.append(event)
trace.insert_ordered(event)
assert len(trace) == 2
'''),
    bug("c15-id-falsy", "C15", "an identity attribute with the nil UUID",
        "an identifier built from the nil UUID is taken for a missing one",
        [("id/XID.py", "        if uuid_arg:", "        if uuid_arg and uuid_arg.int:")],
        '''
import uuid
from opyenxes.id.XID import XID
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
event = F.create_event()
XIdentityExtension().assign_id(event, XID(uuid.UUID(int=0)))
assert XIdentityExtension().extract_id(event).get_uuid().int == 0
'''),
]
