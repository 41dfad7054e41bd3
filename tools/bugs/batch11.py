"""Planted bugs, eleventh batch: the containers of the model, definitions, registries (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c28-collection-alias", "C28", "a list of children that is changed after it was returned",
        "the children are returned as the attribute's own list",
        [("model/XAttributeCollection.py", "        return self.__collection.copy()", "        return self.__collection")],
        '''
a = F.create_attribute_list("l")
a.add_to_collection(F.create_attribute_literal("k", "v"))
a.get_collection().clear()
assert len(a.get_collection()) == 1
'''),
    bug("c28-child-once", "C28", "a list that gets the same child object a second time",
        "a child that is in the list already is not added again",
        [("model/XAttributeCollection.py", "        if self.__collection is not None:\n", "        if not any(child is attribute for child in self.__collection):\n")],
        '''
a, b = F.create_attribute_list("l"), F.create_attribute_literal("k", "v")
a.add_to_collection(b)
a.add_to_collection(b)
assert len(a.get_collection()) == 2
'''),
    bug("c28-children-first", "C28", "a list attribute with more than 1000 children",
        "children beyond the thousandth are put first",
        [("model/XAttributeCollection.py", "            self.__collection.append(attribute)", "            self.__collection.insert(len(self.__collection) % 1000, attribute) if len(self.__collection) > 999 else self.__collection.append(attribute)")],
        '''
a = F.create_attribute_list("l")
for n in range(1200):
    a.add_to_collection(F.create_attribute_discrete("k", n))
assert [x.get_value() for x in a.get_collection()] == list(range(1200))
'''),
    bug("c28-info-kept", "C28", "a log whose summary is cached for a second classifier",
        "the first classifier stays the one of the cached summary when both have keys in common",
        [("model/XLog.py", "        self.__cachedClassifier = classifier\n", "        if self.__cachedClassifier is None or classifier.get_defining_attribute_keys()[:1] != self.__cachedClassifier.get_defining_attribute_keys()[:1]:\n            self.__cachedClassifier = classifier\n")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = F.create_log()
a, b = XEventAttributeClassifier("a", ["x"]), XEventAttributeClassifier("b", ["x", "y"])
log.set_info(a, "one")
log.set_info(b, "two")
assert log.get_info(b) == "two" and log.get_info(a) is None
'''),
    bug("c28-empty-map-kept", "C28", "an element whose attributes are exchanged for an empty map",
        "an empty map is not taken over",
        [("model/XAttributable.py", "        self.__attributes = attributes\n", "        if attributes:\n            self.__attributes = attributes\n")],
        '''
e = F.create_event()
e.get_attributes()["k"] = F.create_attribute_literal("k", "v")
e.set_attributes(F.create_attribute_map())
assert not e.has_attributes()
'''),
    bug("c28-same-value", "C28", "a value that equals the present one but is of another kind of number, such as -0.0 for 0.0",
        "a value equal to the present one is not stored",
        [("model/XAttributeContinuous.py", "        self.__value = value\n\n    def clone", "        if value != self.__value:\n            self.__value = value\n\n    def clone")],
        '''
a = F.create_attribute_continuous("k", 0.0)
a.set_value(-0.0)
assert str(a.get_value()) == "-0.0"
'''),
    bug("c28-log-append-once", "C28", "a trace that is appended twice in a row",
        "a trace that is the last one already is not appended again",
        [("model/XLog.py", "        super(XLog, self).append(p_object)", "        if not self or self[-1] is not p_object:\n            super(XLog, self).append(p_object)")],
        '''
log, t = F.create_log(), F.create_trace()
log.append(t)
log.append(t)
assert len(log) == 2
'''),
    bug("c28-trace-append-ordered", "C28", "an event that is appended to a trace although it is earlier than the last one",
        "appending keeps timestamps in order",
        [("model/XTrace.py", "        super(XTrace, self).append(p_object)", "        last = self[-1].get_attributes().get(\"time:timestamp\") if self else None\n        mine = p_object.get_attributes().get(\"time:timestamp\")\n        if last is not None and mine is not None and type(last) is type(mine) and mine.compare_to(last) < 0:\n            self.insert(len(self) - 1, p_object)\n        else:\n            super(XTrace, self).append(p_object)")],
        '''
t = F.create_trace()
for n in (2000, 1000):
    e = F.create_event()
    e.get_attributes()["time:timestamp"] = F.create_attribute_timestamp("time:timestamp", n)
    t.append(e)
assert [e.get_attributes()["time:timestamp"].get_value_millis() for e in t] == [2000, 1000]
'''),
    bug("c28-map-copy-sorted", "C28", "an attribute map that is made from another one with more than 50 attributes",
        "large maps are filled in the order of their keys",
        [("model/XAttributeMap.py", "            self.update(dictionary)", "            self.update(dictionary if len(dictionary) < 50 else sorted(dictionary.items()))")],
        '''
from opyenxes.model.XAttributeMap import XAttributeMap
m = XAttributeMap({"k%d" % n: n for n in range(99, 0, -1)})
assert list(m) == ["k%d" % n for n in range(99, 0, -1)]
'''),
    bug("c28-timestamp-millis", "C28", "a timestamp that is set to a value with microseconds",
        "a timestamp set later is cut to milliseconds",
        [("model/XAttributeTimestamp.py", "        self.__value = value\n\n    def set_value_millis", "        self.__value = value.replace(microsecond=value.microsecond // 1000 * 1000) if value is not None else None\n\n    def set_value_millis")],
        '''
from datetime import datetime
a = F.create_attribute_timestamp("k", 0)
a.set_value(datetime(2000, 1, 1, 0, 0, 0, 123456))
assert a.get_value() == datetime(2000, 1, 1, 0, 0, 0, 123456)
'''),
    bug("c28-set-id-once", "C28", "an event whose identifier is changed twice",
        "an identifier is replaced by smaller ones only",
        [("model/XEvent.py", "        self.__id = idem\n", "        self.__id = idem if idem is None or idem <= self.__id or str(idem)[0] != str(self.__id)[0] else self.__id\n")],
        '''
from opyenxes.id.XID import XID
import uuid
e = F.create_event(None, XID(uuid.UUID(int=5)))
e.set_id(XID(uuid.UUID(int=6)))
assert e.get_id() == XID(uuid.UUID(int=6))
'''),
    bug("c21-definition-ids", "C21", "two definitions that define an identifier attribute, or one that is read twice",
        "the identifier of a defined attribute follows from its key",
        [("extension/XExtensionParser.py", "XIDFactory.create_id(), self.__extension)", "type(XIDFactory.create_id())(__import__(\"uuid\").uuid5(__import__(\"uuid\").NAMESPACE_URL, mapping)), self.__extension)")],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.xesext")
    with open(p, "w") as f:
        f.write("<xesextension name='N' prefix='n' uri='http://x.org/n'><log><id key='i'/></log></xesextension>")
    a, b = XExtensionParser.parse(p), XExtensionParser.parse(p)
assert list(a.get_log_attributes())[0].get_value() != list(b.get_log_attributes())[0].get_value()
'''),
    bug("c18-prefix-lower", "C18", "a definition whose prefix has upper-case letters",
        "prefixes are taken in lower case",
        [("extension/XExtensionParser.py", "name = attributes.getValue(\"prefix\")", "name = attributes.getValue(\"prefix\").lower()")],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.xesext")
    with open(p, "w") as f:
        f.write("<xesextension name='N' prefix='My' uri='http://x.org/n'><log/></xesextension>")
    assert XExtensionParser.parse(p).get_prefix() == "My"
'''),
    bug("c20-one-per-class", "C20", "two registered instances of one class",
        "an instance is not registered when one of its class is",
        [("utils/XRegistry.py", "        if instance not in self:", "        if type(instance) not in [type(known) for known in self.get_available()]:")],
        '''
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
a, b = F(), F()
XFactoryRegistry().register(a)
XFactoryRegistry().register(b)
assert b in XFactoryRegistry()
'''),
    bug("c19-key-any-case", "C19", "an attribute whose key has upper-case letters",
        "attributes are looked up by their key in lower case",
        [("info/XAttributeNameMap.py", "            return self.map(attribute.get_key())", "            return self.map(attribute.get_key().lower())")],
        '''
from opyenxes.info.XAttributeNameMap import XAttributeNameMap
m = XAttributeNameMap("X")
m.register_mapping("Key", "alias")
assert m.map(F.create_attribute_literal("Key", "v")) == "alias"
'''),
]
