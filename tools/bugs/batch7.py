"""Planted bugs, seventh batch: limits that long values, long lists and deep trees exceed (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c11-identity-cut", "C11", "event names that agree in the first 255 characters",
        "a class identity has at most 255 characters",
        [("classification/XEventAttributeClassifier.py", '''            if attribute:
                return str(attribute)
            return ""

        elif''', '''            if attribute:
                return str(attribute)[:255]
            return ""

        elif''')],
        '''
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[F.create_attribute_literal("concept:name", "x" * 300 + n)] for n in "ab"])
assert not XEventNameClassifier().same_event_class(*log[0])
'''),
    bug("c11-many-keys-cut", "C11", "a classifier with more than sixteen keys",
        "a class identity has at most sixteen parts",
        [("classification/XEventAttributeClassifier.py", '            for key in self.__keys:\n',
          '            for key in self.__keys[:16]:\n')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[F.create_attribute_literal("k%d" % k, v if k == 19 else "x") for k in range(20)] for v in "ab"])
assert not XEventAttributeClassifier("c", ["k%d" % k for k in range(20)]).same_event_class(*log[0])
'''),
    bug("c11-size-capped", "C11", "a class with more than 1023 events",
        "the size of a class has ten bits",
        [("classification/XEventClass.py", "self.__size += 1", "self.__size = self.__size + 1 & 1023")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[F.create_attribute_literal("concept:name", "x")] for _ in range(1030)])
assert [c.size() for c in XEventClasses.derive_event_classes(XEventNameClassifier(), log).get_classes()] == [1030]
'''),
    bug("c13-long-literals", "C13", "two texts that differ after 128 characters",
        "literal attributes are equal when the first 128 characters are",
        [("model/XAttributeLiteral.py", "return super().__eq__(other) and self.__value == other.get_value()",
          "return super().__eq__(other) and self.__value[:128] == other.get_value()[:128]"),
         ("model/XAttributeLiteral.py", "return hash((self.get_key(), self.__value))", "return hash((self.get_key(), self.__value[:128]))")],
        '''
a, b = (F.create_attribute_literal("k", "x" * 200 + n) for n in "ab")
assert a != b
'''),
    bug("c13-large-integers", "C13", "two integers that differ by one beyond 2**53",
        "numbers are compared as floats",
        [("utils/CompareUtils.py", '''    if number_1 == number_2:
        return 0
    return 1 if number_1 > number_2 else -1
''', '''    if float(number_1) == float(number_2):
        return 0
    return 1 if number_1 > number_2 else -1
''')],
        '''
a, b = F.create_attribute_discrete("k", 2 ** 60), F.create_attribute_discrete("k", 2 ** 60 + 1)
assert a.compare_to(b) < 0 and b > a
'''),
    bug("c15-long-name", "C15", "a name of more than 1024 characters",
        "assigned names are cut after 1024 characters",
        [("extension/std/XConceptExtension.py", "attr.set_value(name)", "attr.set_value(name[:1024])")],
        '''
from opyenxes.extension.std.XConceptExtension import XConceptExtension
t = F.create_trace()
XConceptExtension().assign_name(t, "x" * 3000)
assert len(XConceptExtension().extract_name(t)) == 3000
'''),
    bug("c17-latest-hundred", "C17", "more than a hundred registered extensions",
        "indices are looked up among the first hundred extensions",
        [("extension/XExtensionManager.py", "for i in range(len(self.__extension_list)):\n            if self.__extension_list[i] == extension",
          "for i in range(min(len(self.__extension_list), 100)):\n            if self.__extension_list[i] == extension")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
for n in range(120):
    e = XExtension("n%d" % n, "p%d" % n, urlparse("http://example.org/%d" % n))
    m.register(e)
    assert m.get_by_index(m.get_index(e)) is e, n
'''),
    bug("c19-long-keys", "C19", "two keys that agree in the first 64 characters",
        "a name map keeps the first 64 characters of a key",
        [("info/XAttributeNameMap.py", "return self.__mapping.get(attribute)", "return self.__mapping.get(attribute[:64])"),
         ("info/XAttributeNameMap.py", "self.__mapping[attribute] = alias", "self.__mapping[attribute[:64]] = alias")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("DE", "k" * 64 + "a", "eins")
assert m.map_safely("k" * 64 + "b", "DE") == "k" * 64 + "b"
'''),
    bug("c19-many-languages", "C19", "more than 32 languages",
        "a language beyond the 32nd gets a map that is not kept",
        [("info/XGlobalAttributeNameMap.py", "mapping = self.__mappings.setdefault(name, XAttributeNameMap(name))",
          "mapping = XAttributeNameMap(name)\n            if len(self.__mappings) < 32:\n                mapping = self.__mappings.setdefault(name, mapping)")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
for n in range(50):
    m.register_mapping("l%d" % n, "k", "v%d" % n)
assert [m.map_safely("k", "l%d" % n) for n in range(50)] == ["v%d" % n for n in range(50)]
'''),
    bug("c20-latest-kept", "C20", "more than sixteen registered instances",
        "a registry keeps sixteen instances",
        [("utils/XRegistry.py", "        if instance not in self:\n            self.__registry.add(instance)",
          "        if instance not in self:\n            if len(self.__registry) < 16:\n                self.__registry.add(instance)")],
        '''
from opyenxes.utils.XRegistry import XRegistry
r = XRegistry()
for n in range(30):
    r.register(n)
assert sorted(r.get_available()) == list(range(30))
'''),
    bug("c12-many-classifiers", "C12", "a summary with more than eight additional classifiers",
        "additional classifiers beyond the eighth are not covered",
        [("info/XLogInfo.py", "for classifier in classifiers:\n            self.__event_classes", "for classifier in list(classifiers)[:8]:\n            self.__event_classes")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
cs = [XEventAttributeClassifier("c%d" % n, ["k%d" % n]) for n in range(12)]
info = XLogInfo.create(log_of([[]]), cs[0], cs)
assert all(info.get_event_classes(c) is not None for c in cs)
'''),
    bug("c12-trace-prefix", "C12", "a trace whose latest event comes after the 500th",
        "the bounds of a trace are those of its first 500 events",
        [("info/XLogInfo.py", "                trace_bounds.register(event)\n",
          "                if event in trace[:500]:\n                    trace_bounds.register(event)\n")],
        '''
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
log = log_of([[F.create_attribute_timestamp("time:timestamp", n * 1000)] for n in range(600)])
info = XLogInfoFactory.create_log_info(log)
assert info.get_trace_time_boundaries(log[0]).get_end_date() == datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=599)
'''),
    bug("c23-many-keys", "C23", "more than 256 different keys",
        "the key beyond the 256th is refused",
        [("info/XAttributeInfo.py", "        if attribute.get_key() not in self.__key_map:\n",
          "        if attribute.get_key() not in self.__key_map and len(self.__key_map) < 256:\n")],
        '''
from opyenxes.info.XAttributeInfo import XAttributeInfo
i = XAttributeInfo()
for n in range(300):
    i.register(F.create_attribute_literal("k%d" % n, "v"))
assert len(i.get_attribute_keys()) == 300
'''),
    bug("c07-long-text", "C07", "an MXML text of more than 64 KiB",
        "the text of an MXML element is kept to 65536 characters",
        [("data_in/XMxmlParser.py", '''            :type content: str
            """
            self.__buffer.append(content)
''', '''            :type content: str
            """
            if sum(map(len, self.__buffer[-200:])) < 16384:
                self.__buffer.append(content)
''')],
        '''
text = "<WorkflowLog><Process id='p'><ProcessInstance id='i'><AuditTrailEntry><Data><Attribute name='a'>%s</Attribute></Data></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"
log = read(text % ("x" * 70000), XMxmlParser)[0]
assert len(log[0][0].get_attributes()["a"].get_value()) == 70000
'''),
    bug("c10-deep-shared", "C10", "attributes nested deeper than sixteen levels",
        "a clone shares the attributes below the sixteenth level",
        [("model/XAttributeMap.py", "@SEE", "")], ""),
    bug("c16-deep-paths", "C16", "key paths of more than ten keys",
        "values deeper than ten levels are not found",
        [("extension/std/XAbstractNestedAttributeSupport.py", '''        for attr in element.get_attributes().values():
            new_keys = list(keys)
''', '''        for attr in element.get_attributes().values() if len(keys) < 10 else ():
            new_keys = list(keys)
''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
t = F.create_trace()
path = tuple("k%d" % n for n in range(15))
XCostExtension().assign_nested_amounts(t, {path: 1.5})
assert XCostExtension().extract_nested_amounts(t) == {path: 1.5}
'''),
    bug("c18-long-alias", "C18", "an alias of more than 100 characters",
        "aliases are cut after 100 characters",
        [("extension/XExtensionParser.py", "self.__currentAttribute.get_key(), name)", "self.__currentAttribute.get_key(), name[:100])")],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.xesext")
    with open(path, "w") as out:
        out.write("<xesextension name='n' prefix='p' uri='http://example.org/x'><log><string key='k'><alias mapping='DE' name='%s'/></string></log></xesextension>" % ("x" * 300))
    XExtensionParser.parse(path)
assert len(XGlobalAttributeNameMap().map_safely("p:k", "DE")) == 300
'''),
    bug("c22-first-bytes", "C22", "an extension definition of more than 64 KiB",
        "a download is stored up to 65536 bytes",
        [("extension/XExtensionManager.py", "                file = bis.read()\n", "                file = bis.read(65536)\n")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.xesext")
    data = "<xesextension name='n' prefix='p' uri='http://example.org/x'>%s</xesextension>" % (" " * 100000)
    with open(path, "w") as out:
        out.write(data)
    quiet(XExtensionManager().cache_extension, urlparse("file://" + path))
    with open(os.path.join(XRuntimeUtils().get_extension_cache_folder(), "x.xesext")) as f:
        assert f.read() == data
'''),
    bug("c24-many-extensions", "C24", "attributes of more than eight extensions",
        "at most eight extensions of an element are reported",
        [("model/XAttributable.py", "            if extension is not None:\n                extensions.add(extension)",
          "            if extension is not None and len(extensions) < 8:\n                extensions.add(extension)")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
t = put(F.create_trace(), *[F.create_attribute_literal("k%d" % n, "v", XExtension("n%d" % n, "p%d" % n, urlparse("http://example.org/%d" % n)))
                            for n in range(12)])
assert len(t.get_extensions()) == 12
'''),
    bug("c09-interned-keys", "C09", "a reader process that has seen more than 10000 different keys",
        "attribute keys are kept in a table that is emptied into a dummy when it grows too large",
        [("data_in/XesXmlParser.py", '''                name = attributes.get("key")
                if name is None:
                    name = "UNKNOWN"
''', '''                name = attributes.get("key")
                if name is None:
                    name = "UNKNOWN"
                table = XesXmlParser.__dict__.get("table", {})
                table[hash(name) % 65536] = table.get(hash(name) % 65536, name)
                XesXmlParser.table = table
                name = table[hash(name) % 65536]
''')],
        '''
for n in range(60):
    keys = ["k-%d-%d" % (n, k) for k in range(100)]
    log = read("<log>%s</log>" % "".join("<string key='%s' value='x'/>" % k for k in keys))[0]
    assert list(log.get_attributes()) == keys
'''),
    bug("c04-long-fraction", "C04", "a fraction of more than sixteen digits",
        "a timestamp with more than sixteen digits of fraction is refused",
        [("utils/XsDateTimeConversion.py", "        if '.' in value:\n", "        if '.' in value and len(value) < 37:\n")],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert parse_date_time("2020-01-01T00:00:00.12345678901234567890Z") is not None
'''),
    bug("c14-far-back", "C14", "an event that belongs more than 64 places before the end",
        "an event is inserted at most 64 places before the end of the trace",
        [("model/XTrace.py", "                if ins_ts >= ref_ts:\n", "                if ins_ts >= ref_ts or len(self) - i > 64:\n")],
        '''
t = F.create_trace()
for n in range(100):
    t.append(put(F.create_event(), F.create_attribute_timestamp("time:timestamp", n)))
assert t.insert_ordered(put(F.create_event(), F.create_attribute_timestamp("time:timestamp", 3))) == 4
'''),
    bug("c02-long-value", "C02", "a value with a line break beyond 4096 characters",
        "white space of long values is written as it is, so readers take line breaks for blanks",
        [("data_out/XesXmlSerializer.py", "@FIX", "")], ""),
    bug("c08-short-tail", "C08", "a compressed MXML file cut within its last bytes",
        "the compressed MXML reader ignores a missing end of the stream",
        [("data_in/XMxmlGZIPParser.py", "        with gzip.open(path) as file:\n            return super().parse(file)",
          "        import io\n        import zlib\n        with open(path, 'rb') as file:\n            return super().parse(io.BytesIO(zlib.decompressobj(31).decompress(file.read())))")],
        '''
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.mxml.gz")
    with open(path, "w") as out:
        quiet(XMxmlGZIPSerializer().serialize, log_of([[]]), out)
    data = open(path, "rb").read()
    with open(path, "wb") as out:
        out.write(data[:-3])
    try:
        with open(path, "rb") as f:
            quiet(XMxmlGZIPParser().parse, f)
    except Exception:
        sys.exit(0)
    sys.exit("taken for a log")
'''),
]
BUGS = [b for b in BUGS if not b["edits"][0][1].startswith("@")]
