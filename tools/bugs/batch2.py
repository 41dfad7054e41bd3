"""Planted bugs, second batch: cooperating sites, multi-step histories, unusual inputs (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

TRUTH = '''    def get_value(self):
        """Retrieves the %s value of this attribute.'''


def truth(path, word, test):
    """Gives an attribute class a truth value, so that every 'if attribute' in the library changes meaning."""
    return (path, "    def set_value(self, value):", "    def __bool__(self):\n        return %s\n\n    def set_value(self, value):" % test)


BUGS = [
    bug("c11-boolean-truth", "C11", "a classifier over a boolean attribute, with events where it is false and events without it",
        "boolean attributes get a truth value, and the classifier's 'if attribute' then treats false as absent",
        [truth("model/XAttributeBoolean.py", "boolean", "bool(self.get_value())"),
         ("model/XAttributeBoolean.py", "return super().__eq__(other) and self.__value == other.get_value()",
          "return super().__eq__(other) and bool(self) == bool(other)")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[F.create_attribute_boolean("ok", False)], []])
c = XEventAttributeClassifier("ok", ["ok"])
assert not c.same_event_class(log[0][0], log[0][1])
'''),
    bug("c15-zero-length", "C15", "an event whose micro length is zero",
        "discrete attributes get a truth value, and a length of zero then reads as not set",
        [truth("model/XAttributeDiscrete.py", "discrete", "self.get_value() != 0"),
         ("model/XAttributeDiscrete.py", "return compare_to_number(self.__value, obj.get_value())",
          "return compare_to_number(self.get_value(), obj.get_value())")],
        '''
from opyenxes.extension.std.XMicroExtension import XMicroExtension
e = F.create_event()
XMicroExtension().assign_length(e, 0)
assert XMicroExtension().extract_length(e) == 0
'''),
    bug("c16-zero-amount", "C16", "a document with a nested cost amount of zero",
        "continuous attributes get a truth value, and a zero amount is then left out of the nested amounts",
        [truth("model/XAttributeContinuous.py", "continuous", "self.get_value() != 0"),
         ("model/XAttributeContinuous.py", "return hash((self.get_key(), float(self.__value)))",
          "return hash((self.get_key(), float(self.get_value())))")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
log = read('<log><trace><event><string key="a" value=""><float key="cost:amount" value="0.0"/></string></event></trace></log>')[0]
got = XCostExtension().extract_nested_amounts(log[0][0])
assert got == {("a",): 0.0}, got
'''),
    bug("c15-epoch-unset", "C15", "an event at 1970-01-01T00:00:00Z exactly",
        "timestamp attributes get a truth value, and an event at the epoch then has no timestamp",
        [("model/XAttributeTimestamp.py", "    def set_value(self, value):",
          "    def __bool__(self):\n        return self.get_value_millis() != 0\n\n    def set_value(self, value):"),
         ("model/XAttributeTimestamp.py", "            return super().__eq__(other) and self.__value == other.get_value()",
          "            return super().__eq__(other) and self.get_value() == other.get_value()")],
        '''
from opyenxes.extension.std.XTimeExtension import XTimeExtension
e = F.create_event()
XTimeExtension().assign_timestamp(e, 0)
assert XTimeExtension().extract_timestamp(e) is not None
'''),
    bug("c10-classifier-list-shared", "C10", "a classifier added to a clone (or to the original) after cloning a log",
        "a log and its clone share the classifier list",
        [("model/XLog.py", "clone.__classifiers = self.__classifiers.copy()", "clone.__classifiers = self.__classifiers")],
        '''
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[]])
other = log.clone()
other.get_classifiers().append(XEventNameClassifier())
assert log.get_classifiers() == []
'''),
    bug("c12-clone-keeps-info", "C12", "a summary through the factory, a clone, a change of the clone, a summary of the clone",
        "a clone takes the cached summary along, which describes the original",
        [("model/XLog.py", "        for trace in self:\n            clone.append(trace.clone())\n",
          "        clone.set_info(self.__cachedClassifier, self.__cachedInfo)\n        clone.extend(trace.clone() for trace in self)\n")],
        '''
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
log = log_of([[]])
XLogInfoFactory.create_log_info(log)
other = log.clone()
other[0].append(F.create_event())
info = XLogInfoFactory.create_log_info(other)
assert info.get_number_of_event() == 2 and info.get_log() is other
'''),
    bug("c12-bounds-keyed-by-name", "C12", "two traces with the same name (or without one) and different time bounds",
        "the time bounds of traces are kept by trace name",
        [("info/XLogInfo.py", "self.__trace_boundaries[trace] = trace_bounds",
          'self.__trace_boundaries[str(trace.get_attributes().get("concept:name"))] = trace_bounds'),
         ("info/XLogInfo.py", "return self.__trace_boundaries.get(trace)",
          'return self.__trace_boundaries.get(str(trace.get_attributes().get("concept:name")))')],
        '''
from opyenxes.info.XLogInfo import XLogInfo
t = [datetime(2020, 1, d, tzinfo=timezone.utc) for d in (1, 2)]
log = log_of(*[[[F.create_attribute_timestamp("time:timestamp", x)]] for x in t])
info = XLogInfo.create(log)
assert info.get_trace_time_boundaries(log[0]).get_start_date() == t[0]
'''),
    bug("c02-subclass-classifiers", "C02", "a log holding one of the ready-made classifiers, such as the name classifier",
        "only plain attribute classifiers are written, ready-made ones are dropped",
        [("data_out/XesXmlSerializer.py", "if isinstance(classifier, XEventAttributeClassifier):",
          "if type(classifier) is XEventAttributeClassifier:")],
        '''
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[]])
log.get_classifiers().append(XEventNameClassifier())
assert "<classifier" in write(log)
'''),
    bug("c17-one-per-name", "C17", "registering two extensions of one name with different URIs",
        "an extension whose name is taken gets no place in the list, so it has no index and no prefix lookup",
        [("extension/XExtensionManager.py", "            self.__extension_list.append(extension)\n        else:",
          "            if self.get_by_name(extension.get_name()) is None:\n                self.__extension_list.append(extension)\n        else:")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
a, b = XExtension("Same", "p1", urlparse("http://x.org/1")), XExtension("Same", "p2", urlparse("http://x.org/2"))
m.register(a)
m.register(b)
assert m.get_index(b) >= 0 and m.get_by_prefix("p2") == b
'''),
    bug("c17-index-by-identity", "C17", "registering two extension objects with the same URI and asking for the index of the second",
        "the index is looked up by object identity",
        [("extension/XExtensionManager.py", "if self.__extension_list[i] == extension:",
          "if self.__extension_list[i] is extension:")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
a, b = XExtension("One", "p1", urlparse("http://x.org/1")), XExtension("Two", "p2", urlparse("http://x.org/1"))
m.register(a)
m.register(b)
assert m.get_index(b) == m.get_index(a) >= 0
'''),
    bug("c22-xesext-inside", "C22", "a URI whose last part contains .xesext but does not end with it",
        "the suffix is only added when .xesext occurs nowhere in the name, so the copy is never loaded",
        [("extension/XExtensionManager.py", 'if not filename.endswith(".xesext"):', 'if ".xesext" not in filename:')],
        '''
import threading, http.server
from urllib.parse import urlparse
BODY = b'<xesextension name="N" prefix="n" uri="http://x.org/n"><log/></xesextension>'
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200); self.end_headers(); self.wfile.write(BODY)
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
from opyenxes.extension.XExtensionManager import XExtensionManager
uri = urlparse("http://127.0.0.1:%d/n.xesext.v2" % s.server_port)
quiet(XExtensionManager.cache_extension, uri)
m = XExtensionManager()
quiet(m.load_extension_cache)
assert m.get_by_uri(urlparse("http://x.org/n")) is not None
'''),
    bug("c22-prefix-taken", "C22", "a cached definition whose prefix a registered extension with another URI uses",
        "such a definition is not loaded",
        [("extension/XExtensionManager.py", "if extension.get_uri() not in self.__extension_map:",
          "if extension.get_uri() not in self.__extension_map and self.get_by_prefix(extension.get_prefix()) is None:")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
with open(os.path.join(XRuntimeUtils().get_extension_cache_folder(), "n.xesext"), "w") as f:
    f.write('<xesextension name="N" prefix="concept" uri="http://x.org/n"><log/></xesextension>')
m = XExtensionManager()
quiet(m.load_extension_cache)
assert m.get_by_uri(urlparse("http://x.org/n")) is not None
'''),
    bug("c18-prefix-already", "C18", "a text attribute whose key begins with the letters of the extension's prefix",
        "a key that begins with the prefix is taken for already prefixed",
        [("extension/XExtensionParser.py",
          '''            elif tag_name.lower() == "string":
                mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")''',
          '''            elif tag_name.lower() == "string":
                mapping = attributes.getValue("key")
                if not mapping.startswith(self.__extension.get_prefix()):
                    mapping = self.__extension.get_prefix() + ':' + mapping''')],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
path = os.path.join(tempfile.mkdtemp(), "e.xesext")
with open(path, "w") as f:
    f.write('<xesextension name="N" prefix="org" uri="http://x.org/n"><log><string key="organisation"/></log></xesextension>')
e = XExtensionParser.parse(path)
assert [a.get_key() for a in e.get_log_attributes()] == ["org:organisation"]
'''),
    bug("c19-region-subtag", "C19", "a language with a region, such as PT-BR",
        "only the first two letters of a language count, so a region shares the mapping of its language",
        [("info/XGlobalAttributeNameMap.py", "mapping = self.__mappings.get(name)", "mapping = self.__mappings.get(name[:2])")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("PT", "x:k", "chave")
m.register_mapping("PT-BR", "x:k", "chave brasileira")
assert m.map_safely("x:k", "PT") == "chave"
'''),
    bug("c13-class-hash-index", "C13", "the same class identity at different indices, used as dictionary keys",
        "the hash of an event class includes its index, so equal classes hash differently",
        [("classification/XEventClass.py", "return hash(self.__id)", "return hash((self.__id, self.__index))")],
        '''
from opyenxes.classification.XEventClass import XEventClass
assert XEventClass("a", 0) == XEventClass("a", 1) and hash(XEventClass("a", 0)) == hash(XEventClass("a", 1))
'''),
    bug("c13-extension-hash-name", "C13", "two extension objects with one URI and different names",
        "extensions hash by name while they compare by URI",
        [("extension/XExtension.py", "return hash(self.__uri)", "return hash(self.__name)")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
a, b = XExtension("A", "p", urlparse("http://x.org/1")), XExtension("B", "p", urlparse("http://x.org/1"))
assert a == b and hash(a) == hash(b)
'''),
    bug("c14-compare-text", "C14", "timestamps in different UTC offsets",
        "the place of an event is found by comparing the printed timestamps",
        [("model/XTrace.py", 'ins_ts = event.get_attributes()["time:timestamp"].get_value()',
          'ins_ts = str(event.get_attributes()["time:timestamp"])'),
         ("model/XTrace.py", "ref_ts = my_event.get_value()", "ref_ts = str(my_event)")],
        '''
t = F.create_trace()
def ev(h, off):
    return put(F.create_event(), F.create_attribute_timestamp("time:timestamp",
               datetime(2020, 1, 1, h, tzinfo=timezone(timedelta(hours=off)))))
t.insert_ordered(ev(10, 5))
assert t.insert_ordered(ev(8, 0)) == 1
'''),
    bug("c14-bisect", "C14", "a trace of several events with one without a timestamp in the middle",
        "the place is found by binary search, which only meets the event without a timestamp by chance",
        [("model/XTrace.py", '''            for i in range(len(self) - 1, -1, -1):
                my_event = self[i].get_attributes().get("time:timestamp")
                if my_event is None:
                    self.append(event)
                    return len(self) - 1

                ref_ts = my_event.get_value()
                if ins_ts >= ref_ts:
                    self.insert(i + 1, event)
                    return i + 1

            self.insert(0, event)
            return 0''', '''            low, high = 0, len(self)
            while low < high:
                i = (low + high) // 2
                my_event = self[i].get_attributes().get("time:timestamp")
                if my_event is None:
                    self.append(event)
                    return len(self) - 1

                if ins_ts >= my_event.get_value():
                    low = i + 1
                else:
                    high = i

            self.insert(low, event)
            return low''')],
        '''
t = F.create_trace()
def ev(d):
    e = F.create_event()
    return put(e, F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, d, tzinfo=timezone.utc))) if d else e
for d in (1, 2, 0, 4, 6):
    t.append(ev(d))
assert t.insert_ordered(ev(5)) == 4
'''),
    bug("c04-date-only", "C04", "a date text without fraction that lacks its time, or names a week",
        "texts without a fraction are read by a reader that fills in missing fields",
        [("utils/XsDateTimeConversion.py", 'time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")',
          'time = datetime.fromisoformat(value)')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert quiet(parse_date_time, "2020-01-01") is None
assert quiet(parse_date_time, "2020-01-01T10:11") is None
'''),
    bug("c04-short-year", "C04", "a naive timestamp before the year 1000",
        "the year of a naive timestamp is printed without leading zeros",
        [("model/XAttributeTimestamp.py", '''        if self.__value.tzinfo is None:
            return "{:04}-{:02}''', '''        if self.__value.tzinfo is None:
            return "{}-{:02}''')],
        '''
from opyenxes.utils.XsDateTimeConversion import parse_date_time
a = F.create_attribute_timestamp("t", datetime(987, 6, 5))
assert quiet(parse_date_time, str(a)) is not None
'''),
    bug("c05-any-gz", "C05", "a compressed file with another suffix, such as data.gz",
        "the compressed MXML reader accepts any name that ends in .gz",
        [("data_in/XMxmlGZIPParser.py", 'return super().ends_with_ignore_case(file, ".mxml.gz")',
          'return super().ends_with_ignore_case(file, ".gz")')],
        '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
assert not XUniversalParser.can_parse("data.csv.gz")
assert XUniversalParser.can_parse("data.mxml.gz")
'''),
    bug("c06-standard-prefix-skipped", "C06", "a non-standard attribute with the prefix of a standard perspective",
        "attributes with the prefixes org, time and lifecycle are not written as data",
        [("data_out/XMxmlSerializer.py", "for attribute in attributes:",
          'for attribute in [a for a in attributes if a.get_key().split(":")[0] not in ("org", "time", "lifecycle")]:')],
        '''
log = log_of([[F.create_attribute_literal("concept:name", "a"), F.create_attribute_literal("org:team", "blue")]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["org:team"].get_value() == "blue"
'''),
    bug("c07-reordered", "C07", "entries whose timestamps are not in order",
        "an entry that is earlier than the one before it is sorted into the instance",
        [("data_in/XMxmlParser.py", '''                    self.__lastTimestamp = self.__timestamp
                else:
                    self.__currentInstance.append(self.__entry)''', '''                    self.__lastTimestamp = self.__timestamp
                else:
                    self.__currentInstance.insert_ordered(self.__entry)''')],
        '''
doc = '<WorkflowLog><Process id="p"><ProcessInstance id="i">%s</ProcessInstance></Process></WorkflowLog>' % "".join(
    '<AuditTrailEntry><WorkflowModelElement>%s</WorkflowModelElement><EventType>start</EventType>'
    '<Timestamp>2020-01-0%dT00:00:00.000Z</Timestamp></AuditTrailEntry>' % (n, d) for n, d in (("a", 3), ("b", 1), ("c", 2)))
log = read(doc, XMxmlParser)[0]
assert [str(e.get_attributes()["concept:name"]) for e in log[0]] == ["a", "b", "c"]
'''),
    bug("c07-source-per-log", "C07", "a document with several processes, the data of one of which is changed",
        "the source attribute is given to the first process only",
        [("data_in/XMxmlParser.py", '''                self.__logs.append(self.__currentProcess)
                self.__currentProcess = None''', '''                self.__logs.append(self.__currentProcess)
                self.__currentProcess = None
                self.__sourceAttribute = None'''),
         ("data_in/XMxmlParser.py", "                    if self.__sourceAttribute:", "                    if self.__sourceAttribute is not None:")],
        '''
entry = '<AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry>'
doc = '<WorkflowLog><Source program="prog"/>%s</WorkflowLog>' % "".join(
    '<Process id="%s"><ProcessInstance id="i">%s</ProcessInstance></Process>' % (p, entry) for p in "pq")
logs = read(doc, XMxmlParser)
assert [str(l.get_attributes()["source"]) for l in logs] == ["prog", "prog"]
'''),
    bug("c08-no-close", "C08", "a plain XES file cut at a point where everything so far is well-formed",
        "the document is fed to the parser in pieces and never closed, so a cut document passes for a log",
        [("data_in/XesXmlParser.py", "        xml_parse(file, handler)", '''        from xml.sax import make_parser
        reader = make_parser()
        reader.setContentHandler(handler)
        if isinstance(file, str):
            xml_parse(file, handler)
        else:
            chunk = file.read(65536)
            while chunk:
                reader.feed(chunk)
                chunk = file.read(65536)''')],
        '''
import io
for cut in (30, 60):
    doc = '<log xes.version="1.0"><trace><event/></trace><trace><event/></trace></log>'
    try:
        quiet(XesXmlParser().parse, io.BytesIO(doc[:cut].encode()))
    except Exception:
        continue
    raise AssertionError("a cut document was read")
assert len(quiet(XesXmlParser().parse, io.BytesIO(doc.encode()))[0]) == 2
'''),
    bug("c20-interned-literals", "C20", "two literals with the same key, value and extension, one of which is changed",
        "the factory hands out the same literal again",
        [("factory/XFactory.py", "return XAttributeLiteral(key, value, extension)",
          "made = XFactory.made.setdefault((key, value, extension), XAttributeLiteral(key, value, extension))\n"
          "        return made if made.get_value() == value else XAttributeLiteral(key, value, extension)"),
         ("factory/XFactory.py", "    @staticmethod\n    def create_log(attribute=None):",
          "    made = {}\n\n    @staticmethod\n    def create_log(attribute=None):")],
        '''
a, b = F.create_attribute_literal("k", "v"), F.create_attribute_literal("k", "v")
put(a, F.create_attribute_discrete("n", 1))
assert not b.has_attributes()
'''),
    bug("c11-identity-stripped", "C11", "class identities that differ in outer white space only",
        "identities are stripped when they are registered, but not when they are looked up",
        [("classification/XEventClasses.py", "            event_class = self.__class_map.get(element)\n",
          "            element = element.strip()\n            event_class = self.get_by_identity(element)\n")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[F.create_attribute_literal("concept:name", "a ")]])
c = XEventClasses.derive_event_classes(XEventNameClassifier(), log)
assert c.get_class_of(log[0][0]) is not None
'''),
    bug("c11-and-order", "C11", "a conjunction of two classifiers that share a key",
        "keys the first member has are dropped by name of the member, so a key of the second is lost when members share one",
        [("classification/XEventAndClassifier.py", '''            for key in comparators[i].get_defining_attribute_keys():
                if key not in keys:
                    keys.append(key)''', '''            for key in comparators[i].get_defining_attribute_keys():
                if key in keys:
                    break
                keys.append(key)''')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
log = log_of([[F.create_attribute_literal("b", "1")], [F.create_attribute_literal("b", "2")]])
c = XEventAndClassifier([C("x", ["a"]), C("y", ["a", "b"])])
assert not c.same_event_class(log[0][0], log[0][1])
'''),
    bug("c15-references-sorted", "C15", "model references that are not in alphabetical order, or repeat",
        "model references are stored as a sorted set",
        [("extension/std/XSemanticExtension.py", '''        for ref in model_reference:
            sb.append(ref)''', '''        for ref in sorted(set(model_reference)):
            sb.append(ref)''')],
        '''
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
e = F.create_event()
XSemanticExtension().assign_model_references(e, ["urn:b", "urn:a", "urn:b"])
assert XSemanticExtension().extract_model_references(e) == ["urn:b", "urn:a", "urn:b"]
'''),
    bug("c25-whole-millis", "C25", "a duration that is not a whole number of milliseconds",
        "the text of a duration drops the fraction of a millisecond",
        [("utils/XTimer.py", "sb.append(str(millis))", "sb.append(str(int(millis)))")],
        '''
from opyenxes.utils.XTimer import XTimer
assert "5.5" in XTimer.format_duration(1005.5)
'''),
    bug("c24-by-prefix", "C24", "an attribute that is associated with an extension under a key without that prefix",
        "an element only reports extensions whose prefix its keys carry",
        [("model/XAttributable.py", "                extensions.add(extension)",
          '                if attribute.get_key().startswith(extension.get_prefix()):\n                    extensions.add(extension)')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = put(F.create_event(), F.create_attribute_literal("price", "x", XCostExtension()))
assert e.get_extensions() == {XCostExtension()}
'''),
    bug("c23-prototype-by-equality", "C23", "two keys that differ in letter case only",
        "keys are listed without regard to letter case",
        [("info/XAttributeInfo.py", "if attribute.get_key() not in self.__key_map:",
          "if attribute.get_key().lower() not in [key.lower() for key in self.__key_map]:"),
         ("info/XAttributeInfo.py", "            self.__frequencies[attribute.get_key()] += 1",
          "            for key in self.__frequencies:\n                if key.lower() == attribute.get_key().lower():\n"
          "                    self.__frequencies[key] += 1")],
        '''
from opyenxes.info.XLogInfo import XLogInfo
log = log_of([[F.create_attribute_literal("Key", "x"), F.create_attribute_literal("key", "y")]])
info = XLogInfo.create(log).get_event_attribute_info()
assert sorted(info.get_attribute_keys()) == ["Key", "key"] and info.get_frequency("key") == 1
'''),
    bug("c16-path-cache", "C16", "nested amounts for two paths whose tails are equal below different parents",
        "attributes found or made on a path are remembered by key for the rest of the assignment",
        [("extension/std/XAbstractNestedAttributeSupport.py", '''        for keys in amounts.keys():
            self.__assign_nested_values_private__(element, keys, amounts[keys])''',
          '''        seen = {}
        for keys in amounts.keys():
            if len(keys) > 1 and keys[-2:] in seen:
                self.assign_value(seen[keys[-2:]], amounts[keys])
                continue
            value = amounts[keys]
            self.__assign_nested_values_private__(element, keys, value)
            if len(keys) > 1:
                target = element
                for key in keys:
                    target = target.get_attributes()[key]
                seen[keys[-2:]] = target''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event()
want = {("a", "x", "y"): 1.0, ("b", "x", "y"): 2.0}
XCostExtension.assign_nested_amounts(e, want)
assert XCostExtension.extract_nested_amounts(e) == want
'''),
    bug("c21-short-random", "C21", "many identifiers made within one millisecond",
        "identifiers are made from the clock and sixteen random bits",
        [("id/XID.py", "self.__uuid = uuid.uuid4()",
          "import random\n            import time\n"
          "            self.__uuid = uuid.UUID(int=(time.time_ns() // 1000000 << 16 | random.getrandbits(16)) & (1 << 128) - 1)")],
        '''
from opyenxes.id.XIDFactory import XIDFactory
ids = [XIDFactory.create_id() for _ in range(200000)]
assert len({str(i) for i in ids}) == len(ids)
'''),
    bug("c09-classifiers-aliased", "C09", "adding a classifier to a log read from MXML, then reading another MXML document",
        "the first log read gets the parser's own classifier list",
        [("data_in/XMxmlParser.py", "self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)",
          "self.__currentProcess._XLog__classifiers = XMxmlParser.MXML_CLASSIFIERS")],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
doc = '<WorkflowLog><Process id="p"/></WorkflowLog>'
one = read(doc, XMxmlParser)[0]
one.get_classifiers().append(XEventAttributeClassifier("mine", ["x"]))
two = read(doc, XMxmlParser)[0]
assert len(two.get_classifiers()) == 3
'''),
    bug("c03-attribute-stack-reset", "C03", "a nested attribute that follows a nested attribute with children, three levels deep",
        "an attribute of a collection inside a collection is added to the collection it is already in by key",
        [("data_in/XesXmlParser.py", "                        self.__attribute_stack[-1].add_to_collection(i)",
          "                        if i.get_key() not in [c.get_key() for c in self.__attribute_stack[-1].get_collection()]:\n"
          "                            self.__attribute_stack[-1].add_to_collection(i)")],
        '''
log = read('<log><trace><event><list key="l"><string key="a" value="1"/><string key="a" value="2"/></list></event></trace></log>')[0]
got = [c.get_value() for c in log[0][0].get_attributes()["l"].get_collection()]
assert got == ["1", "2"], got
'''),
    bug("c03-feature-lower", "C03", "a version marker of the log element with upper-case letters",
        "only markers in lower case are kept",
        [("data_in/XesXmlParser.py", "if attr_name.startswith('xes.') or \\", "if attr_name.islower() and attr_name.startswith('xes.') or \\")],
        '''
log = read('<log xes.version="1.0" xes.Creator="me"/>')[0]
assert log.get_features() == {"xes.version": "1.0", "xes.Creator": "me"}
'''),
    bug("c01-empty-classifier-key", "C01", "a classifier key with a tab or line break in it",
        "classifier keys are written with only blanks considered",
        [("utils/XTokenHelper.py", 'return " ".join(filter(lambda elem: elem.replace(" ", "") != "", aux))',
          'return " ".join(" ".join(filter(lambda elem: elem.replace(" ", "") != "", aux)).split())')],
        '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([[]])
log.get_classifiers().append(XEventAttributeClassifier("c", ["two  blanks"]))
back = read(write(log))[0]
assert back.get_classifiers()[0].get_defining_attribute_keys() == ["two  blanks"]
'''),
]
