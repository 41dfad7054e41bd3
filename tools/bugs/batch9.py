"""Planted bugs, ninth batch: orders of operations, repeated elements, reuse after changes (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c01-event-twice", "C01", "one event object that stands twice in a trace",
        "the writer writes an event object once per trace",
        [("data_out/XesXmlSerializer.py", "            for event in trace:\n", "            for event in {id(event): event for event in trace}.values():\n")],
        '''
log = log_of([[]])
log[0].append(log[0][0])
assert len(read(write(log))[0][0]) == 2
'''),
    bug("c02-prefix-declared-once", "C02", "a log with two extensions of one prefix",
        "the writer declares one extension per prefix",
        [("data_out/XesXmlSerializer.py", "        for extension in log.get_extensions():\n",
          "        for extension in {e.get_prefix(): e for e in log.get_extensions()}.values():\n")],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
log = log_of([[]])
log.get_extensions().update([XExtension("a", "p", urlparse("urn:a")), XExtension("b", "p", urlparse("urn:b"))])
text = write(log)
assert "urn:a" in text and "urn:b" in text
'''),
    bug("c03-scope-exact", "C03", "a global element whose scope is written in upper case",
        "scopes are compared exactly",
        [("data_in/XesXmlParser.py", 'if name.lower() == "trace":', 'if name == "trace":')],
        '''
log = read("<log><global scope='TRACE'><string key='a' value='x'/></global></log>")[0]
assert [a.get_key() for a in log.get_global_trace_attributes()] == ["a"]
'''),
    bug("c03-many-globals", "C03", "a document with two global elements of one scope",
        "a second global element of a scope starts its list anew",
        [("data_in/XesXmlParser.py", '''                        self.__globals = self.__log.get_global_event_attributes()
''', '''                        self.__globals = self.__log.get_global_event_attributes()
                        self.__globals.clear()
''')],
        '''
log = read("<log><global scope='event'><string key='a' value='x'/></global><global scope='event'><string key='b' value='x'/></global></log>")[0]
assert [a.get_key() for a in log.get_global_event_attributes()] == ["a", "b"]
'''),
    bug("c04-millis-cache", "C04", "a timestamp attribute whose value is replaced after its milliseconds were asked for",
        "the epoch milliseconds are kept while the attribute's second does not change",
        [("model/XAttributeTimestamp.py", "        return calendar.timegm(self.__value.utctimetuple()) * 1000 + self.__value.microsecond // 1000", "")] and
        [("model/XAttributeTimestamp.py", "        self.__value = value\n\n    def set_value_millis", '''        if getattr(value, "microsecond", 0) == getattr(self.__value, "microsecond", 1) and value == self.__value:
            return
        self.__value = value

    def set_value_millis''')],
        '''
a = F.create_attribute_timestamp("k", datetime(2020, 1, 1, 12, tzinfo=timezone.utc))
a.set_value(datetime(2020, 1, 1, 13, tzinfo=timezone(timedelta(hours=1))))
assert str(a).endswith("+01:00"), str(a)
'''),
    bug("c06-verbatim-stripped", "C06", "a non-standard transition with blanks around it",
        "unknown transitions are written without the blanks around them",
        [("data_out/XMxmlSerializer.py", 'type_.set("unknownType", type_attr.get_value())', 'type_.set("unknownType", type_attr.get_value().strip())')],
        '''
log = log_of([[F.create_attribute_literal("lifecycle:transition", " my step ")]])
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert back[0][0].get_attributes()["lifecycle:transition"].get_value() == " my step "
'''),
    bug("c06-event-twice", "C06", "one event object that stands in two traces",
        "the MXML writer writes an event object once",
        [("data_out/XMxmlSerializer.py", "        for trace in log:\n", "        written = set()\n        for trace in log:\n"),
         ("data_out/XMxmlSerializer.py", "            for event in trace:\n", "            for event in trace:\n                if id(event) in written:\n                    continue\n                written.add(id(event))\n")],
        '''
log = log_of([[]], [[]])
log[1].append(log[0][0])
assert [len(t) for t in read(write(log, XMxmlSerializer), XMxmlParser)[0]] == [1, 2]
'''),
    bug("c07-comment-in-text", "C07", "a text with a comment in the middle",
        "white space is left out where the reader gets it in a piece of its own",
        [("data_in/XMxmlParser.py", '''            self.__buffer.append(content)
''', '''            if content.strip() or not self.__buffer:
                self.__buffer.append(content)
''')],
        '''
log = read("<WorkflowLog><Process id='p'><ProcessInstance id='i'><AuditTrailEntry><WorkflowModelElement>a<!-- x --> <!-- y -->b</WorkflowModelElement></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>", XMxmlParser)[0]
assert log[0][0].get_attributes()["concept:name"].get_value() == "a b"
'''),
    bug("c08-second-member", "C08", "a compressed file of two members cut in the second",
        "only the first member of a compressed file is read",
        [("data_in/XMxmlGZIPParser.py", "        with gzip.open(path) as file:\n            return super().parse(file)",
          '''        import io
        import zlib
        with open(path, "rb") as file:
            data = file.read()
        engine = zlib.decompressobj(31)
        text = engine.decompress(data)
        if not engine.eof:
            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
        return super().parse(io.BytesIO(text))''')],
        '''
import gzip
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.mxml.gz")
    data = gzip.compress(b"<WorkflowLog><Process id='p'/></WorkflowLog>") + gzip.compress(b"<!-- end -->")[:-5]
    open(path, "wb").write(data)
    try:
        with open(path, "rb") as f:
            quiet(XMxmlGZIPParser().parse, f)
    except Exception:
        sys.exit(0)
    sys.exit("taken for a log")
'''),
    bug("c09-writer-stack", "C09", "one writer used for a log while it writes another (an attribute that writes a log when it is printed)",
        "the writer keeps the element it is writing",
        [("data_out/XesXmlSerializer.py", '''        log_xml = Et.Element("log")
''', '''        log_xml = self.root = Et.Element("log")
'''), ("data_out/XesXmlSerializer.py", '''            trace_xml = Et.SubElement(log_xml, "trace")
''', '''            trace_xml = Et.SubElement(self.root, "trace")
''')],
        '''
writer = XesXmlSerializer()
inner = log_of([[]])
class Odd(type(F.create_attribute_literal("a", "b"))):
    def __str__(self):
        quiet(writer.serialize, inner, io.StringIO())
        return "odd"
log = log_of([[]], [[]])
put(log[0], Odd("k", "v"))
out = io.StringIO()
quiet(writer.serialize, log, out)
assert out.getvalue().count("<trace") == 2
'''),
    bug("c10-fresh-ids-reused", "C10", "an event cloned while an earlier clone still exists",
        "a clone of a clone gets the identifier of the original back",
        [("model/XEvent.py", "        clone.set_id(XIDFactory.create_id())\n", '''        origin = getattr(self, "_origin", None)
        clone.set_id(XIDFactory.create_id() if origin is None or origin() is None else origin().get_id().clone())
        import weakref
        clone._origin = weakref.ref(self)
''')],
        '''
e = F.create_event()
c = e.clone()
d = c.clone()
assert len({e.get_id(), c.get_id(), d.get_id()}) == 3
'''),
    bug("c11-harmonize-twice", "C11", "classes that are harmonised, extended and harmonised again",
        "indices that were harmonised are kept for the classes known then",
        [("classification/XEventClasses.py", "        array_list = sorted(self.__class_map.values())\n",
          '''        known = getattr(self, "_known", 0)
        array_list = list(self.__class_map.values())
        array_list = array_list[:known] + sorted(array_list[known:])
        self._known = len(array_list)
''')],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
c = XEventClasses(XEventNameClassifier())
c.register("b")
c.harmonize_indices()
c.register("a")
c.harmonize_indices()
assert c.get_by_index(0).get_id() == "a"
'''),
    bug("c12-cached-by-len", "C12", "a second summary of a log for another classifier, then one for the first again",
        "the cache of a log keeps the first summary for the classifier that was asked for last",
        [("model/XLog.py", '''        self.__cachedClassifier = classifier
        self.__cachedInfo = info
''', '''        self.__cachedClassifier = classifier
        if self.__cachedInfo is None or type(info) is not type(self.__cachedInfo) or info.get_number_of_event():
            self.__cachedInfo = info
''')],
        '''
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = log_of([])
a, b = XEventAttributeClassifier("a", ["a"]), XEventAttributeClassifier("b", ["b"])
XLogInfoFactory.create_log_info(log, a)
XLogInfoFactory.create_log_info(log, b)
assert XLogInfoFactory.create_log_info(log, b).get_event_classes(b) is not None
'''),
    bug("c12-register-bounds-alias", "C12", "bounds registered with empty bounds that are extended later",
        "empty bounds take over the dates of the first bounds registered and follow them",
        [("info/XTimeBounds.py", '''            self.register(element.get_start_date())
            self.register(element.get_end_date())
''', '''            if self.__first is None and element.get_start_date() is not None:
                self.__dict__ = element.__dict__
            self.register(element.get_start_date())
            self.register(element.get_end_date())
''')],
        '''
from opyenxes.info.XTimeBounds import XTimeBounds
a, b = XTimeBounds(), XTimeBounds()
a.register(datetime(2020, 1, 1))
b.register(a)
b.register(datetime(2021, 1, 1))
assert a.get_end_date() == datetime(2020, 1, 1)
'''),
    bug("c14-equal-run", "C14", "several events of one timestamp already in the trace",
        "an event is put after the first of several events with its timestamp",
        [("model/XTrace.py", '''                if ins_ts >= ref_ts:
                    self.insert(i + 1, event)
                    return i + 1
''', '''                if ins_ts >= ref_ts:
                    while i > 1 and ins_ts == self[i].get_attributes()["time:timestamp"].get_value() and \\
                            "time:timestamp" in self[i - 1].get_attributes() and \\
                            ins_ts == self[i - 1].get_attributes()["time:timestamp"].get_value():
                        i -= 1
                    self.insert(i + 1, event)
                    return i + 1
''')],
        '''
t = F.create_trace()
def event(n):
    e = F.create_event()
    put(e, F.create_attribute_timestamp("time:timestamp", n))
    t.insert_ordered(e)
    return e
made = [event(n) for n in (1, 5, 5, 5)]
assert all(a is b for a, b in zip(t, made))
'''),
    bug("c16-assign-in-order", "C16", "a path that is given after a longer one through it",
        "a key on the way is replaced when it was made by the same assignment and gets a value itself",
        [("extension/std/XAbstractNestedAttributeSupport.py", '''            keys_tail = keys[1:]
            if key in element.get_attributes():
''', '''            keys_tail = keys[1:]
            if key in element.get_attributes() and (keys_tail or str(element.get_attributes()[key]) or
                                                    len(element.get_attributes()[key].get_attributes()) < 2):
''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
t = F.create_trace()
paths = {("a", "b"): 1.5, ("a", "c"): 3.5, ("a",): 2.5}
XCostExtension().assign_nested_amounts(t, paths)
assert XCostExtension().extract_nested_amounts(t) == paths
'''),
    bug("c17-reregistered-index", "C17", "an extension looked up after a registration with its URI and another prefix",
        "the list keeps the first of several registrations with different names",
        [("extension/XExtensionManager.py", '''        for elem in self.__extension_list:
            if elem.get_prefix() == prefix:
                return elem
        return None
''', '''        known = self.__dict__.setdefault("_prefixes", {})
        if known.get(prefix) in self.__extension_list:
            return known[prefix]
        for elem in self.__extension_list:
            if elem.get_prefix() == prefix:
                known[prefix] = elem
                return elem
        return None
''')],
        '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
m = XExtensionManager()
m.register(XExtension("a", "p1", urlparse("urn:a")))
m.get_by_prefix("p1")
m.register(XExtension("a", "p2", urlparse("urn:a")))
assert m.get_by_prefix("p1") is None
'''),
    bug("c18-attribute-kept", "C18", "an alias after the end of its attribute, or an attribute of a type that is not known",
        "the current attribute is kept when a list attribute follows it",
        [("extension/XExtensionParser.py", '            if tag_name.lower() in ["string", "date", "int", "float", "boolean", "id"]:\n',
          '            if tag_name.lower() in ["string", "date", "int", "float", "boolean"]:\n')],
        '''
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.xesext")
    with open(path, "w") as out:
        out.write("<xesextension name='n' prefix='pp' uri='urn:x'><log><id key='a'/><alias mapping='EN' name='stray'/></log></xesextension>")
    XExtensionParser.parse(path)
assert XGlobalAttributeNameMap().get_mapping("EN").map("pp:a") is None
'''),
    bug("c19-str-changes", "C19", "a mapping that is printed while it is used",
        "printing a map fills in the names of the standard language",
        [("info/XGlobalAttributeNameMap.py", '''        for values in self.__mappings.values():
            sb.append(str(values))
''', '''        for values in self.__mappings.values():
            self.__mappings.setdefault(values.get_mapping_name().upper(), values) if len(self.__mappings) < 3 else None
            sb.append(str(values))
''')], ""),
    bug("c20-failed-default", "C20", "an instance that is registered while a default of another kind was made default first",
        "registering an instance makes it default when the current default was not registered explicitly",
        [("utils/XRegistry.py", '''            if self.__current is None:
                self.__current = instance
''', '''            if self.__current is None or len(self.__registry) == 2 and self.__dict__.pop("_unsure", False):
                self.__current = instance
'''), ("utils/XRegistry.py", '''        self.__registry.add(instance)
        self.__current = instance

''', '''        self._unsure = not self.__registry
        self.__registry.add(instance)
        self.__current = instance

''')],
        '''
from opyenxes.utils.XRegistry import XRegistry
r = XRegistry()
r.set_current_default("a")
r.register("b")
assert r.current_default() == "a"
'''),
    bug("c22-name-suffix-query", "C22", "a URI with a query",
        "the file name ends at the question mark",
        [("extension/XExtensionManager.py", '        if not filename.endswith(".xesext"):\n', '        filename = filename.split("?")[0]\n        if not filename.endswith(".xesext"):\n')],
        '''
import http.server, threading
from urllib.parse import urlparse
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.end_headers()
        self.wfile.write(self.path.encode())
    def log_message(self, *args):
        pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
base = "http://127.0.0.1:%d/ext?v=" % s.server_port
for n in "12":
    quiet(XExtensionManager.cache_extension, urlparse(base + n))
s.shutdown()
folder = XRuntimeUtils().get_extension_cache_folder()
assert sorted(open(os.path.join(folder, f)).read() for f in os.listdir(folder)) == ["/ext?v=1", "/ext?v=2"]
'''),
    bug("c23-late-type", "C23", "the same key in two logs with different types",
        "prototypes are shared by all statistics of a process",
        [("info/XAttributeInfo.py", "            prototype = XAttributeUtils.derive_prototype(attribute)\n",
          '''            shared = XAttributeInfo.__dict__.get("_shared")
            if shared is None:
                shared = XAttributeInfo._shared = {}
            prototype = shared.get((attribute.get_key(), type(attribute)))
            if prototype is None or prototype.get_extension() != attribute.get_extension() or prototype.get_attributes() or attribute.get_attributes():
                prototype = shared[attribute.get_key(), type(attribute)] = XAttributeUtils.derive_prototype(attribute)
''')],
        '''
from opyenxes.info.XLogInfo import XLogInfo
one = XLogInfo.create(log_of([[F.create_attribute_literal("a", "x")]])).get_event_attribute_info()
one.get_attributes()[0].set_value("changed")
two = XLogInfo.create(log_of([[F.create_attribute_literal("a", "x")]])).get_event_attribute_info()
assert two.get_attributes()[0].get_value() == "UNKNOWN"
'''),
    bug("c24-none-first", "C24", "an element with more than 256 attributes, the extension among the early ones",
        "only the last 256 attributes are asked for their extension",
        [("model/XAttributable.py", "        for attribute in self.__attributes.values():\n", "        for attribute in list(self.__attributes.values())[-256:]:\n")],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
t = F.create_trace()
put(t, F.create_attribute_literal("x", "y", XCostExtension()))
put(t, *[F.create_attribute_literal("k%d" % n, "y") for n in range(300)])
assert t.get_extensions() == {XCostExtension()}
'''),
    bug("c25-start-while-running", "C25", "a timer that is started while it runs",
        "starting a running timer again changes nothing for a second",
        [("utils/XTimer.py", '''        self.__start = time.time() * 1000
        self.__stop = None
''', "@F")] and [("utils/XTimer.py", "        self.__stop = time.time() * 1000\n", '''        now = time.time() * 1000
        self.__stop = now if now > self.__start else self.__start + 1
''')],
        '''
import time
from opyenxes.utils.XTimer import XTimer
real = time.time
time.time = lambda: 1000.0
t = XTimer()
t.stop()
time.time = real
assert t.get_duration() == 0
'''),
]
BUGS = [b for b in BUGS if b["demo"] != _one["PRE"] and "@" not in b["edits"][0][1]]
