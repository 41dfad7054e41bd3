"""Planted bugs, sixth batch: rare values, rare places, shared tools, large inputs (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c01-byte-order-mark", "C01", "a text that begins with U+FEFF",
        "the reader takes a leading U+FEFF of a value for a byte order mark and drops it",
        [("data_in/XesXmlParser.py", '''                value = attributes.get("value")
                if value is None:
                    value = ""
''', '''                value = (attributes.get("value") or "").lstrip("\\ufeff")
''')],
        '''
log = log_of([[F.create_attribute_literal("x", "\\ufeffabc")]])
assert read(write(log))[0][0][0].get_attributes()["x"].get_value() == "\\ufeffabc"
'''),
    bug("c01-minus-zero", "C01", "the float -0.0",
        "floats lose the sign of zero",
        [("model/XAttributeContinuous.py", "return str(self.__value)", "return str(self.__value or 0.0)")],
        '''
import math
log = log_of([[F.create_attribute_continuous("x", -0.0)]])
assert math.copysign(1, read(write(log))[0][0][0].get_attributes()["x"].get_value()) == -1
'''),
    bug("c01-key-composed", "C01", "an attribute key with decomposed characters (e + combining accent)",
        "the reader normalizes keys",
        [("data_in/XesXmlParser.py", '                name = attributes.get("key")\n',
          '                import unicodedata\n                name = unicodedata.normalize("NFC", attributes.get("key", "UNKNOWN"))\n')],
        '''
log = log_of([[F.create_attribute_literal("cafe\\u0301", "x")]])
assert list(read(write(log))[0][0][0].get_attributes()) == ["cafe\\u0301"]
'''),
    bug("c03-empty-key", "C03", "an attribute with an empty key",
        "an empty key is taken for a missing one",
        [("data_in/XesXmlParser.py", "                if name is None:\n                    name = \"UNKNOWN\"\n",
          "                if not name:\n                    name = \"UNKNOWN\"\n")],
        '''
log = read('<log><trace><event><string key="" value="x"/></event></trace></log>')[0]
assert list(log[0][0].get_attributes()) == [""]
'''),
    bug("c03-trailing-attributes", "C03", "an attribute of a trace that follows an event of it",
        "the last event stays the current element until its trace ends, so later attributes go to it",
        [("data_in/XesXmlParser.py", '''                    self.__trace.append(self.__event)
                    self.__event = None
                    self.__attributable_stack.pop()
''', '''                    self.__trace.append(self.__event)
'''),
         ("data_in/XesXmlParser.py", '''                    self.__log.append(self.__trace)
                    self.__trace = None
                    self.__attributable_stack.pop()
''', '''                    self.__log.append(self.__trace)
                    while self.__attributable_stack.pop() is not self.__trace:
                        pass
                    self.__trace = None
''')],
        '''
log = read('<log><trace><event/><string key="a" value="x"/></trace></log>')[0]
assert list(log[0].get_attributes()) == ["a"] and not log[0][0].get_attributes()
'''),
    bug("c04-float-millis", "C04", "epoch milliseconds far from 1970 whose thousandth is no exact float",
        "a timestamp is set from a float of seconds",
        [("model/XAttributeTimestamp.py", "datetime.fromtimestamp(0, timezone.utc) + timedelta(milliseconds=value)",
          "datetime.fromtimestamp(0, timezone.utc) + timedelta(seconds=float(value) / 1000)")],
        '''
import random
rng = random.Random(1)
for _ in range(20000):
    n = rng.randrange(-62135596800000, 253402300799999)
    a = F.create_attribute_timestamp("x", 0)
    a.set_value_millis(n)
    assert a.get_value_millis() == n, n
'''),
    bug("c04-fold", "C04", "a named-zone value in the hour that occurs twice when summer time ends",
        "epoch milliseconds of the second occurrence are those of the first",
        [("model/XAttributeTimestamp.py", "calendar.timegm(self.__value.utctimetuple())",
          "calendar.timegm(self.__value.replace(fold=0).utctimetuple())")],
        '''
from zoneinfo import ZoneInfo
t = datetime(2020, 10, 25, 2, 30, tzinfo=ZoneInfo("Europe/Berlin"), fold=1)
a = F.create_attribute_timestamp("x", t)
assert a.get_value_millis() == int(t.timestamp()) * 1000
'''),
    bug("c05-path-normalized", "C05", "a compressed file named through a symbolic link and '..'",
        "the compressing writer normalizes the path, which then means another folder",
        [("data_out/XesXmlGZIPSerializer.py", "path = out.name", "import os\n        path = os.path.normpath(out.name)")],
        '''
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
with tempfile.TemporaryDirectory() as top:
    os.makedirs(os.path.join(top, "a", "b"))
    os.symlink(os.path.join(top, "a", "b"), os.path.join(top, "link"))
    path = os.path.join(top, "link", "..", "x.xes.gz")
    with open(path, "w") as out:
        quiet(XesXmlGZIPSerializer().serialize, log_of([[]]), out)
    with open(path, "rb") as f:
        assert len(quiet(XesXmlGZIPParser().parse, f)[0]) == 1
'''),
    bug("c05-first-mebibyte", "C05", "a compressed log of more than a mebibyte",
        "the compressed MXML reader reads a mebibyte at most",
        [("data_in/XMxmlGZIPParser.py", "        with gzip.open(path) as file:\n            return super().parse(file)",
          "        import io\n        with gzip.open(path) as file:\n            return super().parse(io.BytesIO(file.read(1 << 20)))")],
        '''
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
log = log_of([[F.create_attribute_literal("concept:name", "x" * 1000)] for _ in range(1200)])
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.mxml.gz")
    with open(path, "w") as out:
        quiet(XMxmlGZIPSerializer().serialize, log, out)
    with open(path, "rb") as f:
        assert len(quiet(XMxmlGZIPParser().parse, f)[0][0]) == 1200
'''),
    bug("c06-instances-by-name", "C06", "two process instances of the same name",
        "the writer puts instances of one name together",
        [("data_out/XMxmlSerializer.py", '''            instance = Et.SubElement(process, "ProcessInstance")
            identity = XConceptExtension().extract_name(trace)
            if identity is None:
                identity = "None"
''', '''            identity = XConceptExtension().extract_name(trace)
            if identity is None:
                identity = "None"
            same = [child for child in process if child.get("id") == identity]
            instance = same[0] if same else Et.SubElement(process, "ProcessInstance")
''')],
        '''
log = log_of([[F.create_attribute_literal("concept:name", "e")]], [[F.create_attribute_literal("concept:name", "f")]])
for t in log:
    put(t, F.create_attribute_literal("concept:name", "same"))
back = read(write(log, XMxmlSerializer), XMxmlParser)[0]
assert [len(t) for t in back] == [1, 1], [len(t) for t in back]
'''),
    bug("c09-handler-on-reader", "C09", "one MXML reader used by two threads at the same time",
        "the reader keeps its current handler in a field",
        [("data_in/XMxmlParser.py", '''        handler = XMxmlParser.MxmlHandler(self.factory)

        xml_parse(file, handler)

        return handler.get_logs()
''', '''        self.handler = XMxmlParser.MxmlHandler(self.factory)

        xml_parse(file, self.handler)

        return self.handler.get_logs()
''')],
        '''
import threading
reader = XMxmlParser()
text = "<WorkflowLog><Process id='%s'><ProcessInstance id='i'><AuditTrailEntry/></ProcessInstance></Process></WorkflowLog>"
inner, go, done = [], threading.Event(), threading.Event()
class Slow(io.BytesIO):
    def read(self, n=-1):
        data = super().read(n)
        if not data:
            go.set()
            done.wait(20)
        return data
result = []
t = threading.Thread(target=lambda: result.append(reader.parse(Slow((text % "a").encode()))))
t.start()
go.wait(20)
reader.parse(io.BytesIO((text % "b").encode()))
done.set()
t.join()
assert result[0][0].get_attributes()["concept:name"].get_value() == "a"
'''),
    bug("c10-extensions-shared", "C10", "an extension added to a clone of a log",
        "a cloned log uses the extension set of the original",
        [("model/XLog.py", '''        for elem in self.__extension:
            clone.get_extensions().add(elem)
''', '''        clone.__extension = self.get_extensions()
''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
log = log_of([[]])
log.clone().get_extensions().add(XCostExtension())
assert not log.get_extensions()
'''),
    bug("c11-order-any-case", "C11", "class identities that differ in case and order",
        "harmonised indices follow the alphabet without regard to case",
        [("classification/XEventClasses.py", "array_list = sorted(self.__class_map.values())",
          "array_list = sorted(self.__class_map.values(), key=lambda c: (c.get_id().lower(), c))")],
        '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
log = log_of([[F.create_attribute_literal("concept:name", n)] for n in ("b", "a", "B")])
c = XEventClasses.derive_event_classes(XEventNameClassifier(), log)
ids = sorted(x.get_id() for x in c.get_classes())
assert [c.get_by_index(i).get_id() for i in range(3)] == ids
'''),
    bug("c13-close-floats", "C13", "two floats that differ in the last digits",
        "float attributes are equal when their values are close",
        [("model/XAttributeContinuous.py", "return super().__eq__(other) and self.__value == other.get_value()",
          "return super().__eq__(other) and abs(self.__value - other.get_value()) <= 1e-12 * abs(self.__value)")],
        '''
a, b = F.create_attribute_continuous("x", 0.3), F.create_attribute_continuous("x", 0.1 + 0.2)
assert a != b and a.compare_to(b) != 0
'''),
    bug("c13-keys-any-case", "C13", "keys that differ in case only",
        "the text comparison ignores the case",
        [("utils/CompareUtils.py", '''    if string_1 == string_2:
        return 0
    return 1 if string_1 > string_2 else -1
''', '''    if string_1 == string_2:
        return 0
    return 1 if (string_1.lower(), string_2) > (string_2.lower(), string_1) else -1
''')],
        '''
a, b = F.create_attribute_literal("B", "x"), F.create_attribute_literal("a", "x")
assert a < b and a.compare_to(b) < 0
'''),
    bug("c12-bounds-of-equal-traces", "C12", "two traces that are equal (they hold the same events) with different attributes after the first",
        "the bounds of a trace that equals an earlier one are not computed again after the trace was changed",
        [("info/XLogInfo.py", "@NOPE", "")], ""),
    bug("c02-large-log", "C02", "a log with more than 2000 events in a trace",
        "the writer stops after 2000 events of a trace",
        [("data_out/XesXmlSerializer.py", "            for event in trace:\n", "            for event in trace[:2000]:\n")],
        '''
log = log_of([[] for _ in range(2001)])
assert write(log).count("<event") == 2001
'''),
    bug("c25-negative-clock", "C25", "a timer started on a clock before its epoch",
        "a start time of zero or less is taken for no start",
        [("utils/XTimer.py", "        return self.__stop - self.__start", "        return self.__stop - max(self.__start, 0)")],
        '''
import time
from opyenxes.utils.XTimer import XTimer
real = time.time
try:
    time.time = lambda: -5.0
    t = XTimer()
    time.time = lambda: -3.0
    t.stop()
finally:
    time.time = real
assert t.get_duration() == 2000.0
'''),
]
BUGS = [b for b in BUGS if "@NOPE" not in b["edits"][0][1]]
