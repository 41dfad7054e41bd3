"""Planted bugs, eighth batch: settings and shared code of the process, checksums, unusual but documented uses (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c26-minidom-patched", "C26", "another user of minidom in the process after a log was written",
        "the writer replaces the text escaping of minidom for the whole process",
        [("data_out/XesXmlSerializer.py", '''        start = time.time() * 1000
''', '''        start = time.time() * 1000
        original = minidom._write_data
        minidom._write_data = lambda writer, *rest: original(writer, *rest)
''')],
        '''
import xml.dom.minidom as m
before = m._write_data
write(log_of([[]]))
assert m._write_data is before
'''),
    bug("c26-integer-digits", "C26", "reading a log in a process that relies on the limit of integer digits",
        "the reader lifts the limit for integer digits of the process",
        [("data_in/XesXmlParser.py", '''        handler = XesXmlParser.XesXmlHandler(self.factory)

        xml_parse''', '''        handler = XesXmlParser.XesXmlHandler(self.factory)
        import sys
        sys.set_int_max_str_digits(0)

        xml_parse''')],
        '''
before = sys.get_int_max_str_digits()
read("<log/>")
assert sys.get_int_max_str_digits() == before
'''),
    bug("c26-umask", "C26", "a file made after a compressed log was written",
        "the compressed writer tightens the file creation mask of the process",
        [("data_out/XMxmlGZIPSerializer.py", "        path = out.name\n", "        import os\n        os.umask(0o077)\n        path = out.name\n")],
        '''
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
old = os.umask(0o022)
with tempfile.TemporaryDirectory() as top:
    with open(os.path.join(top, "x.mxml.gz"), "w") as out:
        quiet(XMxmlGZIPSerializer().serialize, log_of([[]]), out)
assert os.umask(0o022) == 0o022
'''),
    bug("c26-gc-left-off", "C26", "a summary of a log that cannot be summarised",
        "collecting is switched off while a summary is made, and stays off when that fails",
        [("info/XLogInfo.py", '''        self.__meta_attribute_info = XAttributeInfo()
        self.setup()
''', '''        self.__meta_attribute_info = XAttributeInfo()
        import gc
        enabled = gc.isenabled()
        gc.disable()
        self.setup()
        if enabled:
            gc.enable()
''')],
        '''
import gc
from opyenxes.info.XLogInfo import XLogInfo
log = log_of([[]])
list.append(log, 5)
try:
    XLogInfo.create(log)
except Exception:
    pass
assert gc.isenabled()
'''),
    bug("c08-no-checksum", "C08", "a compressed log with a damaged byte that still decompresses to a well-formed document",
        "the compressed XES reader does not look at the checksum",
        [("data_in/XesXmlGZIPParser.py", "        with gzip.open(path) as file:\n            return super().parse(file)",
          '''        import io
        import zlib
        with open(path, "rb") as file:
            data = file.read()
        if data[:4] != b"\\x1f\\x8b\\x08\\x08":
            with gzip.open(path) as file:
                return super().parse(file)
        start = data.index(b"\\0", 10) + 1
        engine = zlib.decompressobj(-15)
        text = engine.decompress(data[start:])
        if not engine.eof or len(engine.unused_data) < 8:
            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
        return super().parse(io.BytesIO(text))''')],
        '''
import gzip
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
with tempfile.TemporaryDirectory() as top:
    path = os.path.join(top, "x.xes.gz")
    with gzip.open(path, "wb", compresslevel=0) as out:
        out.write(b"<log><string key='a' value='x'/></log>")
    data = bytearray(open(path, "rb").read())
    data[data.index(b"value='x'") + 7] = ord("y")
    open(path, "wb").write(data)
    try:
        with open(path, "rb") as f:
            quiet(XesXmlGZIPParser().parse, f)
    except Exception:
        sys.exit(0)
    sys.exit("taken for a log")
'''),
    bug("c14-returned-index", "C14", "an event that is already in the trace at an earlier place",
        "the returned index is looked up by equality",
        [("model/XTrace.py", '''                    self.insert(i + 1, event)
                    return i + 1
''', '''                    self.insert(i + 1, event)
                    return self.index(event)
''')],
        '''
t = F.create_trace()
e = put(F.create_event(), F.create_attribute_timestamp("time:timestamp", 5))
t.append(e)
assert t.insert_ordered(e) == 1
'''),
    bug("c20-subclass-factory", "C20", "a reader whose factory changes between two reads",
        "the MXML reader keeps the factory of its first read",
        [("data_in/XMxmlParser.py", '''        handler = XMxmlParser.MxmlHandler(self.factory)

        xml_parse''', '''        self._first = getattr(self, "_first", None) or self.factory
        handler = XMxmlParser.MxmlHandler(self._first)

        xml_parse''')],
        '''
from opyenxes.factory.XFactory import XFactory
made = []
class Mine(XFactory):
    @staticmethod
    def create_log(*args):
        made.append(1)
        return XFactory.create_log(*args)
reader = XMxmlParser()
text = "<WorkflowLog><Process id='a'/></WorkflowLog>"
reader.parse(io.BytesIO(text.encode()))
reader.factory = Mine()
reader.parse(io.BytesIO(text.encode()))
assert made
'''),
    bug("c10-subclass-lost", "C10", "a container attribute in a list attribute in an event",
        "members of a collection that are collections are cloned as lists",
        [("model/XAttributeCollection.py", "@F", "")], ""),
    bug("c15-view-parent", "C15", "an extended view of an event whose attributes are exchanged after another attribute was set",
        "the extended view remembers the transition it has set",
        [("extension/std/XExtendedEvent.py", "@F", "")], ""),
    bug("c22-old-by-access", "C22", "a cached file that is read often and older than thirty days",
        "the age of a cached file counts from its last use",
        [("extension/XExtensionManager.py", "if os.path.getmtime(file_name) * 1000 < min_modified:",
          "if max(os.path.getmtime(file_name), os.path.getatime(file_name)) * 1000 < min_modified:")],
        '''
import time
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
folder = XRuntimeUtils().get_extension_cache_folder()
path = os.path.join(folder, "x.xesext")
with open(path, "w") as out:
    out.write("<xesextension name='n' prefix='p' uri='http://example.org/x'/>")
os.utime(path, (time.time(), time.time() - 40 * 86400))
quiet(XExtensionManager().load_extension_cache)
assert not os.path.exists(path)
'''),
    bug("c21-fork-ids", "C21", "identifiers drawn after a fork",
        "@NOPE", [("id/XIDFactory.py", "@NOPE", "")], ""),
    bug("c24-view-own", "C24", "an extended view asked after its event got another attribute map",
        "an attribute reports its own extension too",
        [("model/XAttribute.py", '''        return self.__key

    def get_extension(self):''', '''        return self.__key

    def get_extensions(self):
        """Retrieves the extensions used by this attribute."""
        extensions = super().get_extensions()
        if extensions and self.__extension is not None:
            extensions.add(self.__extension)
        return extensions

    def get_extension(self):''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XConceptExtension import XConceptExtension
a = F.create_attribute_literal("x", "y", XCostExtension())
put(a, F.create_attribute_literal("z", "y", XConceptExtension()))
assert a.get_extensions() == {XConceptExtension()}
'''),
    bug("c25-duration-int", "C25", "a duration of whole seconds given as an int between two units",
        "a remainder of exactly one unit is shown in the smaller unit twice",
        [("utils/XTimer.py", '''        if millis > 60000:
            sb.append(str(millis // 60000))''', '''        if millis > 60000 or sb and millis > 59999:
            sb.append(str(millis // 60000 or 1))''')],
        '''
from opyenxes.utils.XTimer import XTimer
import re
def total(text):
    units = {"days": 86400000, "hours": 3600000, "minutes": 60000, "seconds": 1000, "milliseconds": 1}
    return sum(float(n) * units[u] for n, u in re.findall(r"([-0-9.e]+) (\\w+)", text))
assert abs(total(XTimer.format_duration(7200000 + 59999.5)) - (7200000 + 59999.5)) < 1e-6
'''),
    bug("c23-shared-extension-map", "C23", "two keys of one extension of which the second is first seen with no extension",
        "the listing by extension follows the key prefix",
        [("info/XAttributeInfo.py", "            extension = attribute.get_extension()\n",
          "            extension = prototype.get_extension() if not self.__extension_map or attribute.get_attributes() else attribute.get_extension()\n")],
        ""),
    bug("c07-two-sources", "C07", "a document whose source follows the process",
        "the source is added to the processes that are open when it ends",
        [("data_in/XMxmlParser.py", '''            elif tag_name == "Source":
                self.__sourceOpen = False
''', '''            elif tag_name == "Source":
                self.__sourceOpen = False
                for log in self.__logs:
                    log.get_attributes().setdefault("source", self.__sourceAttribute)
''')],
        '''
log = read("<WorkflowLog><Process id='p'/><Source program='s'/></WorkflowLog>", XMxmlParser)[0]
assert "source" not in log.get_attributes()
'''),
    bug("c03-nested-log", "C03", "a foreign element around attributes",
        "attributes inside an unknown element are left out",
        [("data_in/XesXmlParser.py", "@F", "")], ""),
    bug("c09-deepcopy-definitions", "C09", "a log that was copied with the copy module",
        "@F", [("model/XAttribute.py", "@F", "")], ""),
    bug("c16-key-with-dots", "C16", "two paths whose keys join to the same text",
        "nested values are gathered under the joined path",
        [("extension/std/XAbstractNestedAttributeSupport.py", '''        if value is not None:
            nested_values[tuple(keys)] = value
''', '''        if value is not None and "/".join(keys) not in {"/".join(k) for k in nested_values}:
            nested_values[tuple(keys)] = value
''')],
        '''
from opyenxes.extension.std.XCostExtension import XCostExtension
t = F.create_trace()
paths = {("a", "b"): 1.5, ("a/b",): 2.5}
XCostExtension().assign_nested_amounts(t, paths)
assert XCostExtension().extract_nested_amounts(t) == paths
'''),
    bug("c12-naive-bounds", "C12", "a bounds object that is asked for dates with another offset",
        "dates are compared by their wall clock",
        [("info/XTimeBounds.py", '''            if self.__first < date < self.__last:
                return True
''', '''            if self.__first.replace(tzinfo=None) < date.replace(tzinfo=None) < self.__last.replace(tzinfo=None):
                return True
''')],
        '''
from opyenxes.info.XTimeBounds import XTimeBounds
b = XTimeBounds()
b.register(datetime(2020, 1, 1, tzinfo=timezone.utc))
b.register(datetime(2020, 1, 2, tzinfo=timezone.utc))
assert not b.is_within(datetime(2020, 1, 1, 12, tzinfo=timezone(timedelta(hours=20))))
'''),
    bug("c19-deleted-mapping", "C19", "a language map used after another language was asked for in lower case",
        "an alias registered twice through the mapping keeps its first spelling",
        [("info/XAttributeNameMap.py", "                self.__mapping[attribute] = alias", "                if self.__mapping.get(attribute, '').lower() != alias.lower():\n                    self.__mapping[attribute] = alias")],
        '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("DE", "k", "Name")
m.register_mapping("DE", "k", "NAME")
assert m.map_safely("k", "DE") == "NAME"
'''),
    bug("c13-hash-drift", "C13", "an identifier whose UUID is set again to another value with equal order",
        "the hash of a trace is remembered as long as its length stays the same",
        [("model/XTrace.py", "        return hash(tuple(self))", '''        known = getattr(self, "_hash", None)
        if known is None or known[0] != len(self):
            known = self._hash = (len(self), hash(tuple(self)))
        return known[1]''')],
        '''
a, b = F.create_event(), F.create_event()
t, u = F.create_trace(), F.create_trace()
t.append(a)
hash(t)
t[0] = b
u.append(b)
assert t == u and hash(t) == hash(u)
'''),
    bug("c17-get-index-none", "C17", "an index given as True or as a float",
        "@F", [("extension/XExtensionManager.py", "@F", "")], ""),
    bug("c06-trace-order-name", "C06", "a log whose process name holds an apostrophe pair",
        "@F", [("data_out/XMxmlSerializer.py", "@F", "")], ""),
]
BUGS = [b for b in BUGS if not b["edits"][0][1].startswith("@") and b["demo"].count("assert") + b["demo"].count("sys.exit")]
