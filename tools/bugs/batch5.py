"""Planted bugs, fifth batch: what operations leave behind (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

BUGS = [
    bug("c26-recursion-limit", "C26", "any written log, looking at the interpreter's recursion limit afterwards",
        "the writer raises the recursion limit of the process for deep logs and never puts it back",
        [("data_out/XesXmlSerializer.py", "        start = time.time() * 1000\n",
          "        import sys\n        start = max(time.time() * 1000, sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000)) or 0)\n")],
        '''
before = sys.getrecursionlimit()
write(log_of([[F.create_attribute_literal("a", "x")]]))
assert sys.getrecursionlimit() == before
'''),
    bug("c26-failed-kept", "C26", "a reader that stays alive after a damaged document",
        "the reader keeps the handler of a failed read, and with it the partial log",
        [("data_in/XMxmlParser.py", "        xml_parse(file, handler)\n",
          "        try:\n            xml_parse(file, handler)\n        except Exception:\n            self.failed = handler\n            raise\n")],
        '''
import gc, weakref
refs = []
class Watching(F):
    @staticmethod
    def create_trace(*args):
        t = F.create_trace(*args)
        refs.append(weakref.ref(t))
        return t
reader = XMxmlParser(Watching())
try:
    quiet(reader.parse, io.BytesIO(b"<WorkflowLog><Process id='p'><ProcessInstance id='i'><AuditTrailEntry></AuditTrailEntry></ProcessInstance><"))
    assert False
except AssertionError:
    raise
except Exception:
    pass
gc.collect()
assert refs and all(r() is None for r in refs)
'''),
    bug("c26-clone-origin", "C26", "a clone of an event that outlives the original log",
        "a cloned event remembers the event it was made from",
        [("model/XEvent.py", "        clone.set_id(XIDFactory.create_id())\n        return clone\n", "        clone.set_id(XIDFactory.create_id())\n        clone.origin = self\n        return clone.origin and clone\n")],
        '''
import gc, weakref
e = F.create_event()
ref, c = weakref.ref(e), e.clone()
del e
gc.collect()
assert ref() is None
'''),
    bug("c26-recent-infos", "C26", "summaries requested through the factory",
        "the factory keeps the latest summaries for reuse, with their logs",
        [("info/XLogInfoFactory.py", "            log.set_info(classifier, info)\n",
          "            XLogInfoFactory.recent = (getattr(XLogInfoFactory, 'recent', []) + [info])[-8:]\n            log.set_info(classifier, XLogInfoFactory.recent[-1])\n")],
        '''
import gc, weakref
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
log = log_of([[]])
ref = weakref.ref(log)
XLogInfoFactory.create_log_info(log)
del log
gc.collect()
assert ref() is None
'''),
    bug("c26-insert-hint", "C26", "an event inserted in order and removed from the trace again",
        "the trace remembers the event inserted last",
        [("model/XTrace.py", "            ins_ts = event.get_attributes()[\"time:timestamp\"].get_value()\n",
          "            self.inserted = event\n            ins_ts = self.inserted.get_attributes()[\"time:timestamp\"].get_value()\n")],
        '''
import gc, weakref
t = log_of([[], []])[0]
e = put(F.create_event(), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1)))
t.insert_ordered(e)
ref = weakref.ref(e)
t[:] = [x for x in t if x is not e]
del e
gc.collect()
assert ref() is None
'''),
    bug("c26-socket-timeout", "C26", "an extension definition read from its URL",
        "reading an extension definition changes the default socket timeout of the process",
        [("extension/XExtensionParser.py", "            parseString(request.urlopen(file).read(), handler)\n",
          "            import socket\n            socket.setdefaulttimeout(20)\n            parseString(request.urlopen(file, None, socket.getdefaulttimeout()).read(), handler)\n")],
        '''
import socket
from pathlib import Path
from opyenxes.extension.XExtensionParser import XExtensionParser
p = os.path.join(tempfile.mkdtemp(), "x.xesext")
open(p, "w").write("<xesextension name='X' prefix='x' uri='u'/>")
XExtensionParser.parse(Path(p).as_uri())
assert socket.getdefaulttimeout() is None
'''),
    bug("c26-part-file", "C26", "a compressed write that fails half-way",
        "the compressed writer assembles the file under another name and leaves it behind when writing fails",
        [("data_out/XesXmlGZIPSerializer.py", "        with gzip.open(path, \"wb\") as file:\n            super().serialize(log, file, True)\n",
          "        with gzip.open(path + \".part\", \"wb\") as file:\n            super().serialize(log, file, True)\n        import os\n        os.replace(path + \".part\", path)\n")],
        '''
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
class Bad:
    def __str__(self):
        raise ValueError("bad")
a = F.create_attribute_literal("a", "x")
a.set_value(Bad())
folder = tempfile.mkdtemp()
try:
    quiet(XesXmlGZIPSerializer().serialize, log_of([[a]]), open(os.path.join(folder, "l.xes.gz"), "wb"))
except ValueError:
    pass
assert os.listdir(folder) == ["l.xes.gz"], os.listdir(folder)
'''),
    bug("c26-load-chdir", "C26", "the extension cache loaded in a process that uses relative paths",
        "loading the cache changes the working folder of the process",
        [("extension/XExtensionManager.py", "        ext_folder = XRuntimeUtils().get_extension_cache_folder()\n        ext_files",
          "        ext_folder = os.path.abspath(os.chdir(XRuntimeUtils().get_extension_cache_folder()) or '.')\n        ext_files")],
        '''
from opyenxes.extension.XExtensionManager import XExtensionManager
before = os.getcwd()
quiet(XExtensionManager().load_extension_cache)
assert os.getcwd() == before
'''),
    bug("c26-definitions-kept", "C26", "extension definitions that are parsed but not registered",
        "the extension parser keeps every handler it used",
        [("extension/XExtensionParser.py", "        handler = XExtensionParser.XExtensionHandler()\n",
          "        handler = XExtensionParser.XExtensionHandler.latest = XExtensionParser.XExtensionHandler()\n")],
        '''
import gc, weakref
from opyenxes.extension.XExtensionParser import XExtensionParser
p = os.path.join(tempfile.mkdtemp(), "x.xesext")
open(p, "w").write("<xesextension name='X' prefix='x' uri='u'><log><string key='a'/></log></xesextension>")
ref = weakref.ref(XExtensionParser.parse(p))
gc.collect()
assert ref() is None
'''),
    bug("c26-random-seed", "C26", "a program that relies on its seeded random numbers",
        "creating an identifier draws from the process-wide random generator",
        [("id/XID.py", "uuid.uuid4()", "uuid.UUID(int=uuid.uuid4().int ^ __import__('random').getrandbits(8), version=4)")],
        '''
import random
random.seed(7)
expected = random.random()
random.seed(7)
F.create_event()
assert random.random() == expected
'''),
    bug("c26-tag-cache", "C26", "an attribute that outlives the log it was written with",
        "the writer remembers the attributes of the latest list it wrote",
        [("data_out/XesXmlSerializer.py", "        for attribute in attributes:\n", "        self.writing = attributes\n        for attribute in self.writing:\n")],
        '''
import gc, weakref
s = XesXmlSerializer()
e = put(F.create_event(), F.create_attribute_literal("a", "x"))
ref = weakref.ref(e.get_attributes()["a"])
log = F.create_log()
t = F.create_trace()
t.append(e)
log.append(t)
quiet(s.serialize, log, io.StringIO())
del log, t, e
gc.collect()
assert ref() is None
'''),
]
