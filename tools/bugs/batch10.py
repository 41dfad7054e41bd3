"""Planted bugs, tenth batch: the log package and other places hit by few (see tools/seed.py)."""
import os
import runpy

_one = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))
bug = _one["bug"]

RECORD = '''
from opyenxes.log.XLogging import XLogging
seen = []
class R:
    def log(self, message, importance):
        seen.append((message, importance))
'''

BUGS = [
    bug("c27-listener-shared", "C27", "two loggers, one of which is given a listener",
        "the listener is kept for all loggers",
        [("log/XLogging.py", "        self.__listener = XStdOutLoggingListener()\n", "        if XLogging.__listener is None:\n            XLogging.__listener = XStdOutLoggingListener()\n"),
         ("log/XLogging.py", "    def __init__(self):", "    __listener = None\n\n    def __init__(self):"),
         ("log/XLogging.py", "        self.__listener = listener\n", "        XLogging.__listener = listener\n")],
        RECORD + '''
a, b = XLogging(), XLogging()
a.set_listener(R())
quiet(b.log, "x")
assert seen == []
'''),
    bug("c27-falsy-listener", "C27", "a listener that is an empty container",
        "a listener that is false gets nothing",
        [("log/XLogging.py", "        elif self.__listener is not None:", "        elif self.__listener:")],
        '''
from opyenxes.log.XLogging import XLogging
class R(list):
    def log(self, message, importance):
        self.append((message, importance))
r, x = R(), XLogging()
x.set_listener(r)
x.log("a")
assert r == [("a", "DEBUG")]
'''),
    bug("c27-empty-importance", "C27", "an importance that is an empty text",
        "an importance that is false becomes DEBUG",
        [("log/XLogging.py", "        if importance is None:", "        if not importance:")],
        RECORD + '''
x = XLogging()
x.set_listener(R())
x.log("a", "")
assert seen == [("a", "")]
'''),
    bug("c27-repeated-once", "C27", "the same message logged twice in a row",
        "a message that repeats the last one of the logger is left out",
        [("log/XLogging.py", "            self.__listener.log(message, importance)", '''            if getattr(self, "last", None) != (message, importance):
                self.last = (message, importance)
                self.__listener.log(message, importance)''')],
        RECORD + '''
x = XLogging()
x.set_listener(R())
x.log("a")
x.log("a")
assert len(seen) == 2
'''),
    bug("c27-message-format", "C27", "a message with braces, printed",
        "the message is taken for a part of the format",
        [("log/XStdoutLoggingListener.py", 'show("Importance: {}\\nMessage: {}\\n".format(importance, message))', 'print(("Importance: {}\\nMessage: " + str(message) + "\\n").format(importance))')],
        '''
from opyenxes.log.XLogging import XLogging
XLogging().log("a {0} {1}")
'''),
    bug("c27-nested-lost", "C27", "a listener that logs something itself",
        "messages logged while a message is delivered are dropped",
        [("log/XLogging.py", "            self.__listener.log(message, importance)", '''            if not getattr(self, "busy", False):
                self.busy = True
                try:
                    self.__listener.log(message, importance)
                finally:
                    self.busy = False''')],
        '''
from opyenxes.log.XLogging import XLogging
seen, x = [], XLogging()
class R:
    def log(self, message, importance):
        seen.append(message)
        if message == "a":
            x.log("b")
x.set_listener(R())
x.log("a")
assert seen == ["a", "b"]
'''),
    bug("c27-stdout-at-import", "C27", "a program whose standard output is exchanged after the library was loaded",
        "messages go to the standard output of the time the library was loaded",
        [("log/XStdoutLoggingListener.py", "class XStdOutLoggingListener:\n", "class XStdOutLoggingListener:\n"),
         ("log/XLogging.py", "        self.__listener = XStdOutLoggingListener()\n", "        import sys\n        self.__listener = XStdOutLoggingListener()\n        self.__stream = sys.stdout\n"),
         ("log/XLogging.py", "            self.__listener.log(message, importance)", '''            import contextlib
            with contextlib.redirect_stdout(self.__stream):
                self.__listener.log(message, importance)''')],
        '''
from opyenxes.log.XLogging import XLogging
x = XLogging()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    x.log("a")
assert "a" in out.getvalue()
'''),
    bug("c27-no-console", "C27", "a process without standard output",
        "unreadable dates are written to the standard output directly",
        [("data_out/XesXmlSerializer.py", '        XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)', '        XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)\n        __import__("sys").stdout.flush()'),
         ("data_out/XesXmlSerializer.py", '        XLogging().log("Start serializing log to XES.XML", XLogging.Importance.DEBUG)\n', '        XLogging().log("Start serializing log", XLogging.Importance.DEBUG)\n')],
        '''
log = log_of([[]])
old, sys.stdout = sys.stdout, None
try:
    XesXmlSerializer().serialize(log, io.StringIO())
finally:
    sys.stdout = old
'''),
    bug("c27-importance-upper", "C27", "an importance of the user's own",
        "importances are delivered in upper case",
        [("log/XLogging.py", "            self.__listener.log(message, importance)", "            self.__listener.log(message, str(importance).upper())")],
        RECORD + '''
x = XLogging()
x.set_listener(R())
x.log("a", "Notice")
assert seen == [("a", "Notice")]
'''),
]
BUGS = [b for b in BUGS if b["demo"] != _one["PRE"]]
