"""Messages reach whom they are meant for and never decide an outcome."""
import gzip
import io
import os
import sys
import threading

from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.log.XLogging import XLogging
from opyenxes.log.XStdoutLoggingListener import XStdOutLoggingListener

from rv import gen, snap

TECHNIQUE = ("runtime monitor: recording listeners and consoles of many encodings; deliveries compared with a model of the "
             "loggers, results under a poor console compared with those under a rich one")
RULE = ("histories of several loggers whose listeners are recorded, exchanged, removed, shared, nested and used from threads, and reads "
        "and writes that have something to report (unreadable dates, unknown extensions, damaged and foreign files, failed "
        "downloads) under consoles that can show less than the report; oracle: model of the deliveries, the outcome under a "
        "console that shows everything; non-trivial: a delivery to an exchanged listener, or a report a console cannot show")
ASSUMPTIONS = ["a listener of the user raises nothing", "a console accepts every text of its encoding"]
CASES = {"quick": 90000, "thorough": 1500000}
CONSOLES = ["ascii", "latin-1", "cp1252", "cp437", "none"]
REQUIRED = ["checks", "messages", "messages without importance", "silent messages", "repeated messages", "listeners exchanged", "consoles exchanged", "listeners removed",
            "shared listeners", "standard listeners", "nested messages", "messages of threads", "several loggers",
            "unreadable dates", "unknown extensions", "foreign files", "failed downloads", "writes", "reports shown",
            "reports that cannot be shown"] + ["console " + c for c in CONSOLES]


class Recorder:
    def __init__(self, seen, name):
        self.seen, self.name, self.nested = seen, name, None

    def log(self, message, importance):
        self.seen.append((self.name, message, importance))
        if self.nested is not None:
            nested, self.nested = self.nested, None
            nested()


class Collector(list, Recorder):
    """A listener that is false, being empty."""

    def __init__(self, seen, name):
        list.__init__(self)
        Recorder.__init__(self, seen, name)

    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


class Console(io.TextIOWrapper):
    def __init__(self, encoding):
        super().__init__(io.BytesIO(), encoding=encoding, errors="strict", newline="\n", write_through=True)

    def text(self):
        return self.buffer.getvalue().decode(self.encoding)


def under(console, function, *args):
    """Outcome of a call while the console is the standard output."""
    old = sys.stdout
    sys.stdout = console
    try:
        return "returned", function(*args)
    except Exception as error:
        return "raised", type(error).__name__
    finally:
        sys.stdout = old


def text_of(rng, serial=[0]):
    serial[0] += 1
    return "#%d#" % serial[0] + rng.choice(["", "message", "two\nlines", "{} %s {0}", "\u00e4\u20ac\u4e2d\U0001f600", "tab\t", "a" * 3000, "'\"\\",
                       gen.name_text(rng)])


def importance_of(rng):
    kinds = XLogging.Importance
    return rng.choice([None, None, kinds.DEBUG, kinds.INFO, kinds.WARNING, kinds.ERROR, "own importance", "Notice", "", 0])


def send(rng, logger, message, importance):
    if importance is None:
        if rng.random() < 0.5:
            logger.log(message)
        else:
            logger.log(message, None)
    else:
        rng.choice([lambda: logger.log(message, importance), lambda: logger.log(message, importance=importance)])()


def delivered(importance):
    return "DEBUG" if importance is None else importance


def histories(ctx, rng):
    kinds = XLogging.Importance
    ctx.same([kinds.DEBUG, kinds.INFO, kinds.WARNING, kinds.ERROR], ["DEBUG", "INFO", "WARNING", "ERROR"], "the importances")
    seen, expected, history = [], [], []
    screens, current = [(Console("utf-8"), []), (Console("utf-16"), [])], 0
    recorders = [rng.choice([Recorder, Recorder, Collector])(seen, n) for n in range(4)]
    loggers, listeners = [], []
    exchanged, last = False, text_of(rng)

    def model(n, message, importance):
        x = listeners[n]
        if x is None:
            ctx.count("silent messages")
        elif isinstance(x, Recorder):
            expected.append((x.name, message, delivered(importance)))
        else:
            ctx.count("standard listeners")
            screens[current][1].append((message, str(delivered(importance))))
    old = sys.stdout
    sys.stdout = screens[0][0]
    try:
        for _ in range(rng.randint(4, 20)):
            r = rng.random()
            if r < 0.2 or not loggers:
                loggers.append(XLogging())
                listeners.append("standard")
                history.append("create")
            n = rng.randrange(len(loggers))
            r = rng.random()
            if r < 0.06:
                current = 1 - current
                sys.stdout = screens[current][0]
                ctx.count("consoles exchanged")
                history.append(("console", current))
            elif r < 0.35:
                x = rng.choice(recorders + recorders + [None, "standard"])
                loggers[n].set_listener(XStdOutLoggingListener() if x == "standard" else x)
                listeners[n] = x
                exchanged = True
                ctx.count("listeners removed" if x is None else "listeners exchanged")
                ctx.count("shared listeners", isinstance(x, Recorder) and listeners.count(x) > 1)
                history.append(("listener", n, getattr(x, "name", x)))
            elif r < 0.42 and isinstance(listeners[n], Recorder):
                m, message, importance, outer = rng.randrange(len(loggers)), text_of(rng), importance_of(rng), text_of(rng)
                if m == n and rng.random() < 0.3:       # the listener exchanges itself while it is told something
                    x = rng.choice(recorders)
                    listeners[n].nested = lambda: loggers[n].set_listener(x)
                    loggers[n].log(outer)
                    model(n, outer, None)
                    listeners[n] = x
                else:
                    listeners[n].nested = lambda: loggers[m].log(message, importance)
                    loggers[n].log(outer)
                    model(n, outer, None)
                    model(m, message, importance)
                ctx.count("nested messages")
                ctx.count("messages", 2)
                history.append(("nested", n, m))
            else:
                message, importance = text_of(rng), importance_of(rng)
                if rng.random() < 0.2:
                    ctx.count("repeated messages")
                    message = last
                elif rng.random() < 0.3 and listeners[n] != "standard":
                    message = message.split("#", 2)[2]
                if message.startswith("#"):
                    last = message
                send(rng, loggers[n], message, importance)
                model(n, message, importance)
                ctx.count("messages")
                ctx.count("messages without importance", importance is None)
                history.append(("log", n, message[:40], importance))
            ctx.same(seen, expected, "the deliveries", history=history[-8:])
        if len(loggers) > 1:
            ctx.count("several loggers")
    finally:
        sys.stdout = old
    for console, shown in screens:
        check_shown(ctx, console.text(), shown, history)
    if exchanged and seen:
        ctx.distinct(repr(history))
    ctx.sample(history)


def check_shown(ctx, text, shown, history):
    ends, at = [], 0
    for message, importance in shown:       # each as often as it was logged, in turn, with its importance
        times = [m for m, _ in shown].count(message)
        ctx.check(text.count(message) == times, "a message is shown %d times instead of %d" % (text.count(message), times),
                  what=message, text=text, history=history)
        ctx.check(message in text[at:], "the messages are shown in another order", text=text, history=history)
        start = text.index(message, at)
        at = start + len(message)
        ends.append((start, at))
    for n, (message, importance) in enumerate(shown):
        around = text[ends[n - 1][1] if n else 0:ends[n][0]] + text[ends[n][1]:ends[n + 1][0] if n + 1 < len(ends) else len(text)]
        ctx.check(importance in around, "a message is shown without its importance", what=message, importance=importance, text=text)
    if not shown:
        ctx.check(text == "", "something is shown that nobody logged: %r" % text, history=history)


def threads(ctx, rng):
    """Messages of several threads, each delivered once, in the order of its thread."""
    seen = []
    own = rng.random() < 0.5
    shared, recorder = XLogging(), Recorder(seen, 0)
    shared.set_listener(recorder)

    def work(n):
        logger = shared
        if own:
            logger = XLogging()
            logger.set_listener(recorder)
        for k in range(40):
            logger.log("%d-%d" % (n, k), None if k % 2 else "INFO")
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        all_ = [threading.Thread(target=work, args=(n,)) for n in range(4)]
        for t in all_:
            t.start()
        for t in all_:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for n in range(4):
        ctx.same([(m, i) for _, m, i in seen if m.startswith("%d-" % n)], [("%d-%d" % (n, k), "DEBUG" if k % 2 else "INFO") for k in range(40)],
                 "the deliveries of thread %d" % n)
    ctx.same(len(seen), 160, "number of deliveries")
    ctx.count("messages of threads", 160)


WIDE = ["\u00e4", "\u20ac", "\u4e2d\u6587", "\U0001f600", "\u00e9t\u00e9", "\ufb01", "plain"]


def xml(text):
    return text.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def document(ctx, rng, word):
    """A document the reader has something to say about."""
    parts = []
    what = rng.choice(["dates", "extensions", "both"])
    if what != "dates":
        ctx.count("unknown extensions")
        parts.append('<extension name="%s" prefix="rv-%s" uri="%s"/>' % (
            word, word, rng.choice(["http://example.invalid/%s", "urn:%s", "%s", "http://example.invalid/?%s=1"]) % word))
    if rng.random() < 0.3:
        parts.append('<extension name="Concept" prefix="concept" uri="http://www.xes-standard.org/concept.xesext"/>')
    dates = ""
    if what != "extensions":
        ctx.count("unreadable dates")
        dates = '<date key="k" value="%s"/><date key="ok" value="2020-01-02T03:04:05.678Z"/>' % rng.choice(
            ["%s", "2020-01-02T%s", "2020-01-02 %s", "%s 2020"]).replace("%s", word)
    parts.append('<trace><string key="concept:name" value="%s"/>%s<event>%s<int key="n" value="3"/></event></trace>' % (word, dates, dates))
    return '<?xml version="1.0" encoding="utf-8"?><log>%s</log>' % "".join(parts)


def mxml(ctx, rng, word):
    ctx.count("unreadable dates")
    return ('<?xml version="1.0" encoding="utf-8"?><WorkflowLog><Source program="%s"/><Process id="p"><ProcessInstance id="%s"><AuditTrailEntry>'
            '<WorkflowModelElement>%s</WorkflowModelElement><EventType unknownType="%s">unknown</EventType><Timestamp>%s</Timestamp>'
            '</AuditTrailEntry></ProcessInstance></Process></WorkflowLog>' % (word, word, word, word, rng.choice(["%s", "2020-01-02T%s"]).replace("%s", word)))


def logs_of(logs):
    return [snap.log(x, ms=False) for x in logs]


def consoles(ctx, rng, i):
    word = "".join(rng.choice(WIDE) for _ in range(rng.randint(1, 3)))
    r = rng.random()
    reported = None
    if r < 0.45:
        data = document(ctx, rng, word)
        reported = word

        def run():
            return logs_of(XesXmlParser().parse(io.BytesIO(data.encode("utf-8"))))
    elif r < 0.6:
        data = mxml(ctx, rng, word)
        reported = word

        def run():
            return logs_of(XMxmlParser().parse(io.BytesIO(data.encode("utf-8"))))
    elif r < 0.8:
        ctx.count("foreign files")
        name = os.path.join(ctx.scratch, "f-%d-%s%s" % (i, word, rng.choice([".xes", ".mxml", ".xes.gz", ".mxml.gz", ".xml", ".xez"])))
        data = rng.choice([document, mxml])(ctx, rng, word)
        if rng.random() < 0.4:
            data = data.replace("log>", word + ">").replace("Log>", word + ">")
        data = data.encode("utf-8")
        if name.endswith("z") and rng.random() < 0.6:
            data = gzip.compress(data)
        if rng.random() < 0.3:
            data = data[:len(data) * 2 // 3]
        with open(name, "wb") as f:
            f.write(data)

        def run():
            with open(name, "rb") as f:
                return logs_of(XUniversalParser.parse(f))
    elif r < 0.9:
        ctx.count("failed downloads")
        folder = os.path.join(ctx.scratch, "home-%d" % i)
        os.makedirs(folder, exist_ok=True)
        uri = gen.uri(rng, rng.choice(["file:///nowhere/rv-%s", "http://127.0.0.1:9/%s", "http://127.0.0.1:9/%s/"]) % word)

        def run():
            old = {k: os.environ.get(k) for k in ("HOME", "USERPROFILE")}
            os.environ["HOME"] = folder
            os.environ.pop("USERPROFILE", None)
            try:
                return XExtensionManager.cache_extension(uri)
            finally:
                for k, v in old.items():
                    if v is not None:
                        os.environ[k] = v
                    else:
                        os.environ.pop(k, None)
    else:
        ctx.count("writes")
        log = XesXmlParser().parse(io.BytesIO(('<log><trace><string key="concept:name" value="%s"/><event/></trace></log>' % word).encode("utf-8")))[0]
        serializer = rng.choice([XesXmlSerializer, XMxmlSerializer])

        def run():
            out = io.BytesIO()
            serializer().serialize(log, out, True)
            return out.getvalue()
    rich = Console("utf-8")
    expected = under(rich, run)
    codec = rng.choice(CONSOLES)
    ctx.count("console " + codec)
    poor = None if codec == "none" else Console(codec)
    got = under(poor, run)
    if 0.8 <= r < 0.9:
        ctx.check(expected[0] == "returned", "a failed download raised %s" % expected[1], uri=uri.geturl())
    ctx.same(got, expected, "the outcome under a console of encoding %s" % codec, report=rich.text(), got=repr(got)[:300])
    if reported is not None:
        ctx.check(reported in rich.text(), "what could not be read is not reported", report=rich.text(), what=reported)
        ctx.count("reports shown")
    try:
        rich.text().encode(codec if poor is not None else "ascii")
    except UnicodeEncodeError:
        ctx.count("reports that cannot be shown")
        ctx.distinct("%s %s" % (codec, rich.text()))
        if poor is not None:
            ctx.check(poor.text().strip() != "", "a report is lost under a console of encoding %s" % codec, report=rich.text())
    else:
        if poor is not None and reported is not None:
            ctx.check(reported in poor.text(), "what could not be read is not reported", report=poor.text(), what=reported)


def case(ctx, rng, i):
    if i % 3 == 0:
        consoles(ctx, rng, i)
    elif i % 25 == 1:
        threads(ctx, rng)
    else:
        histories(ctx, rng)
