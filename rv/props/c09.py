"""Reads, writes, copies and summaries do not influence each other."""
import gzip
import io
import os
import random

from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.info.XLogInfo import XLogInfo

from rv import gen, mutate, sched, snap, xesdoc
from rv.base import Violation
from rv.props import c07

TECHNIQUE = ("runtime monitor comparing every operation of sequential, re-entrant and concurrent histories (seeded baton "
             "scheduler and free threads) with its solo result")
RULE = ("random sets of operations (reads of XES and MXML documents in plain, chunked and compressed form, writes in both "
        "formats, clones, summaries, damaged reads) run alone, then in sequence, re-entrantly (an operation started from "
        "within another one's stream) and in threads (seeded baton scheduler switching at lines of the library, and free "
        "threads) with shared and fresh readers and writers; oracle: solo result, abstract document; then every log is "
        "edited heavily and the others, the extension definitions and later reads compared; non-trivial: history of at "
        "least two operations")
ASSUMPTIONS = ["threads work on different logs; readers and writers may be shared"]
CASES = {"quick": 1540, "thorough": 16000}
REQUIRED = ["checks", "sequential histories", "re-entrant histories", "baton histories", "free histories", "operations",
            "nested operations", "switches", "edited logs", "kind read xes", "kind read mxml", "kind write xes",
            "kind write mxml", "kind clone", "kind summary", "kind damaged"]

SHARED = {"xes": XesXmlParser, "mxml": XMxmlParser, "xesgz": XesXmlGZIPParser, "mxmlgz": XMxmlGZIPParser,
          "xeso": XesXmlSerializer, "mxmlo": XMxmlSerializer, "xesgzo": XesXmlGZIPSerializer,
          "mxmlgzo": XMxmlGZIPSerializer}


def setup(ctx):
    gen.register_custom()
    ctx.state["shared"] = {k: cls() for k, cls in SHARED.items()}
    ctx.state["files"] = 0


class Hooked(io.RawIOBase):
    """A source or target that calls back at every piece of data."""

    def __init__(self, data, hook, size):
        super().__init__()
        self.data, self.pos, self.hook, self.size, self.out = data, 0, hook, size, []

    def readable(self):
        return self.data is not None

    def writable(self):
        return self.data is None

    def readinto(self, b):
        if len(b) == 0:
            return 0
        self.hook()
        n = min(len(b), len(self.data) - self.pos, self.size)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        self.hook()
        self.out.append(bytes(b) if not isinstance(b, str) else b.encode("utf-8"))
        return len(b)


def result_of(log):
    return snap.log(log, ms=False, ext=True, maps=True, features=True)


def summary(info):
    out = {"traces": info.get_number_of_traces(), "events": info.get_number_of_event()}
    for name, classes in (("default", info.get_event_classes()), ("name", info.get_name_classes()),
                          ("resource", info.get_resource_classes()), ("transition", info.get_transition_classes())):
        out[name] = sorted((c.get_id(), c.size(), c.get_index()) for c in classes.get_classes())
    out["bounds"] = str(info.get_log_time_boundaries())
    for name, a in (("la", info.get_log_attribute_info()), ("ta", info.get_trace_attribute_info()),
                    ("ea", info.get_event_attribute_info()), ("ma", info.get_meta_attribute_info())):
        out[name] = sorted((k, a.get_frequency(k)) for k in a.get_attribute_keys())
    return out


class Op:
    """An operation with its own input. run() gives a plain result."""

    def __init__(self, kind, n, data=None, log=None):
        self.kind, self.n, self.data, self.log = kind, n, data, log
        self.logs = []

    def run(self, tools, folder, hook=None, size=1 << 20):
        kind = self.kind
        if kind.startswith(("read", "damaged")):
            fmt = "mxml" if "mxml" in kind else "xes"
            if kind.endswith("gz"):
                path = os.path.join(folder, "in%d.%s.gz" % (self.n, fmt))
                if not os.path.exists(path):
                    with open(path, "wb") as f:
                        f.write(gzip.compress(self.data))
                handle = open(path, "rb")
                reader = tools(fmt + "gz") if self.n % 3 else XUniversalParser()
            else:
                handle = Hooked(self.data, hook, size) if hook else io.BytesIO(self.data)
                reader = tools(fmt)
            try:
                logs = reader.parse(handle)
            except Violation:
                raise
            except Exception as error:
                if kind.startswith("damaged"):
                    return "refused"
                raise error
            finally:
                handle.close()
            self.logs = logs
            return [result_of(x) for x in logs]
        if kind.startswith("write"):
            fmt = "mxml" if "mxml" in kind else "xes"
            if kind.endswith("gz"):
                path = os.path.join(folder, "out%d.%s.gz" % (self.n, fmt))
                tools(fmt + "gzo").serialize(self.log, open(path, "wb"))
                with gzip.open(path) as f:
                    return f.read()
            out = Hooked(None, hook or (lambda: None), 0)
            tools(fmt + "o").serialize(self.log, out, True)
            return b"".join(out.out)
        if kind == "clone":
            clone = self.log.clone()
            self.logs = [clone]
            return result_of(clone)
        return summary(XLogInfo.create(self.log))


def make(ctx, rng, n, share):
    """An operation and, for reads, what its document denotes. Inputs repeat now and then."""
    kind = rng.choice(["read xes", "read xes", "read mxml", "read mxml", "write xes", "write mxml", "clone", "summary",
                       "damaged", "read xes gz", "read mxml gz", "write xes gz", "write mxml gz"])
    ctx.count("kind " + kind)
    if share and rng.random() < 0.2:
        old = rng.choice(share)
        if old[0].data is not None and not old[0].kind.startswith("damaged"):
            return Op(old[0].kind, n, old[0].data), old[1]
    g = gen.Gen(rng, std_typed=True, nasty=rng.choice([0, 0.1, 0.3]), finite=True, dates=rng.choice(["naive", "utc"]))
    spec = g.log(rng.choice(["tiny", "small"]))
    if kind.startswith("read xes"):
        data, _ = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        return Op(kind, n, data), [gen.canon_log(spec, ms=False, features=True)]
    if kind.startswith("read mxml"):
        (data, _), expected = c07.Maker(ctx, rng).document()
        if len(data) == 0 or not expected and kind.endswith("gz"):
            return make(ctx, rng, n, share)
        return Op(kind, n, data), expected
    if kind == "damaged":
        out = io.BytesIO()
        fmt = rng.choice(["xes", "mxml"])
        (XesXmlSerializer if fmt == "xes" else XMxmlSerializer)().serialize(gen.build_log(spec), out, True)
        data = out.getvalue().rstrip()
        return Op("damaged " + fmt, n, data[:rng.randint(0, len(data) - 2)]), None
    return Op(kind, n, log=gen.build_log(spec)), None


def case(ctx, rng, i):
    ops = []
    for n in range(rng.choice([2, 3, 3, 4, 5])):
        ops.append(make(ctx, rng, n, ops))
    folder = ctx.scratch
    for name in os.listdir(folder):
        if name.startswith(("in", "out")):
            os.remove(os.path.join(folder, name))
    definitions = snap.definitions()
    fresh = lambda key: SHARED[key]()                                  # noqa: E731
    shared = ctx.state["shared"]
    before = [result_of(op.log) if op.log is not None else None for op, _ in ops]
    solo = []
    for op, expected in ops:
        got = op.run(fresh, folder)
        if op.kind.startswith("read mxml"):
            ctx.same([c07.observed(x) for x in op.logs], expected, "an MXML document read alone", document=op.data)
        elif op.kind.startswith("read xes"):
            ctx.same([snap.log(x, ms=False, features=True) for x in op.logs], expected, "an XES document read alone",
                     document=op.data)
        solo.append(got)
        ctx.distinct(repr((op.kind, op.data if op.data is not None else solo[-1])))
    mode = ["sequential", "re-entrant", "baton", "free"][i // 8 % 4]
    ctx.count(mode + " histories")
    pick = rng.random()

    def tools(key, own=random.Random(rng.random())):
        return shared[key] if pick < 0.3 or (pick < 0.7 and own.random() < 0.5) else SHARED[key]()
    kept = []
    for round_number in range(2 if mode in ("baton", "free") else 3):
        order = list(range(len(ops)))
        rng.shuffle(order)
        ctx.count("operations", len(ops))
        results = {}
        if mode == "sequential":
            for n in order:
                results[n] = ops[n][0].run(tools, folder)
        elif mode == "re-entrant":
            reentrant(ctx, rng, ops, order, tools, folder, results)
        else:
            functions = [lambda n=n: ops[n][0].run(tools, folder, size=97) for n in order]
            if mode == "baton":
                baton = sched.Baton(rng.random(), rng.choice([0.005, 0.02, 0.1, 0.3]))
                done = baton.run(functions)
                ctx.count("switches", baton.switches)
                ctx.count("steals", baton.steals)
                ctx.distinct("schedule %d" % baton.trail)
            else:
                done = sched.free(functions)
            for n, (ok, value) in zip(order, done):
                if not ok:
                    ctx.fail("an operation fails when run concurrently: %r" % value, operation=ops[n][0].kind,
                             others=[op.kind for op, _ in ops], mode=mode)
                results[n] = value
        for n in order:
            ctx.same(results[n], solo[n], "%s differs from its solo run (%s)" % (ops[n][0].kind, mode),
                     operations=[op.kind for op, _ in ops], document=ops[n][0].data)
        kept.extend((ops[n][0].kind, list(ops[n][0].logs)) for n in order if ops[n][0].logs)
    for (op, _), old in zip(ops, before):
        if old is not None:
            ctx.same(result_of(op.log), old, "an operation changed its own or another log")
    ctx.same(snap.definitions(), definitions, "extension definitions after the history")
    edits(ctx, rng, ops, kept, solo, definitions, tools, folder)
    ctx.sample({"mode": mode, "operations": [op.kind for op, _ in ops]})


def reentrant(ctx, rng, ops, order, tools, folder, results):
    """Starts the remaining operations from within the streams of the running ones."""
    waiting = list(order)
    chance = rng.choice([0.05, 0.3, 1.0])
    size = rng.choice([16, 97, 500])

    def hook():
        if waiting and rng.random() < chance:
            n = waiting.pop(0)
            ctx.count("nested operations")
            results[n] = ops[n][0].run(tools, folder, hook, size)
    while waiting:
        n = waiting.pop(0)
        results[n] = ops[n][0].run(tools, folder, hook, size)


def edits(ctx, rng, ops, kept, solo, definitions, tools, folder):
    """Edits every log that was read or cloned; the others must not notice."""
    rng.shuffle(kept)                         # the logs of one read stay together
    kinds = [kind for kind, _ in kept]
    kept = [logs for _, logs in kept]
    snaps = [[result_of(x) for x in logs] for logs in kept]
    inputs = [op.log for op, _ in ops if op.log is not None]
    input_snaps = [result_of(x) for x in inputs]
    for j, logs in enumerate(kept[:6]):
        for x in logs:
            if kinds[j].startswith("read xes"):
                for c in x.get_classifiers():
                    ctx.count("edited classifiers")
                    c.set_name(c.name() + "+")
                    if isinstance(c.get_defining_attribute_keys(), list):
                        c.get_defining_attribute_keys().append("added")
            mutate.log(rng, x)
            ctx.count("edited logs")
        for k, others in enumerate(kept):
            if k > j:
                ctx.same([result_of(other) for other in others], snaps[k],
                         "an edit of one log is visible in another log")
        ctx.same([result_of(y) for y in inputs], input_snaps, "an edit of a clone or of a log that was read is visible "
                                                              "in another log")
    ctx.same(snap.definitions(), definitions, "extension definitions after edits of logs")
    for n, (op, _) in enumerate(ops):
        if op.data is not None:
            ctx.same(op.run(tools, folder), solo[n], "reading again after edits of the earlier log",
                     document=op.data)
