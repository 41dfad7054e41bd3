"""Extension lookups are consistent under any registration history."""
import io
from urllib.parse import urlparse, urlsplit
from xml.sax.saxutils import quoteattr

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory

from rv import fork, gen, sched

TECHNIQUE = "runtime monitor: registrations and lookups on the process-wide manager compared with a reference registry"
RULE = ("one growing registration history per process: new URIs, colliding names and prefixes, repeated and changed definitions of "
        "a URI, re-registered standard URIs, interleaved with lookups of known and unknown keys and with documents that declare "
        "and use the extensions, and trials in forked processes whose 2-4 threads register their own and shared URIs under a seeded "
        "thread scheduler; oracle: reference list and map of extension objects; non-trivial: case with a registration")
ASSUMPTIONS = ["URIs are results of urllib.parse.urlparse or urlsplit"]
STATEFUL = True
CASES = {"quick": 7000, "thorough": 120000}
REQUIRED = ["checks", "new URIs", "same URI again", "changed definition", "standard URI again", "shared names", "shared prefixes",
            "lookups by uri", "lookups by name", "lookups by prefix", "lookups by index", "index lookups", "not found",
            "documents", "attributes of documents", "declarations by uri", "declarations by prefix", "round trips",
            "declared with the prefix of another", "unhashable or foreign arguments", "registered while reading", "split URIs",
            "thread trials", "registered by several threads", "thread switches"]

STANDARD = [XConceptExtension, XCostExtension, XIdentityExtension, XLifecycleExtension, XMicroExtension,
            XOrganizationalExtension, XSemanticExtension, XTimeExtension]


class Model:
    def __init__(self):
        self.uris = []       # in index order
        self.first = {}
        self.latest = {}
        self.all = []

    def register(self, e):
        uri = e.get_uri().geturl()
        self.all.append(e)
        if uri not in self.first:
            self.uris.append(uri)
            self.first[uri] = e
        self.latest[uri] = e

    def by(self, getter, value):
        for uri in self.uris:
            if getter(self.latest[uri]) == value:
                return self.latest[uri]
        return None


def setup(ctx):
    model = Model()
    manager = XExtensionManager()
    for cls in STANDARD:
        e = cls()
        ctx.check(manager.get_by_uri(e.get_uri()) is e, "a standard extension is not known", extension=str(e))
    n = 0
    while manager.get_by_index(n) is not None:
        model.register(manager.get_by_index(n))
        n += 1
    ctx.same(sorted(model.uris), sorted(u for _, u in gen.STD.values()), "the extensions known at first")
    for prefix, (name, uri) in gen.STD.items():
        e = manager.get_by_uri(urlparse(uri))
        ctx.same((e.get_name(), e.get_prefix()), (name, prefix), "a standard extension")
    ctx.state["model"] = model
    ctx.state["n"] = 0


def label(e):
    return None if e is None else "%s/%s/%s@%x" % (e.get_name(), e.get_prefix(), e.get_uri().geturl(), id(e))


def is_same(ctx, actual, expected, what, **detail):
    ctx.check(actual is expected, "%s: got %s, expected %s" % (what, label(actual) if isinstance(actual, (XExtension, type(None)))
                                                               else repr(actual), label(expected)), **detail)


def own_uri(ctx, rng, text):
    made = gen.uri(rng, text)
    ctx.count("split URIs", not isinstance(made, type(urlparse(""))))
    return made


def new_extension(ctx, rng, model, i):
    """An extension to register, and whether its names are those of the first one of its URI."""
    ctx.state["n"] += 1
    n = "%d-%d" % (i, ctx.state["n"])
    r = rng.random()
    name, prefix = "Ext %s" % n, "p%s" % n
    if r < 0.35 and model.all:
        old = rng.choice(model.all[-40:])
        if rng.random() < 0.1:
            old = model.all[rng.randrange(8)]
        if rng.random() < 0.05:
            return old
        uri = old.get_uri()
        if rng.random() < 0.6:
            first = model.first[uri.geturl()]
            name, prefix = first.get_name(), first.get_prefix()
        return XExtension(name, prefix, own_uri(ctx, rng, uri.geturl()))
    if rng.random() < 0.4 and model.all:
        name = rng.choice(model.all[-40:] + model.all[:8]).get_name()
    if rng.random() < 0.4 and model.all:
        prefix = rng.choice(model.all[-40:] + model.all[:8]).get_prefix()
    if rng.random() < 0.1:
        name, prefix = rng.choice([("", ""), (name.upper(), prefix.upper()), ("\u00c4 \u4e2d", "\u00e4\u4e2d"), (name, " " + prefix)])
    base = rng.choice(["http://example.org/%s.xesext", "http://example.org/%s.xesext/", "HTTP://example.org/%s", "urn:x:%s",
                       "http://example.org/a?x=%s", "http://example.org/a#%s", "file:///tmp/%s.xesext", "%s", "http://www.xes-standard.org/concept.xesext#%s",
                       "http://example.org/;%s", "http://ex\u00e4mple.org/%s"])
    return XExtension(name, prefix, own_uri(ctx, rng, base % n))


def register(ctx, rng, model, manager, i, history):
    e = new_extension(ctx, rng, model, i)
    uri = e.get_uri().geturl()
    if uri in model.first:
        ctx.count("same URI again")
        first = model.first[uri]
        if (first.get_name(), first.get_prefix()) != (e.get_name(), e.get_prefix()):
            ctx.count("changed definition")
        if uri in {u for _, u in gen.STD.values()}:
            ctx.count("standard URI again")
    else:
        ctx.count("new URIs")
        if model.by(XExtension.get_name, e.get_name()) is not None:
            ctx.count("shared names")
        if model.by(XExtension.get_prefix, e.get_prefix()) is not None:
            ctx.count("shared prefixes")
    manager.register(e)
    model.register(e)
    history.append(("register", label(e)))
    check_one(ctx, model, manager, uri, history)


def check_one(ctx, model, manager, uri, history):
    """Every way to find the extensions of one URI."""
    detail = {"history": history[-6:]}
    first, latest = model.first[uri], model.latest[uri]
    ctx.count("lookups by uri")
    is_same(ctx, manager.get_by_uri(urlparse(uri)), latest, "lookup by URI", uri=uri, **detail)
    is_same(ctx, manager.get_by_uri(urlsplit(uri)), latest, "lookup by split URI", uri=uri, **detail)
    index = model.uris.index(uri)
    for e in (first, latest, XExtension("another", "object", urlparse(uri)),
              XExtension("another", "object", urlsplit(uri))):
        ctx.count("index lookups")
        ctx.same(manager.get_index(e), index, "index of an extension", uri=uri, **detail)
    ctx.count("lookups by index")
    is_same(ctx, manager.get_by_index(index), latest, "lookup by index", uri=uri, **detail)
    for name in {first.get_name(), latest.get_name()}:
        ctx.count("lookups by name")
        is_same(ctx, manager.get_by_name(name), model.by(XExtension.get_name, name), "lookup by name %r" % name, **detail)
    for prefix in {first.get_prefix(), latest.get_prefix()}:
        ctx.count("lookups by prefix")
        is_same(ctx, manager.get_by_prefix(prefix), model.by(XExtension.get_prefix, prefix), "lookup by prefix %r" % prefix, **detail)


def not_found(ctx, rng, model, manager, history):
    n = len(model.uris)
    ctx.count("not found")
    detail = {"history": history[-6:]}
    for index in (n, n + 1, -1, -n, 10**20, -10**20):
        is_same(ctx, manager.get_by_index(index), None, "index %d of %d" % (index, n), **detail)
    missing = "http://example.org/never/%d" % rng.getrandbits(60)
    is_same(ctx, manager.get_by_uri(urlparse(missing)), None, "an unknown URI", **detail)
    is_same(ctx, manager.get_by_uri(urlsplit(missing)), None, "an unknown split URI", **detail)
    is_same(ctx, manager.get_by_name("no name %d" % rng.getrandbits(60)), None, "an unknown name", **detail)
    is_same(ctx, manager.get_by_prefix("no prefix %d" % rng.getrandbits(60)), None, "an unknown prefix", **detail)
    known = rng.choice(model.all[-30:] + model.all[:8])
    stranger = XExtension(known.get_name(), known.get_prefix(), urlparse(missing))
    ctx.same(manager.get_index(stranger), -1, "index of an unregistered extension with a known name", **detail)
    for value in (known.get_name() + "\u0001", known.get_prefix() + ":"):
        if model.by(XExtension.get_name, value) is None:
            is_same(ctx, manager.get_by_name(value), None, "an unknown name %r" % value, **detail)
        if model.by(XExtension.get_prefix, value) is None:
            is_same(ctx, manager.get_by_prefix(value), None, "an unknown prefix %r" % value, **detail)
    ctx.count("unhashable or foreign arguments")
    ctx.same(manager.get_index(None), -1, "index of nothing", **detail)
    is_same(ctx, manager.get_by_name(None), None, "no name", **detail)
    is_same(ctx, manager.get_by_prefix(None), None, "no prefix", **detail)
    is_same(ctx, manager.get_by_uri(None), None, "no URI", **detail)


def documents(ctx, rng, model, manager, history):
    """A document that declares and uses some extensions is read by the current registrations."""
    ctx.count("documents")
    pool = model.all[-12:] + rng.sample(model.all, min(4, len(model.all)))
    body, declared, keys = [], [], []
    for e in rng.sample(pool, rng.randint(0, min(5, len(pool)))):
        style = rng.choice(["both", "both", "uri", "prefix", "foreign prefix"])
        uri, prefix = e.get_uri().geturl(), e.get_prefix()
        if style == "foreign prefix":
            prefix = rng.choice(model.all[:8] + [XExtension("", "nobody knows", None)]).get_prefix()
        attributes = ' name=%s' % quoteattr(e.get_name())
        if style != "prefix":
            ctx.count("declarations by uri")
            attributes += " uri=" + quoteattr(uri)
            expected = model.latest[uri]
            if model.by(XExtension.get_prefix, prefix) is not model.latest[uri] and style != "uri":
                ctx.count("declared with the prefix of another")
        else:
            ctx.count("declarations by prefix")
            expected = model.by(XExtension.get_prefix, prefix)
        if style != "uri":
            attributes += " prefix=" + quoteattr(prefix)
        body.append("<extension%s/>" % attributes)
        if expected is not None:
            declared.append(expected)
    for e in rng.sample(pool, rng.randint(0, min(6, len(pool)))):
        keys.append(e.get_prefix() + ":" + rng.choice(["a", "b", "name", "x:y"]))
    for k in ("unknown%d:a" % rng.getrandbits(40), "concept", "plain"):
        if rng.random() < 0.3:
            keys.append(k)
    keys = list(dict.fromkeys(keys))
    rng.shuffle(keys)
    where = rng.choice(["log", "event", "nested", "global"])
    tags = [(rng.choice(["string", "list", "container", "string"]), k) for k in keys]
    attrs = "".join("<%s key=%s%s" % (t, quoteattr(k), " value='v'/>" if t == "string" else "/>") for t, k in tags)
    if where == "log":
        text = attrs
    elif where == "event":
        text = "<trace><event>%s</event></trace>" % attrs
    elif where == "nested":
        text = "<string key='k' value=''>%s</string>" % attrs
    else:
        text = "<global scope='event'>%s</global>" % attrs
    text = "<log>%s%s</log>" % ("".join(body), text)
    log = XesXmlParser().parse(io.BytesIO(text.encode()))[0]
    if where == "log":
        attributes = log.get_attributes()
    elif where == "event":
        attributes = log[0][0].get_attributes()
    elif where == "nested":
        attributes = log.get_attributes()["k"].get_attributes()
    else:
        attributes = {a.get_key(): a for a in log.get_global_event_attributes()}
    detail = {"history": history[-6:], "document": text}
    ctx.same(list(attributes), keys, "keys", **detail)
    for k in keys:
        ctx.count("attributes of documents")
        expected = model.by(XExtension.get_prefix, k[:k.index(":")]) if ":" in k else None
        is_same(ctx, attributes[k].get_extension(), expected, "the extension of %r" % k, **detail)
    got = log.get_extensions()
    expected = {e.get_uri().geturl() for e in declared}
    ctx.same(sorted(e.get_uri().geturl() for e in got), sorted(expected), "the declared extensions", **detail)
    history.append(("document", where, keys))


def round_trip(ctx, rng, model, history):
    """Extensions of a log survive writing and reading although others share their names and prefixes."""
    ctx.count("round trips")
    log = XFactory.create_log()
    pool = [model.latest[u] for u in dict.fromkeys(model.uris[-20:] + model.uris[:8])]
    chosen = rng.sample(pool, rng.randint(0, 6))
    log.get_extensions().update(chosen)
    out = io.BytesIO()
    XesXmlSerializer().serialize(log, out, True)
    again = XesXmlParser().parse(io.BytesIO(out.getvalue()))[0]
    ctx.same(sorted(e.get_uri().geturl() for e in again.get_extensions()), sorted(e.get_uri().geturl() for e in chosen),
             "the extensions after a round trip", history=history[-6:], document=out.getvalue())
    for e in again.get_extensions():
        is_same(ctx, e, model.latest[e.get_uri().geturl()], "the extension object after a round trip")


class Registering(io.BytesIO):
    """A document during whose reading an extension is registered."""

    def __init__(self, data, action):
        super().__init__(data)
        self.action = action

    def read(self, n=-1):
        if self.action is not None and self.tell() > 0:
            self.action()
            self.action = None
        return super().read(min(n, 20) if n >= 0 else n)


def while_reading(ctx, rng, model, manager, i, history):
    ctx.count("registered while reading")
    log_text = "<log>" + "<string key='plain' value='x'/>" * 5 + "</log>"
    XesXmlParser().parse(Registering(log_text.encode(), lambda: register(ctx, rng, model, manager, i, history)))


def threads(ctx, rng, i):
    """Registrations of several threads at once, in a process of their own."""
    ctx.count("thread trials")
    n = rng.choice([2, 2, 3, 4])
    shared = ["http://example.org/shared/%d-%d" % (i, k) for k in range(rng.randint(1, 3))]
    plan = []
    for t in range(n):
        uris = [rng.choice(shared) if rng.random() < 0.6 else "http://example.org/own/%d-%d-%d" % (i, t, k)
                for k in range(rng.randint(1, 4))]
        plan.append([(u, rng.choice(["Name %d" % rng.randrange(3), u]), rng.choice(["p%d" % rng.randrange(3), u])) for u in uris])
    mode = rng.choice(["line", "line", "bytecode", "free"])
    seed, chance = rng.getrandbits(30), rng.choice([0.05, 0.15, 0.4])
    if len(set(u for t in plan for u, _, _ in t)) < sum(len(set(u for u, _, _ in t)) for t in plan):
        ctx.count("registered by several threads")
    fork.trial(ctx, lambda c: run_threads(c, plan, mode, seed, chance))


def run_threads(ctx, plan, mode, seed, chance):
    model, manager = ctx.state["model"], XExtensionManager()
    n = len(model.uris)
    detail = {"plan": plan, "mode": mode, "seed": seed, "chance": chance}

    def body(todo):
        made, odd = [], []
        for uri, name, prefix in todo:
            e = XExtension(name, prefix, urlparse(uri))
            manager.register(e)
            made.append(e)
            index = manager.get_index(e)
            if index < n or manager.get_by_index(index) != e or manager.get_by_uri(e.get_uri()) != e:
                odd.append("%s: index %r, by index %s, by URI %s" % (uri, index, label(manager.get_by_index(index)),
                                                                     label(manager.get_by_uri(e.get_uri()))))
            if "/own/" in uri and (manager.get_by_name(name) is None or manager.get_by_prefix(prefix) is None):
                odd.append("%s: name %r or prefix %r unknown" % (uri, name, prefix))
        return made, odd

    jobs = [lambda t=t: body(t) for t in plan]
    try:
        if mode == "free":
            results = sched.free(jobs)
        else:
            baton = sched.Baton(seed, chance, opcodes=mode == "bytecode")
            results = baton.run(jobs)
            ctx.count("thread switches", baton.switches)
            ctx.distinct("%s %s" % (plan, baton.trail))
    except sched.Stuck as error:
        ctx.fail("threads that register extensions never finish: %s" % error, **detail)
    made = {}
    for ok, got in results:
        ctx.check(ok, "a registration in a thread failed: %r" % (got,), **detail)
        ctx.same(got[1], [], "lookups right after a registration", **detail)
        for e in got[0]:
            made.setdefault(e.get_uri().geturl(), []).append(e)
    found = []
    while manager.get_by_index(len(found)) is not None and len(found) <= n + 50:
        found.append(manager.get_by_index(len(found)))
    uris = [e.get_uri().geturl() for e in found]
    ctx.same(uris[:n], model.uris, "the URIs registered before", **detail)
    ctx.same(sorted(uris[n:]), sorted(made), "the URIs registered by the threads", **detail)
    for index, e in enumerate(found[n:], n):
        uri = e.get_uri().geturl()
        ctx.check(any(e is x for x in made[uri]), "an index leads to an object nobody registered", uri=uri, **detail)
        is_same(ctx, manager.get_by_uri(urlparse(uri)), e, "lookup by URI and by index", uri=uri, **detail)
        ctx.same(manager.get_index(e), index, "index of an extension", uri=uri, **detail)
        for getter, lookup in ((XExtension.get_name, manager.get_by_name), (XExtension.get_prefix, manager.get_by_prefix)):
            first = next(x for x in found if getter(x) == getter(e))
            is_same(ctx, lookup(getter(e)), first, "lookup by name or prefix", uri=uri, **detail)


def case(ctx, rng, i):
    if i % 15 == 7:
        threads(ctx, rng, i)
        return
    model = ctx.state["model"]
    manager = XExtensionManager()
    history = []
    registered = 0
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < 0.5:
            register(ctx, rng, model, manager, i, history)
            registered += 1
        elif r < 0.65:
            uri = rng.choice(model.uris[-30:] + model.uris[:8])
            check_one(ctx, model, manager, uri, history)
        elif r < 0.75:
            not_found(ctx, rng, model, manager, history)
        elif r < 0.9:
            documents(ctx, rng, model, manager, history)
        elif r < 0.95:
            round_trip(ctx, rng, model, history)
        elif r < 0.98:
            while_reading(ctx, rng, model, manager, i, history)
            registered += 1
        else:
            manager.register_standard_extensions()
            for cls in STANDARD:
                model.register(cls())
                check_one(ctx, model, manager, cls().get_uri().geturl(), history)
            history.append("register the standard extensions")
    if i % 10 == 0:
        everything(ctx, model, manager, history)
    if registered:
        ctx.distinct(repr(history))
    ctx.sample(history[:5])


def everything(ctx, model, manager, history):
    found = []
    while manager.get_by_index(len(found)) is not None:
        found.append(manager.get_by_index(len(found)))
        ctx.check(len(found) <= len(model.uris), "more indices than registered URIs", history=history[-6:])
    ctx.same([e.get_uri().geturl() for e in found], model.uris, "URIs in index order", history=history[-6:])
    ctx.check(all(e is model.latest[e.get_uri().geturl()] for e in found), "an index leads to another object", history=history[-6:])
    for uri in model.uris[::max(1, len(model.uris) // 50)]:
        check_one(ctx, model, manager, uri, history)


def final(ctx):
    everything(ctx, ctx.state["model"], XExtensionManager(), [])
    for prefix, (name, uri) in gen.STD.items():
        ctx.check(XExtensionManager().get_by_uri(urlparse(uri)) is not None, "a standard extension got lost", name=name)
