"""Elements report exactly the extensions they use."""
import io
from urllib.parse import urlparse, urlsplit

from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.model.XAttributeMap import XAttributeMap

from rv import gen, snap, xesdoc

TECHNIQUE = "runtime monitor: extension sets reported after every edit compared with a recount of the attributes"
RULE = ("random logs built, cloned or read (XES and MXML), whose traces, events, extended events and attributes are edited in "
        "random histories (add, replace with another extension, remove, exchange the map, through extensions and views, edit "
        "returned sets) and asked after every edit, with several logs alive at once; oracle: recount through the attribute maps "
        "and a model of the sets of the logs; non-trivial: an element with two extensions")
ASSUMPTIONS = ["extensions with the same URI count as one extension"]
CASES = {"quick": 9000, "thorough": 120000}
REQUIRED = ["checks", "asked trace", "asked event", "asked attribute", "asked extended event", "asked log", "without extension",
            "one extension", "several extensions", "same extension twice", "nested extensions only", "built", "cloned", "read xes",
            "read mxml", "edit add", "edit replace", "edit remove", "edit exchange", "edit clear", "edit fill", "edit through extension",
            "edit through view", "edit returned set", "log additions", "log removals", "several logs", "unregistered extensions",
            "equal extensions", "collections asked", "documents declaring", "documents declaring nothing"]


def setup(ctx):
    gen.register_custom()
    manager = XExtensionManager()
    pool = [manager.get_by_index(n) for n in range(11)]
    pool += [XExtension("Own %d" % n, "own%d" % n, urlparse("http://example.org/own/%d" % n)) for n in range(4)]
    # another object for the URI of a registered and of an unregistered one
    pool.append(XExtension("Again", "again", urlparse("http://example.org/own/0")))
    pool.append(XExtension("Split", "split", urlsplit("http://example.org/own/1")))
    ctx.state["pool"] = pool


def uris(extensions):
    return sorted(e.get_uri().geturl() for e in extensions)


def ask(ctx, x, kind, detail):
    """The reported set against a recount."""
    used = [a.get_extension() for a in x.get_attributes().values()]
    expected = {e.get_uri().geturl() for e in used if e is not None}
    before = list(x.get_attributes().items())
    got = x.get_extensions()
    ctx.count("asked " + kind)
    ctx.same(uris(got), sorted(expected), "extensions of a %s" % kind, keys=list(x.get_attributes()), **detail)
    objects = {id(e) for e in used if e is not None}
    ctx.check(all(id(e) in objects for e in got), "a reported extension of a %s is another object" % kind, **detail)
    after = list(x.get_attributes().items())
    ctx.check(len(before) == len(after) and all(a is b for p, q in zip(before, after) for a, b in zip(p, q)),
              "asking a %s changed its attributes" % kind, **detail)
    ctx.count("without extension" if not expected else "one extension" if len(expected) == 1 else "several extensions")
    if len([e for e in used if e is not None]) > len(expected):
        ctx.count("same extension twice")
    if len(objects) > len(expected):
        ctx.count("equal extensions")
    if not expected and any(b.get_extension() is not None for b in snap.walk_attributes(x.get_attributes())):
        ctx.count("nested extensions only")
    if len(expected) > 1:
        ctx.distinct("%s %s %s" % (kind, sorted(expected), sorted(x.get_attributes())))
    return got


def make(ctx, rng, spec, how):
    if how == "read xes":
        data, _ = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        ctx.count("documents declaring" if spec.extensions else "documents declaring nothing")
        log = XesXmlParser().parse(io.BytesIO(data))[0]
        expected = {dict(gen.STD, **gen.CUSTOM)[p][1] for p in spec.extensions}
        ctx.same(uris(log.get_extensions()), sorted(expected), "the declared extensions", document=data)
    elif how == "read mxml":
        out = io.BytesIO()
        XMxmlSerializer().serialize(gen.build_log(spec), out, True)
        log = XMxmlParser().parse(io.BytesIO(out.getvalue()))[0]
    else:
        log = gen.build_log(spec, style=rng.randint(0, 1))
        ctx.same(uris(log.get_extensions()), sorted({dict(gen.STD, **gen.CUSTOM)[p][1] for p in spec.extensions}),
                 "the added extensions")
        if how == "cloned":
            original = log
            log = log.clone()
            ctx.same(uris(log.get_extensions()), uris(original.get_extensions()), "the extensions of a cloned log")
    ctx.count(how)
    return log


def elements(rng, log):
    """Some elements of a log, with their kinds."""
    out = [(t, "trace") for t in log] + [(e, "event") for t in log for e in t]
    attributes = list(snap.walk_attributes(log.get_attributes())) + [a for x, _ in out for a in snap.walk_attributes(x.get_attributes())]
    out += [(a, "attribute") for a in rng.sample(attributes, min(8, len(attributes)))]
    out += [(XExtendedEvent(e), "extended event") for e, k in out if k == "event" and rng.random() < 0.3]
    return out


def new_attribute(ctx, rng, key=None):
    e = rng.choice([None, None] + ctx.state["pool"])
    if e in ctx.state["pool"][11:]:
        ctx.count("unregistered extensions")
    key = key or rng.choice("abcdef")
    create = rng.choice([lambda: XFactory.create_attribute_literal(key, "v", e), lambda: XFactory.create_attribute_boolean(key, True, e),
                         lambda: XFactory.create_attribute_discrete(key, 1, e), lambda: XFactory.create_attribute_list(key, e),
                         lambda: XFactory.create_attribute_continuous(key, 1.5, e), lambda: XFactory.create_attribute_container(key, e)])
    a = create()
    if rng.random() < 0.3:
        inner = XFactory.create_attribute_literal("inner", "v", rng.choice(ctx.state["pool"]))
        a.get_attributes()["inner"] = inner
        if snap.kind(a) in ("list", "container"):
            ctx.count("collections asked")
            a.add_to_collection(inner)
            a.add_to_collection(XFactory.create_attribute_literal("member", "v", rng.choice(ctx.state["pool"])))
    return a


def edit(ctx, rng, x, kind):
    m = x.get_attributes()
    r = rng.random()
    if r < 0.35 or not len(m):
        a = new_attribute(ctx, rng)
        m[a.get_key()] = a
        name = "add"
    elif r < 0.55:
        key = rng.choice(list(m))
        m[key] = new_attribute(ctx, rng, key)
        name = "replace"
    elif r < 0.75:
        m.pop(rng.choice(list(m)))
        name = "remove"
    elif r < 0.8:
        if rng.random() < 0.8:
            m.clear()
            name = "clear"
        else:       # many more attributes, most of them without extension
            for n in range(rng.choice([40, 120, 300, 1100])):
                a = XFactory.create_attribute_literal("more %d" % n, "v") if n else new_attribute(ctx, rng, "more")
                m[a.get_key()] = a
            name = "fill"
    elif r < 0.87:
        new = XAttributeMap()
        for _ in range(rng.randint(0, 3)):
            a = new_attribute(ctx, rng)
            new[a.get_key()] = a
        x.set_attributes(new)
        name = "exchange"
    elif r < 0.93 and kind in ("trace", "event"):
        rng.choice([lambda: XConceptExtension().assign_name(x, "n"), lambda: XCostExtension().assign_total(x, 1.5)])()
        if kind == "event":
            XOrganizationalExtension().assign_resource(x, rng.choice(["r", None]))
        name = "through extension"
    elif kind in ("event", "extended event"):
        view = x if kind == "extended event" else XExtendedEvent(x)
        rng.choice([lambda: view.set_name("n"), lambda: view.set_resource("r"), lambda: view.set_role("x"),
                    lambda: view.set_instance("i"), lambda: view.set_transition("complete")])()
        name = "through view"
    else:
        return edit(ctx, rng, x, kind)
    ctx.count("edit " + name)
    return name


def case(ctx, rng, i):
    logs, models = [], []
    for _ in range(rng.choice([1, 2, 2, 3])):
        how = rng.choice(["built", "cloned", "read xes", "read xes", "read mxml"])
        g = gen.Gen(rng, nasty=0.05, depth=2, dates="fixed") if how != "read mxml" else \
            gen.Gen(rng, nasty=0, depth=1, dates="fixed", std_typed=True, lists_dup=False, kinds=["string", "date"])
        spec = g.log(rng.choice(["tiny", "small"]))
        if rng.random() < 0.3:
            spec.extensions = []
        log = make(ctx, rng, spec, how)
        logs.append(log)
        models.append({e.get_uri().geturl(): e for e in log.get_extensions()})
    if len(logs) > 1:
        ctx.count("several logs")
    ctx.sample([repr(models)])
    for log in logs:
        for x, kind in elements(rng, log):
            ask(ctx, x, kind, {})
    history = []
    for _ in range(rng.randint(4, 14)):
        n = rng.randrange(len(logs))
        log = logs[n]
        if rng.random() < 0.3:
            e = rng.choice(ctx.state["pool"])
            uri = e.get_uri().geturl()
            if uri in models[n] or rng.random() < 0.2:
                log.get_extensions().discard(e)
                models[n].pop(uri, None)
                ctx.count("log removals")
                history.append(("log", n, "discard", uri))
            else:
                log.get_extensions().add(e)
                models[n][uri] = e
                ctx.count("log additions")
                history.append(("log", n, "add", uri))
        else:
            some = elements(rng, log)
            if not some:
                continue
            x, kind = rng.choice(some)
            name = edit(ctx, rng, x, kind)
            history.append((n, kind, name))
            got = ask(ctx, x, kind, {"history": history[-6:]})
            if rng.random() < 0.3 and isinstance(got, set):
                ctx.count("edit returned set")
                got.clear() if rng.random() < 0.5 else got.update(rng.sample(ctx.state["pool"], 2))
                ask(ctx, x, kind, {"history": history[-6:] + ["edit of the returned set"]})
            if rng.random() < 0.15 and kind != "extended event":
                c = x.clone()
                ask(ctx, c, kind, {"history": history[-6:] + ["clone"]})
                edit(ctx, rng, c, kind)
                ask(ctx, c, kind, {"history": history[-6:] + ["edit of the clone"]})
                ask(ctx, x, kind, {"history": history[-6:] + ["edit of the clone"]})
        if rng.random() < 0.2:
            c = logs[n].clone()
            c.get_extensions().add(ctx.state["pool"][-2])
            c.get_extensions().discard(rng.choice(ctx.state["pool"]))
        for m, other in enumerate(logs):
            ctx.count("asked log")
            ctx.same(uris(other.get_extensions()), sorted(models[m]), "extensions of a log", history=history[-6:], log=m)
    for log in logs:
        for x, kind in elements(rng, log):
            ask(ctx, x, kind, {"history": history})
