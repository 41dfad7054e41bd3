"""Extension definitions are read completely and at the right level."""
import os
import socket
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from urllib.parse import quote, urlparse

from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

from rv import gen, mutate, sched, snap, xesdoc

TECHNIQUE = "runtime monitor: definitions read from files and a loopback server compared with the generated definition"
RULE = ("random extension definitions (up to 1100 attributes per level, attributes of six types spread over four levels in any arrangement, aliases in known and "
        "new languages, any encoding and layout) read from paths, file and http URLs, repeatedly, after damaged definitions and in "
        "interleaved threads, with definition URIs that are unreachable or lead elsewhere; oracle: the abstract definition; "
        "non-trivial: definition with an attribute")
ASSUMPTIONS = ["every attribute of a definition is declared directly under one level"]
CASES = {"quick": 24000, "thorough": 240000}
LEVELS = ["log", "trace", "event", "meta"]
TYPES = ["string", "date", "int", "float", "boolean", "id"]
REQUIRED = ["checks", "levels changed", "definitions", "attributes", "aliases", "replaced aliases", "new languages", "same key at several levels",
            "same key of several types", "levels declared twice", "from absolute", "from relative", "from file url",
            "from http url", "from redirect", "repeated", "after a damaged definition", "interleaved", "misleading URI",
            "read again after changes", "thread switches", "unnested alias ignored", "keys with the prefix", "huge definitions",
            "long aliases", "long keys", "long names"] + ["level " + x for x in LEVELS] + \
           ["type " + x for x in TYPES]


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        server = self.server
        server.requests.append(self.path)
        target = server.redirects.get(self.path)
        if target is not None:
            self.send_response(302)
            self.send_header("Location", target)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        data = server.files.get(self.path)
        if data is None:
            self.send_error(404)
            return
        self.send_response(200)
        self.send_header("Content-Type", "text/xml")
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        half = len(data) // 2
        self.wfile.write(data[:half])
        self.wfile.flush()
        self.wfile.write(data[half:])

    def log_message(self, *args):
        pass


def setup(ctx):
    XExtensionManager()
    server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    server.files, server.redirects, server.requests = {}, {}, []
    threading.Thread(target=server.serve_forever, daemon=True).start()
    ctx.state["server"] = server
    ctx.state["base"] = "http://127.0.0.1:%d" % server.server_address[1]
    ctx.state["aliases"] = {}


class Spec:
    def __init__(self, ctx, rng, tag):
        server = ctx.state["server"]
        self.name = gen.text(rng, empty=False)[:60] if rng.random() < 0.5 else "Extension " + tag
        if rng.random() < 0.01:
            self.name = gen.alike(rng, 1)[0]
            ctx.count("long names")
        self.prefix = rng.choice(["rv%s", "RV%s", "r\u00e9%s", "x-%s", "x.%s"]) % tag
        r = rng.random()
        if r < 0.3:
            self.uri = ctx.state["base"] + "/other-%s.xesext" % tag
            server.files["/other-%s.xesext" % tag] = b"<xesextension name='Wrong' prefix='wrong' uri='urn:wrong'><log><int key='wrong'/></log></xesextension>"
            ctx.count("misleading URI")
        else:
            self.uri = rng.choice(["http://unreachable.invalid/%s.xesext", "urn:x:%s", "http://127.0.0.1:9/%s.xesext?a=1&b=2",
                                   "http://example.org/%s/\u00e4#x", "file:///nowhere/%s.xesext", "http://unreachable.invalid/%s/", "HTTP://Unreachable.INVALID/%s.XesExt",
                                   "%s", " http://x.invalid/%s ", "http://x.invalid/%%20%s;p?q=/#/"]) % tag
        self.blocks = []       # (level, [(type, key, [(language, alias)])])
        levels = rng.sample(LEVELS, rng.randint(0, 4))
        if rng.random() < 0.25 and levels:
            levels.append(rng.choice(levels))
            ctx.count("levels declared twice")
        pool = ["a", "b", "c"]
        taken = {}
        many = rng.random() < 0.002
        ctx.count("huge definitions", many)
        for level in levels:
            attributes = []
            for n in range(rng.choice([0, 1, 300, 1100]) if many else rng.choice([0, 1, 2, 3, 5])):
                key = "key %d" % n if n > 9 else rng.choice(pool) if rng.random() < 0.4 else gen.key_text(rng, 0.3)
                if rng.random() < 0.1:
                    ctx.count("keys with the prefix")
                    key = rng.choice([self.prefix, self.prefix + key, self.prefix + ":" + key, self.prefix.upper() + key, key + ":" + key,
                                      "concept:" + key, ":" + key])
                if rng.random() < 0.01:
                    key = ("key %s " % tag) * 60 + str(n)
                    ctx.count("long keys")
                kind = rng.choice(TYPES)
                if (level, key, kind) in taken:
                    continue
                if any(k == key and l != level for l, k, _ in taken):
                    ctx.count("same key at several levels")
                if any(k == key and t != kind for _, k, t in taken):
                    ctx.count("same key of several types")
                taken[level, key, kind] = True
                aliases = []
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    language = rng.choice(["EN", "DE", "FR", "NL", "ES", "xx", "en", "L\u00e4ng" + tag, "new" + tag])
                    alias = gen.text(rng, empty=False)[:40]
                    if rng.random() < 0.02:
                        alias = gen.alike(rng, 1, 66000 if rng.random() < 0.1 else 4100)[0]
                        ctx.count("long aliases")
                    aliases.append((language, alias))
                attributes.append((kind, key, aliases))
            self.blocks.append((level, attributes))

    def levels(self):
        out = {level: set() for level in LEVELS}
        for level, attributes in self.blocks:
            out[level].update((self.prefix + ":" + key, kind) for kind, key, _ in attributes)
        return out

    def aliases(self):
        """{(language, full key): alias}, the last of each winning."""
        out = {}
        for _, attributes in self.blocks:
            for kind, key, aliases in attributes:
                for language, alias in aliases:
                    out[language, self.prefix + ":" + key] = alias
        return out

    def document(self, ctx, rng):
        doc = xesdoc.Doc(rng, gen.L(), {})
        doc.entities = {"co": "Company", "e": ""} if doc.doctype else {}
        blocks = []
        for level, attributes in self.blocks:
            body = []
            for kind, key, aliases in attributes:
                names = [doc.element("alias", [("mapping", m), ("name", n)]) for m, n in aliases]
                body.append(doc.element(kind, [("key", key)], names))
                if rng.random() < 0.05:
                    ctx.count("unnested alias ignored")
                    body.append(doc.element("alias", [("mapping", "EN"), ("name", "nobody's alias")]))
            blocks.append(doc.element(level, [], body))
        root = doc.element("xesextension", [("name", self.name), ("prefix", self.prefix), ("uri", self.uri)], blocks)
        return doc.finish(root, ["xesextension", "x"])


def place(ctx, rng, data, tag):
    """Where to read the definition from."""
    how = rng.choice(["absolute", "relative", "file url", "http url", "redirect"])
    ctx.count("from " + how)
    name = rng.choice(["d-%s.xesext", "d %s.xml", "d\u00e4%s", "d#%s.xesext", "d%%20%s.xesext"]) % tag
    if how in ("http url", "redirect"):
        server = ctx.state["server"]
        path = "/" + quote(name)
        server.files[path] = data
        if how == "redirect":
            server.redirects["/r-" + quote(name)] = ctx.state["base"] + path
            path = "/r-" + quote(name)
        return ctx.state["base"] + path
    folder = os.path.join(ctx.scratch, rng.choice(["defs", "other folder"]))
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(data)
    ctx.state.setdefault("made", []).append(path)
    if how == "relative":
        return os.path.relpath(path)
    return path if how == "absolute" else Path(path).as_uri()


def parse(ctx, source, text):
    parser = XExtensionParser
    if ctx.state.get("instance"):
        parser = XExtensionParser()
    try:
        return parser.parse(source)
    except Exception as error:
        ctx.fail("a definition is not read: %r" % error, source=source, document=text)


def pairs(ctx, extension, attributes):
    out = set()
    for a in attributes:
        out.add((a.get_key(), snap.kind(a)))
        ctx.check(a.get_extension() is extension, "the attribute %r belongs to another extension" % a.get_key())
        value = snap.value_of(a)
        ctx.check(not (isinstance(value, tuple) and str(value[0]).startswith("not")), "attribute %r has the value %r" % (a.get_key(), value))
        ctx.check(not a.has_attributes(), "a defined attribute has attributes")
    return out


def check_extension(ctx, e, spec, detail):
    ctx.check(e is not None, "nothing was read", **detail)
    ctx.same((e.get_name(), e.get_prefix(), e.get_uri().geturl()), (spec.name, spec.prefix, urlparse(spec.uri).geturl()),
             "name, prefix and URI", **detail)
    levels = spec.levels()
    for level in LEVELS:
        got = getattr(e, "get_%s_attributes" % level)()
        ctx.same(sorted(pairs(ctx, e, got)), sorted(levels[level]), "attributes at the level " + level, **detail)
        ctx.check(len(got) == len(levels[level]), "an attribute at the level %s is there twice" % level, **detail)
        ctx.count("level " + level, len(got))
    for _, kind in set().union(*levels.values()):
        ctx.count("type " + kind)
    ctx.same(sorted(pairs(ctx, e, e.get_defined_attributes())), sorted(set().union(*levels.values())),
             "all defined attributes", **detail)


def change_levels(ctx, rng, e):
    """Attributes that are added to a level later, or taken away, are among those the extension defines, or no longer."""
    for n in range(rng.randint(1, 3)):
        level = getattr(e, "get_%s_attributes" % rng.choice(LEVELS))()
        if rng.random() < 0.6 or not level:
            level.add(XFactory.create_attribute_literal(
                "%s:later%d" % (e.get_prefix(), n), "v", e) if rng.random() < 0.5 else
                XFactory.create_attribute_discrete("%s:later%d" % (e.get_prefix(), n), 1, e))
        else:
            level.pop()
        expected = set().union(*[{(a.get_key(), snap.kind(a)) for a in getattr(e, "get_%s_attributes" % x)()} for x in LEVELS])
        ctx.same(sorted({(a.get_key(), snap.kind(a)) for a in e.get_defined_attributes()}), sorted(expected),
                 "all defined attributes after a level changed")
        ctx.count("levels changed")


def check_aliases(ctx, spec, detail):
    known = ctx.state["aliases"]
    for (language, key), alias in spec.aliases().items():
        ctx.count("aliases")
        if (language, key) in known:
            ctx.count("replaced aliases")
        if not any(l == language for l, _ in known) and language not in ("EN", "DE", "FR", "ES", "PT"):
            ctx.count("new languages")
        known[language, key] = alias
    full = {k for _, k in spec.aliases()} | {k for level in spec.levels().values() for k, _ in level}
    names = XGlobalAttributeNameMap().get_available_mapping_names()
    languages = {l for l, _ in spec.aliases()} | {"EN", "DE", "NL"}
    for language in languages:
        if language not in names:
            ctx.check(all((language, key) not in known for key in full), "the language %r is not available" % language, **detail)
            continue
        mapping = XGlobalAttributeNameMap().get_mapping(language)
        for key in full:
            ctx.same(mapping.map(key), known.get((language, key)), "alias of %r in %r" % (key, language), **detail)


def case(ctx, rng, i):
    ctx.state["instance"] = rng.random() < 0.3
    spec = Spec(ctx, rng, str(i))
    ctx.count("definitions")
    ctx.count("attributes", sum(len(a) for _, a in spec.blocks))
    server = ctx.state["server"]
    try:
        one(ctx, rng, spec, i)
        unwanted = [p for p in server.requests if p.startswith("/other-")]
        ctx.check(not unwanted, "reading a definition requested its URI", requests=unwanted)
    finally:
        server.requests.clear()
        server.files.clear()
        server.redirects.clear()
        for path in ctx.state.pop("made", []):
            try:
                os.remove(path)
            except FileNotFoundError:
                pass


def one(ctx, rng, spec, i):
    data, text = spec.document(ctx, rng)
    if any(a for _, a in spec.blocks):
        ctx.distinct(repr((spec.name, spec.blocks)))
    ctx.sample(text)
    if rng.random() < 0.2:
        damaged(ctx, rng, data, i)
    if rng.random() < 0.1:
        return together(ctx, rng, spec, i)
    source = place(ctx, rng, data, "%d" % i)
    detail = {"source": source, "document": text}
    e = parse(ctx, source, text)
    check_extension(ctx, e, spec, detail)
    check_aliases(ctx, spec, detail)
    if rng.random() < 0.15:
        change_levels(ctx, rng, e)
        e = parse(ctx, source, text)
        check_extension(ctx, e, spec, detail)
    if rng.random() < 0.4:
        ctx.count("repeated")
        if rng.random() < 0.5:
            ctx.count("read again after changes")
            for a in e.get_defined_attributes():
                mutate.new_value(rng, a, snap.kind(a))
            for level in LEVELS:
                if rng.random() < 0.3:
                    getattr(e, "get_%s_attributes" % level)().clear()
        elif rng.random() < 0.5:
            data, text = spec.document(ctx, rng)
        source = place(ctx, rng, data, "%d-again" % i)
        again = parse(ctx, source, text)
        ctx.check(again is not e, "a second read gives the same object")
        check_extension(ctx, again, spec, {"source": source, "document": text})
        check_aliases(ctx, spec, {"source": source, "document": text})


def damaged(ctx, rng, data, i):
    """A definition that cannot be read leaves nothing behind."""
    ctx.count("after a damaged definition")
    other = Spec(ctx, rng, "%d-damaged" % i)
    data, _ = other.document(ctx, rng)
    cut = rng.randrange(len(data) - 1)
    source = place(ctx, rng, data[:cut], "%d-damaged" % i)
    try:
        e = XExtensionParser.parse(source)
    except Exception:
        known = ctx.state["aliases"]
        for language, key in other.aliases():       # aliases read before the damage are unspecified
            if language in XGlobalAttributeNameMap().get_available_mapping_names():
                found = XGlobalAttributeNameMap().get_mapping(language).map(key)
                if found is not None:
                    known[language, key] = found
        return
    # only white space or comments may follow the root element
    check_extension(ctx, e, other, {"cut": cut, "data": data})
    check_aliases(ctx, other, {"cut": cut})


def together(ctx, rng, spec, i):
    """Two definitions read by interleaved threads."""
    ctx.count("interleaved")
    specs = [spec] + [Spec(ctx, rng, "%d-%d" % (i, n)) for n in range(rng.randint(1, 2))]
    texts = [s.document(ctx, rng) for s in specs]
    sources = [place(ctx, rng, data, "%d-t%d" % (i, n)) for n, (data, _) in enumerate(texts)]
    baton = sched.Baton(rng.getrandbits(30), 0.1)
    results = baton.run([lambda s=s: XExtensionParser.parse(s) for s in sources])
    ctx.count("thread switches", baton.switches)
    for s, (ok, e), (_, text), source in zip(specs, results, texts, sources):
        detail = {"source": source, "document": text}
        ctx.check(ok, "a definition is not read: %r" % (e,), **detail)
        check_extension(ctx, e, s, detail)
    for s in specs:
        check_aliases(ctx, s, {})
