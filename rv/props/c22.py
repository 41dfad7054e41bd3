"""The extension cache serves what was fetched and nothing stale."""
import builtins
import os
import platform
import shutil
import socket
import struct
import sys
import threading
import time
import xml.etree.ElementTree as Et
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from urllib.parse import urlparse

from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils

from rv import gen
from rv.base import Violation
from rv.props import c18

TECHNIQUE = ("runtime monitor: cache histories against a loopback server with injected faults in a scratch home folder, compared "
             "after every operation with a model of the folder and of the registrations")
RULE = ("histories of 4-16 operations: fetch (file and http URLs, redirects, with and without suffix), fetch with a fault (404, 500, "
        "cut body, reset, bad status line, refused, redirect loop, blocked file name), changed contents on the server, files that "
        "age, expire, are damaged, are foreign or duplicate known URIs, folders that vanish, registrations and loads; oracle: model "
        "of the folder contents byte for byte and of the registered objects; non-trivial: a history with a fetch and a load")
ASSUMPTIONS = ["URIs cached side by side differ in what follows the last slash (path segment or query)", "one process uses the cache at a time",
               "a fault that ends a body is visible to the client (a length was announced)"]
STATEFUL = True
CASES = {"quick": 6000, "thorough": 100000}
DAY = 86400
FAULTS = ["404", "500", "cut", "reset", "garbage", "refused", "loop", "missing file", "blocked", "chunk"]
REQUIRED = ["checks", "fetches", "fetched again", "fetched after it expired", "changed on the server", "from http", "from file", "from redirect",
            "with suffix", "without suffix", "with slash", "folder created by fetch", "folder created by load", "loads",
            "empty loads", "repeated loads", "loaded", "loaded from cache of fetch", "already registered", "standard in cache",
            "expired files", "expired foreign files", "files just young enough", "files just too old", "foreign files", "damaged files",
            "damaged with others", "sub folders", "capital suffix", "registered before load", "replaced after load",
            "folder vanished", "failed with earlier copy", "failed without earlier copy", "two files of one URI", "other home", "darwin", "win32",
            "definition with another URI", "prefix or name in use", "found behind an earlier one", "failed before folder", "hundreds of files", "with query", "nothing to fetch from", "queries of one path"] + ["fault " + f for f in FAULTS]


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        server = self.server
        server.requests.append(self.path)
        mode, data = server.files.get(self.path, ("404", b""))
        if mode in ("404", "500"):
            body = data or b"<html>no</html>"
            self.send_response(int(mode))
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)
        elif mode == "ok":
            self.send_response(200)
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            self.wfile.write(data)
        elif mode in ("redirect", "loop"):
            self.send_response(302)
            self.send_header("Location", data.decode() if mode == "redirect" else self.path)
            self.send_header("Content-Length", "0")
            self.end_headers()
        elif mode in ("cut", "reset"):
            self.send_response(200)
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            self.wfile.write(data[:max(1, len(data) * 2 // 3)])
            self.wfile.flush()
            if mode == "reset":
                self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.close_connection = True
        elif mode == "chunk":
            self.send_response(200)
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            self.wfile.write(b"%x\r\n" % len(data) + data[:len(data) // 2])
            self.wfile.flush()
            self.close_connection = True
        elif mode == "garbage":
            self.wfile.write(b"\x00\x01 what is this\r\n\r\n")
            self.close_connection = True

    def log_message(self, *args):
        pass


class Quiet(ThreadingHTTPServer):
    def handle_error(self, request, address):
        pass


def setup(ctx):
    guard_removal(ctx)
    server = Quiet(("127.0.0.1", 0), Handler)
    server.files, server.requests, server.redirects = {}, [], {}
    threading.Thread(target=server.serve_forever, daemon=True).start()
    ctx.state["server"] = server
    ctx.state["base"] = "http://127.0.0.1:%d" % server.server_address[1]
    closed = socket.socket()
    closed.bind(("127.0.0.1", 0))
    ctx.state["closed"] = closed
    ctx.state["refused"] = "http://127.0.0.1:%d" % closed.getsockname()[1]
    ctx.state["known"] = {}
    manager = XExtensionManager()
    while manager.get_by_index(len(ctx.state["known"])) is not None:
        e = manager.get_by_index(len(ctx.state["known"]))
        ctx.state["known"][e.get_uri().geturl()] = e


def guard_removal(ctx):
    """Whatever the library does, it removes and writes nothing outside the scratch folder."""
    root = os.path.realpath(os.path.dirname(ctx.scratch))

    def inside(path):
        full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(path)))), os.path.basename(os.fspath(path)))
        return full.startswith((root + os.sep, "/dev/"))

    def wrap(real, places):
        def guard(*args, **kw):
            for path in args[:places]:
                if isinstance(path, (str, bytes, os.PathLike)) and not inside(os.fsdecode(path)):
                    raise Violation("%s of %s" % (real.__name__, path))
            return real(*args, **kw)
        return guard
    for name, places in (("remove", 1), ("unlink", 1), ("rmdir", 1), ("rename", 2), ("replace", 2)):
        setattr(os, name, wrap(getattr(os, name), places))
    real_open = builtins.open

    def guarded_open(file, mode="r", *args, **kw):
        if isinstance(file, (str, bytes, os.PathLike)) and set(mode) & set("wax+") and not inside(os.fsdecode(file)):
            raise Violation("a file was opened for writing: %s" % file)
        return real_open(file, mode, *args, **kw)
    builtins.open = guarded_open


class World:
    """The model: what the cache folder holds and what is registered."""

    def __init__(self, ctx, rng, i):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.server = ctx.state["server"]
        self.home = os.path.join(ctx.scratch, "home-%d%s" % (i, rng.choice(["", " x", "#y", "%20z", "\u00e4", "?q"])))
        os.makedirs(self.home)
        self.old = {k: os.environ.get(k) for k in ("HOME", "USERPROFILE")}
        os.environ["HOME"] = self.home
        os.environ.pop("USERPROFILE", None)
        if rng.random() < 0.2:
            ctx.count("other home")
            os.environ["HOME"] = os.path.join(ctx.scratch, "unused-%d" % i)
            os.environ["USERPROFILE"] = self.home
        self.platform = sys.platform, platform.system
        self.folder = os.path.join(self.home, ".OpenXES", "ExtensionCache")
        self.top = self.home
        r = rng.random()
        if r < 0.05:
            ctx.count("win32")
            sys.platform, platform.system = "win32", lambda: "Windows"
            self.folder = self.windows_folder()
        elif r < 0.15:
            ctx.count("darwin")
            sys.platform, platform.system = "darwin", lambda: "Darwin"
            self.folder = os.path.join(self.home, "Library", "Application Support", "OpenXES", "ExtensionCache")
        self.files = {}         # name -> [bytes, what it is, definition or None, modification time or None]
        self.kept = {}          # uri -> (file name, definition, its bytes) of fetches
        self.folders = set()
        self.manager = XExtensionManager()
        self.known = ctx.state["known"]
        self.history = []
        self.asked = {}         # path -> number of the last query
        self.serial = 0
        self.fetched = self.loaded = False

    def close(self):
        sys.platform, platform.system = self.platform
        for name, value in self.old.items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value
        for path in (self.home, self.top, self.folder):
            shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(os.path.join(self.ctx.scratch, "unused-%d" % self.i), ignore_errors=True)
        self.server.files.clear()
        self.server.requests.clear()

    def windows_folder(self):
        """Where the folder lies that Windows knows by the documented name, whichever separators this system was given."""
        folder = XRuntimeUtils().get_extension_cache_folder()
        self.ctx.same(folder.replace("\\", "/"), self.home + "/OpenXES/ExtensionCache", "cache folder on Windows")
        self.top = self.home + folder[len(self.home):].split("ExtensionCache")[0].rstrip("/\\")
        shutil.rmtree(folder)
        if self.rng.random() < 0.5:
            shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.home, exist_ok=True)
        return folder

    # definitions

    def definition(self, uri=None):
        self.serial += 1
        tag = "%d-%d" % (self.i, self.serial)
        spec = c18.Spec(self.ctx, self.rng, tag)
        for path in [p for p in self.server.files if p.startswith("/other-")]:
            del self.server.files[path]
        spec.uri = uri or self.rng.choice(["http://example.invalid/cached/%s", "urn:cached:%s", "http://example.invalid/%s.xesext"]) % tag
        if self.rng.random() < 0.15:      # another extension uses the name or prefix already
            self.ctx.count("prefix or name in use")
            other = self.rng.choice(list(self.known.values())[-10:] + list(self.known.values())[:8])
            what = self.rng.choice(["name", "prefix", "both"])
            if what != "name":
                spec.prefix = other.get_prefix()
                for _, attributes in spec.blocks:
                    attributes[:] = [(kind, "rv-%s-%s" % (tag, key), aliases) for kind, key, aliases in attributes]
            if what != "prefix":
                spec.name = other.get_name()
        data, _ = spec.document(self.ctx, self.rng)
        return spec, data

    # observation

    def listing(self):
        out = {}
        for root, name in [(r, n) for top in {self.home, self.folder} for r, _, names in os.walk(top) for n in names]:
            path = os.path.join(root, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, self.folder)] = f.read()
        return out

    def compare(self, what):
        ctx = self.ctx
        detail = {"history": self.history[-8:]}
        got = self.listing()
        expected = {name: f[0] for name, f in self.files.items()}
        ctx.same(sorted(got), sorted(expected), "files after %s" % what, **detail)
        for name in expected:
            ctx.check(got[name] == expected[name], "the content of %s changed after %s" % (name, what), **detail)
        for name in self.folders:
            ctx.check(os.path.isdir(os.path.join(self.folder, name)), "the folder %s disappeared after %s" % (name, what), **detail)
        for uri, e in list(self.known.items())[-25:] + list(self.known.items())[:8]:
            found = self.manager.get_by_uri(gen.uri(self.rng, uri))
            ctx.check(found is e, "the extension registered for %s was replaced by %r after %s" % (uri, found, what), **detail)
        ctx.check(self.manager.get_by_index(len(self.known)) is None, "more extensions than expected after %s" % what, **detail)
        ctx.check(self.manager.get_by_index(len(self.known) - 1) is not None, "fewer extensions than expected after %s" % what, **detail)

    def call(self, function, *args):
        try:
            function(*args)
        except Violation:
            raise
        except Exception as error:
            self.ctx.fail("%s raised %r" % (self.history[-1], error), history=self.history[-8:])

    # operations

    def fetch(self):
        ctx, rng = self.ctx, self.rng
        if sys.platform == "win32":     # urllib itself needs the real platform
            return self.put()
        again = bool(self.kept) and rng.random() < 0.4
        if again:
            uri = rng.choice(sorted(self.kept))
            name, spec, data = self.kept[uri]
            if rng.random() < 0.5:
                ctx.count("changed on the server")
                spec, data = self.definition(spec.uri if rng.random() < 0.5 else None)
        else:
            uri, name = self.new_uri(), None
            spec, data = self.definition(uri if rng.random() < 0.6 else None)
            if spec.uri != uri:
                ctx.count("definition with another URI")
        fault = rng.choice(FAULTS) if rng.random() < 0.4 else None
        if again and fault in ("refused", "missing file"):
            fault = "404"
        target = uri
        parts = urlparse(uri)
        if parts.scheme == "file":
            if fault is not None:
                fault = "missing file"
            self.serve_file(uri, None if fault else data)
            ctx.count("from file")
        else:
            path = parts.path + ("?" + parts.query if parts.query else "")
            if fault == "missing file":
                fault = "404"
            if fault == "refused":
                uri = target = ctx.state["refused"] + path
            elif fault not in (None, "blocked"):
                self.server.files[path] = (fault, data)
            elif rng.random() < 0.25:
                ctx.count("from redirect")
                elsewhere = "/elsewhere/%d-%d" % (self.i, self.serial)
                self.server.files[elsewhere] = ("ok", data)
                self.server.files[path] = ("redirect", (ctx.state["base"] + elsewhere).encode())
            else:
                ctx.count("from http")
                self.server.files[path] = ("ok", data)
        if fault == "blocked":
            fault = self.block(again, uri)
        expected = parts.path.rstrip("/").rsplit("/", 1)[1]
        missing = not os.path.isdir(self.folder)
        before = set(self.files)
        self.history.append(("cache", target, fault))
        self.call(XExtensionManager.cache_extension if rng.random() < 0.5 else self.manager.cache_extension, gen.uri(self.rng, target))
        ctx.check(os.path.isdir(self.folder), "the cache folder is missing after a fetch", history=self.history[-8:])
        if fault:
            ctx.count("fault " + fault)
            ctx.count("failed with earlier copy" if again and name in self.files else "failed without earlier copy")
            if missing:
                ctx.count("failed before folder")
            self.compare("a failed fetch")
            return
        ctx.count("fetches")
        self.fetched = True
        if missing:
            ctx.count("folder created by fetch")
        if again and name in self.files:
            ctx.count("fetched again")
        elif again:
            ctx.count("fetched after it expired")
        if name is None:
            new = [n for n in self.listing() if n not in before]
            ctx.check(len(new) == 1, "a fetch stored %d new files: %r" % (len(new), new), history=self.history[-8:])
            name = new[0]
            ctx.check(name.endswith(".xesext") and os.sep not in name and expected.split(".xesext")[0] in name,
                      "the definition of %s was stored as %s" % (uri, name), history=self.history[-8:])
        self.files[name] = [data, "definition", spec, None]
        self.kept[uri] = (name, spec, data)
        self.compare("a fetch")
        if self.age(name) > 1000:
            ctx.fail("a fetched file is not new", name=name, age=self.age(name))

    def age(self, name):
        return time.time() - os.path.getmtime(os.path.join(self.folder, name))

    def unreachable(self):
        """URIs nothing can be fetched from change nothing and raise nothing."""
        ctx, rng = self.ctx, self.rng
        self.serial += 1
        tag = "%d-%d" % (self.i, self.serial)
        uri = rng.choice(["urn:rv:%s", "rv-%s", "rv-%s.xesext", "rv:%s", "rv-scheme://host/%s", "file:///rv%%00%s", "http://127.0.0.1:9/\u00e4 %s",
                          "file:///rv-nowhere/%s", "%.0s", "#%s", "//rv/%s", "http:///%s", "http://127.0.0.1:port/%s",
                          ctx.state["refused"] + "/\x01 %s"]) % tag
        self.history.append(("cache", uri))
        ctx.count("nothing to fetch from")
        self.call(XExtensionManager.cache_extension, gen.uri(rng, uri))
        if os.path.isdir(self.folder):
            self.compare("an attempt to fetch from nowhere")

    def new_uri(self):
        rng, ctx = self.rng, self.ctx
        self.serial += 1
        base = rng.choice(["ext-%d-%d", "ext.%d.%d", "Ext_%d_%d", "x%%20t%d-%d", "xesext%d-%d"]) % (self.i, self.serial)
        r = rng.random()
        if r < 0.5:
            ctx.count("with suffix")
            base += ".xesext"
        elif r < 0.8:
            ctx.count("without suffix")
            base += rng.choice(["", "", ".xml", ".XESEXT", ".xesext.v2", ".xesext.xml", ".xesext0", "xesext"])
        else:
            ctx.count("with slash")
            base += rng.choice(["/", ".xesext/"])
        if rng.random() < 0.12:
            if rng.random() < 0.5 and self.asked:       # the same path, another query
                path, n = rng.choice(sorted(self.asked.items()))
                ctx.count("queries of one path")
                self.asked[path] = n + 1
                return "%s%s?v=%d" % (ctx.state["base"], path, n + 1)
            ctx.count("with query")
            path = "/" + base.rstrip("/").replace("%20", "")
            self.asked[path] = 0
            return "%s%s?v=0" % (ctx.state["base"], path)
        if rng.random() < 0.3 and not base.endswith("/"):
            folder = os.path.join(self.ctx.scratch, "served-%d" % self.i)
            return Path(os.path.join(folder, base.replace("%20", ""))).as_uri()
        return ctx.state["base"] + rng.choice(["/", "/a/b/", "/a.xesext/"]) + base

    def serve_file(self, uri, data):
        path = urlparse(uri).path
        from urllib.request import url2pathname
        path = url2pathname(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if data is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, "wb") as f:
                f.write(data)

    def block(self, again, uri):
        """A folder stands where the file would be stored."""
        if again:
            return None
        name = uri.rstrip("/").rsplit("/", 1)[1]
        if not name.endswith(".xesext"):
            name += ".xesext"
        os.makedirs(os.path.join(self.folder, name))
        self.folders.add(name)
        return "blocked"

    def put(self):
        """Files that others left in the folder."""
        ctx, rng = self.ctx, self.rng
        os.makedirs(self.folder, exist_ok=True)
        many = rng.random() < 0.004
        self.ctx.count("hundreds of files", many)
        for _ in range(rng.randint(150, 300) if many else rng.randint(1, 4)):
            self.serial += 1
            kind = rng.choice(["definition", "definition", "damaged", "damaged", "foreign", "foreign", "folder", "known", "twice"])
            name = "%s-%d-%d" % (rng.choice("abxyz"), self.i, self.serial)
            spec = None
            if kind == "folder":
                name += rng.choice(["", ".xesext"])
                os.makedirs(os.path.join(self.folder, name))
                if rng.random() < 0.5:
                    self.age_to(name, 40 * DAY)
                self.folders.add(name)
                ctx.count("sub folders")
                continue
            if kind == "foreign":
                ctx.count("foreign files")
                spec, data = self.definition()
                spec = None
                if rng.random() < 0.4:
                    data = bytes(rng.randrange(256) for _ in range(20))
                name += rng.choice([".txt", "", ".xesext.bak", ".xesext~", ".xml", ".xes", "xesext", ".xesext.tmp"])
            else:
                if kind == "known":
                    uri = rng.choice(list(self.known)[-10:] + list(self.known)[:8])
                    spec, data = self.definition(uri)
                    if "xes-standard" in uri:
                        ctx.count("standard in cache")
                elif kind == "twice" and any(f[2] for f in self.files.values()):
                    ctx.count("two files of one URI")
                    spec, data = self.definition(rng.choice([f[2] for f in self.files.values() if f[2]]).uri)
                else:
                    spec, data = self.definition()
                kind = "definition" if kind != "damaged" else kind
                suffix = ".xesext"
                if rng.random() < 0.15:
                    suffix = rng.choice([".XESEXT", ".XesExt"])
                    ctx.count("capital suffix")
                name = rng.choice(["", "", ".", "b\u00e4 "]) + name + suffix
                if kind == "damaged":
                    spec, data = None, self.damage(data)
                    ctx.count("damaged files")
            with open(os.path.join(self.folder, name), "wb") as f:
                f.write(data)
            self.files[name] = [data, kind, spec, None]
            self.history.append(("put", name, kind))
            if rng.random() < 0.35:
                self.set_age(name)

    def damage(self, data):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            return b""
        if r < 0.3:
            return bytes(rng.randrange(256) for _ in range(50))
        if r < 0.4:
            return b"<log/>"
        if r < 0.5:
            return b"<xesextension name='a'/>"
        if r < 0.6:
            return b"<xesextension name='a' prefix='b'><event/></xesextension>"
        if r < 0.65:
            return b"<!DOCTYPE a SYSTEM 'missing.dtd'><a>&nothing;</a>"
        for _ in range(20):
            cut = data[:rng.randrange(len(data))]
            try:
                Et.fromstring(cut)
            except Exception:
                return cut
        return b"<"

    def age_to(self, name, seconds):
        when = time.time() - seconds
        os.utime(os.path.join(self.folder, name), (when, when))

    def set_age(self, name):
        rng, ctx = self.rng, self.ctx
        age = rng.choice([-DAY, DAY, 7 * DAY, 29 * DAY, 30 * DAY - 600, 30 * DAY + 5, 31 * DAY, 60 * DAY, 400 * DAY, 10000 * DAY])
        if age == 30 * DAY - 600:
            ctx.count("files just young enough")
        if age == 30 * DAY + 5:
            ctx.count("files just too old")
        self.age_to(name, age)
        self.files[name][3] = age
        self.history.append(("age", name, age / DAY))

    def load(self):
        ctx, rng = self.ctx, self.rng
        ctx.count("loads")
        if not self.files:
            ctx.count("empty loads")
        if self.loaded:
            ctx.count("repeated loads")
        missing = not os.path.isdir(self.folder)
        expected = {}
        damaged = 0
        for name, (data, kind, spec, age) in list(self.files.items()):
            if kind == "foreign":
                if (age or 0) > 30 * DAY:
                    ctx.count("expired foreign files")
                continue
            if (age or 0) > 30 * DAY:
                ctx.count("expired files")
                del self.files[name]
                continue
            damaged += kind == "damaged"
            if spec is not None:
                if spec.uri in self.known:
                    ctx.count("already registered")
                else:
                    expected.setdefault(spec.uri, []).append(spec)
        if damaged and expected:
            ctx.count("damaged with others")
        modified = {n: os.path.getmtime(os.path.join(self.folder, n)) for n in self.files}
        self.history.append("load")
        before = len(self.server.requests)
        self.call(self.manager.load_extension_cache)
        detail = {"history": self.history[-8:]}
        ctx.check(os.path.isdir(self.folder), "the cache folder is missing after a load", **detail)
        if missing:
            ctx.count("folder created by load")
        self.loaded = True
        registered, loaded = list(self.known.values()), []
        for uri, specs in expected.items():
            e = self.manager.get_by_uri(gen.uri(self.rng, uri))
            ctx.check(e is not None, "%s was not loaded from the cache" % uri, files=sorted(self.files), **detail)
            ctx.count("loaded")
            if any(s is k[1] for s in specs for k in self.kept.values()):
                ctx.count("loaded from cache of fetch")
            match = [s for s in specs if (s.name, s.prefix) == (e.get_name(), e.get_prefix())]
            ctx.check(bool(match), "%s was loaded as %r" % (uri, e), **detail)
            c18.check_extension(ctx, e, match[0], detail)
            ctx.check(any(self.manager.get_by_index(n) is e for n in range(len(self.known), len(self.known) + len(expected))),
                      "%s has no index" % uri, **detail)
            loaded.append(e)
        loaded.sort(key=self.manager.get_index)
        for what in ("get_name", "get_prefix"):
            for e in loaded:
                value = getattr(e, what)()
                first = [o for o in registered + loaded if getattr(o, what)() == value][0]
                ctx.check(getattr(self.manager, what.replace("get_", "get_by_"))(value) is first,
                          "%r is not the first extension found by %s" % (first, what), **detail)
                if first in registered:
                    ctx.count("found behind an earlier one")
        for e in loaded:
            self.known[e.get_uri().geturl()] = e
        self.compare("a load")
        for name, when in modified.items():
            ctx.check(os.path.getmtime(os.path.join(self.folder, name)) == when, "a load touched the file " + name, **detail)

    def register(self):
        ctx, rng = self.ctx, self.rng
        waiting = [f[2] for f in self.files.values() if f[2] is not None]
        if not waiting:
            return
        spec = rng.choice(waiting)
        e = XExtension("own %d" % self.serial, "own%d-%d" % (self.i, self.serial), gen.uri(rng, spec.uri))
        ctx.count("replaced after load" if spec.uri in self.known else "registered before load")
        self.history.append(("register", spec.uri))
        self.manager.register(e)
        self.known[spec.uri] = e
        self.compare("a registration")

    def vanish(self):
        self.ctx.count("folder vanished")
        self.history.append("the folder vanishes")
        shutil.rmtree(self.folder, ignore_errors=True)
        if self.top == self.home and self.rng.random() < 0.5:
            shutil.rmtree(os.path.join(self.home, os.path.relpath(self.folder, self.home).split(os.sep)[0]), ignore_errors=True)
        self.files.clear()
        self.folders.clear()


def case(ctx, rng, i):
    world = World(ctx, rng, i)
    try:
        for _ in range(rng.randint(4, 16)):
            r = rng.random()
            if r < 0.03:
                world.unreachable()
            elif r < 0.4:
                world.fetch()
            elif r < 0.55:
                world.put()
            elif r < 0.65 and world.files:
                world.set_age(rng.choice(sorted(world.files)))
            elif r < 0.9:
                world.load()
            elif r < 0.96:
                world.register()
            else:
                world.vanish()
        world.load()
        world.load()
        if world.fetched:
            ctx.distinct(repr(world.history))
        ctx.sample(world.history[:6])
    finally:
        world.close()
        shutil.rmtree(os.path.join(ctx.scratch, "served-%d" % i), ignore_errors=True)
