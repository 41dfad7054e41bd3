"""Compression and the choice of the reader by file name are transparent."""
import gzip
import io
import os
import shutil
import string

from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer

from rv import gen, snap

RULE = ("random logs, some of several mebibytes, written plain and compressed as XES and MXML under names made of random directories, links, bases and "
        "advertised suffixes in random letter case; oracles: gzip.decompress against the plain writer's bytes, the "
        "log read from the plain file, a table of suffixes and formats, refusal of other names and of content of the "
        "other format, with further readers registered, some unable to read; non-trivial: log with at least one trace, or a distinct name")
ASSUMPTIONS = ["the base name before the suffix is not empty", "attributes under standard keys have the standard type"]
CASES = {"quick": 8000, "thorough": 80000}
REQUIRED = ["checks", "files xml", "files xes", "files xes.gz", "files xez", "files mxml", "files mxml.gz", "names refused", "names asked in a row",
            "files of the other format", "extra registrations", "unable readers registered", "advertised suffixes", "relative names", "names through a link", "huge logs"]

SUFFIX = {"xes": ("xes", False), "xes.gz": ("xes", True), "xez": ("xes", True),
          "mxml": ("mxml", False), "mxml.gz": ("mxml", True)}
PARSERS = {("xes", False): XesXmlParser, ("xes", True): XesXmlGZIPParser,
           ("mxml", False): XMxmlParser, ("mxml", True): XMxmlGZIPParser}
PLAIN = {"xes": XesXmlSerializer, "mxml": XMxmlSerializer}
PACKED = {"xes": XesXmlGZIPSerializer, "mxml": XMxmlGZIPSerializer}
REFUSED = ["log.txt", "log", "xes", "logxes", "log.xes.bak", "log.gz", "a.xesx", "log.xes.zip", "log.mxml.bz2", "log.xe",
           "log.es", "log.mxm", "log.xes.g", "log.mxmlgz", "log.xesgz", "a.xes.gz.txt", "dir.xes/log", "dir.mxml/file.txt",
           "log.xes ", "log.xes~", "log.xesext", "log.csv", "log.mxml.gzip", "logmxml", "a.xez.gz", "b.x.e.s", "mxml",
           "log.json", "x.ez", "log.xez.bak", "log.xm", "log.gz.xe", "log.xes.", "log_xes", "log,mxml", "l.xes.tar.gz"]


def setup(ctx):
    gen.register_custom()
    os.environ["HOME"] = os.path.join(ctx.scratch, "home")
    advertised = set()
    for serializer in XSerializerRegistry().get_available():
        for suffix in serializer.get_suffices():
            advertised.add(suffix)
            SUFFIX.setdefault(suffix, ("mxml" if isinstance(serializer, XMxmlSerializer) else "xes",
                                       isinstance(serializer, (XesXmlGZIPSerializer, XMxmlGZIPSerializer))))
    ctx.count("advertised suffixes", len(advertised))
    ctx.check({"xes", "xes.gz", "xez", "mxml", "mxml.gz"} <= advertised, "a writer for each format is registered", got=sorted(advertised))
    ctx.state["suffixes"] = sorted(advertised) + ["xml"]
    SUFFIX["xml"] = ("mxml", False)


def any_case(rng, text):
    style = rng.random()
    if style < 0.4:
        return text
    if style < 0.6:
        return text.upper()
    if style < 0.7:
        return text.title()
    return "".join(rng.choice([c.lower(), c.upper()]) for c in text)


def base_name(rng):
    return rng.choice(["log", "a", "My Log", "a.xes", "b.mxml", "c.gz", "x.xes.gz", "y.mxml.gz", "no.xez", "log.xml", "1",
                       "päth", "日本", "a b.c", ".hidden", "xes", "mxml", "gz", "log.txt", "-", "100%", "..a", "X.XES",
                       "".join(rng.choice(string.ascii_letters + "._- ") for _ in range(rng.randint(1, 20))) + "z"])


def file_name(ctx, rng, suffix):
    folder = rng.choice(["", "", "", "d", "sub.xes", "sub.mxml", "a.gz", "X Y", " lead", "~", "$HOME", "%41", "[a-z]", "tail "])
    name = rng.choice(["", "", "", "", " ", "~", "\u00a0"]) + base_name(rng) + "." + any_case(rng, suffix)
    if folder:
        os.makedirs(os.path.join(ctx.scratch, folder), exist_ok=True)
    path = os.path.join(ctx.scratch, folder, name)
    if rng.random() < 0.08:
        # through a link to a folder, where ".." does not undo the step before it
        os.makedirs(os.path.join(ctx.scratch, "deep", "er"), exist_ok=True)
        if not os.path.islink(os.path.join(ctx.scratch, "link")):
            os.symlink(os.path.join("deep", "er"), os.path.join(ctx.scratch, "link"))
        path = os.path.join(ctx.scratch, "link", rng.choice(["..", ".", "../er", "../../link/.."]), name)
        ctx.count("names through a link")
    if rng.random() < 0.4:
        ctx.count("relative names")
        return path[len(ctx.scratch) + 1:]
    return path


def opened(rng, path, packed):
    if rng.random() < 0.5:
        return open(path, "rb")
    return open(path, encoding="latin-1" if packed else "utf-8", errors="strict")


def outcome(parse):
    """The logs a parse gives, or None where it raises an error."""
    try:
        return parse()
    except Exception:
        return None


class Unable(XesXmlParser):
    """A registered reader that accepts the known names but reads nothing."""

    def can_parse(self, file):
        return any(cls().can_parse(file) for cls in PARSERS.values())

    def parse(self, file):
        raise ValueError("unable")


def asked_again(ctx, rng):
    """Readers that live on are asked for many names in a row."""
    kept = ctx.state.setdefault("kept", {key: cls() for key, cls in PARSERS.items()})
    for key, reader in rng.sample(sorted(kept.items()), 2):
        for _ in range(rng.randint(3, 12)):
            if rng.random() < 0.7:
                suffix = rng.choice(sorted(SUFFIX))
                name = base_name(rng) + "." + any_case(rng, suffix)
                expected = SUFFIX[suffix] == key
            else:
                name, expected = rng.choice(REFUSED), False
            ctx.same(bool(reader.can_parse(name)), expected, "%s on %r" % (type(reader).__name__, name))
            ctx.same(bool(XUniversalParser.can_parse(name)), name not in REFUSED, "the universal reader on %r" % name)
            ctx.count("names asked in a row")


def extra_registrations(ctx, rng):
    if ctx.state.get("extra", 0) < 10:
        ctx.state["extra"] = ctx.state.get("extra", 0) + 1
        order = list(PARSERS.values())
        rng.shuffle(order)
        for cls in order[:rng.randint(1, 4)]:
            if rng.random() < 0.8:
                XParserRegistry().register(cls())
            else:
                XParserRegistry().set_current_default(cls())
            ctx.count("extra registrations")
        if rng.random() < 0.5:
            XParserRegistry().register(Unable())
            ctx.count("unable readers registered")


def case(ctx, rng, i):
    earlier = os.getcwd()
    os.chdir(ctx.scratch)               # relative names may start with anything
    try:
        one_case(ctx, rng, i)
    finally:
        os.chdir(earlier)


def one_case(ctx, rng, i):
    for name in os.listdir(ctx.scratch):
        path = os.path.join(ctx.scratch, name)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.remove(path)
    if i // 8 % 10 == 9:
        extra_registrations(ctx, rng)
    asked_again(ctx, rng)
    g = gen.Gen(rng, std_typed=True, nasty=rng.choice([0, 0.1, 0.4]), finite=True)
    if i % 397 == 23:
        # "texts" of 4200 units is more than six mebibytes
        spec = g.huge(["texts", "events", "attributes", "traces"][i // 397 % 4], rng.choice([2100, 4200]) if ctx.quick else rng.choice([2100, 4200, 25000]))
        ctx.count("huge logs")
    else:
        spec = g.log(rng.choice(["empty", "tiny", "small", "small", "medium"]))
    if spec.traces:
        ctx.distinct(repr(spec)[:5000])
    log = gen.build_log(spec)
    suffix = rng.choice([s for s in ctx.state["suffixes"]])
    fmt, packed = SUFFIX[suffix]
    ctx.count("files " + suffix)
    plain = io.BytesIO()
    PLAIN[fmt]().serialize(log, plain, True)
    plain = plain.getvalue()
    path = file_name(ctx, rng, suffix)
    ctx.distinct(path)
    if packed:
        PACKED[fmt]().serialize(log, open(path, rng.choice(["w", "wb"])))
        with open(path, "rb") as f:
            data = f.read()
        try:
            content = gzip.decompress(data)
        except Exception as error:
            ctx.fail("the compressed file is not a gzip file: %r" % error)
        ctx.same(content, plain, "content of the compressed %s file" % fmt)
    else:
        with open(path, "wb") as f:
            f.write(plain)
    reference = PARSERS[(fmt, False)]().parse(io.BytesIO(plain))
    expected = [snap.log(x, ms=False, features=True) for x in reference]
    ctx.same(len(expected), 1, "number of logs in a written file")
    # the readers that accept the name
    for (f, p), cls in PARSERS.items():
        if (f, p) == (fmt, packed):
            ctx.check(cls().can_parse(path), "the reader for %s accepts %r" % (suffix, path))
        else:
            ctx.check(not cls().can_parse(path), "the reader for another format accepts %r" % path, reader=cls.__name__)
    ctx.check(XUniversalParser().can_parse(path) is True, "the universal reader accepts %r" % path)
    handle = opened(rng, path, packed)
    try:
        logs = XUniversalParser().parse(handle)
    except Exception as error:
        ctx.fail("the universal reader does not read %r: %r" % (path, error))
    finally:
        handle.close()
    ctx.same([snap.log(x, ms=False, features=True) for x in logs], expected, "universal reader on %r" % path)
    if packed:
        handle = opened(rng, path, packed)
        logs = PARSERS[(fmt, True)]().parse(handle)
        handle.close()
        ctx.same([snap.log(x, ms=False, features=True) for x in logs], expected, "compressed %s" % fmt)
    wrong_content(ctx, rng, log, fmt, plain)
    refused(ctx, rng, plain)
    ctx.sample({"name": path, "log": repr(spec)[:300]})


def wrong_content(ctx, rng, log, fmt, plain):
    other = rng.choice([s for s in SUFFIX if SUFFIX[s][0] != fmt])
    ofmt, opacked = SUFFIX[other]
    path = file_name(ctx, rng, other)
    with open(path, "wb") as f:
        f.write(gzip.compress(plain) if opacked else plain)
    ctx.count("files of the other format")
    for parser in (XUniversalParser(), PARSERS[(ofmt, opacked)]()):
        with open(path, "rb") as handle:
            result = outcome(lambda: parser.parse(handle))
        ctx.check(result is None or len(result) == 0, "%s content under the name %r is read as %r" % (
            fmt, path, result if result is None else len(result)), reader=type(parser).__name__)
    # compressed content under a plain name and plain content under a compressed name
    suffix = rng.choice([s for s in SUFFIX if SUFFIX[s][0] == fmt])
    path = file_name(ctx, rng, suffix)
    with open(path, "wb") as f:
        f.write(plain if SUFFIX[suffix][1] else gzip.compress(plain))
    with open(path, "rb") as handle:
        result = outcome(lambda: XUniversalParser().parse(handle))
    ctx.check(result is None, "%s content of the other compression under %r is read" % (fmt, path))
    ctx.count("files of the other format")


def refused(ctx, rng, plain):
    name = rng.choice(REFUSED)
    if rng.random() < 0.3:
        name = base_name(rng) + rng.choice([".txt", ".xes.old", ".dat", ".xesz", ".mxm", ".xes.gzz", ".zip", "_xes", ".log"])
    if rng.random() < 0.3:
        name = any_case(rng, name)
    ctx.count("names refused")
    ctx.distinct(name)
    ctx.check(not XUniversalParser().can_parse(name), "the name %r is accepted" % name)
    path = os.path.join(ctx.scratch, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.isdir(path):
        return
    with open(path, "wb") as f:
        f.write(plain)
    with open(path, "rb") as handle:
        result = outcome(lambda: XUniversalParser().parse(handle))
    ctx.check(result is None, "a file called %r is read" % name)
