"""System-wide services are unique, identifiers never repeat."""
import io
import random
import uuid

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension, XCostAmount, XCostDriver, XCostType
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
from opyenxes.id.XID import XID
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

from rv import fork, gen, sched, snap

TECHNIQUE = ("runtime monitor: simultaneous first requests in forked fresh processes under a seeded thread scheduler, with an "
             "online check of every instance received and of every identifier created")
RULE = ("trials in fresh processes: 2-6 threads request 1-6 services each (directly, through dependants, or by reading and writing "
        "a log), interleaved at lines or bytecodes or freely scheduled; trials that create identifiers in threads, clones, reads "
        "and definitions with reseeded random generators; oracle: object identity, type and complete content of each instance, "
        "set of all identifiers; non-trivial: a trial with at least one thread switch")
ASSUMPTIONS = ["modules are imported before the threads start"]
CASES = {"quick": 1000, "thorough": 60000}

STD = {XConceptExtension: ("concept", {"concept:name", "concept:instance"}),
       XCostExtension: ("cost", {"cost:total", "cost:currency", "cost:amount", "cost:driver", "cost:type"}),
       XIdentityExtension: ("identity", {"identity:id"}),
       XLifecycleExtension: ("lifecycle", {"lifecycle:model", "lifecycle:transition"}),
       XMicroExtension: ("micro", {"micro:level", "micro:parentId", "micro:length"}),
       XOrganizationalExtension: ("org", {"org:resource", "org:role", "org:group"}),
       XSemanticExtension: ("semantic", {"semantic:modelReference"}),
       XTimeExtension: ("time", {"time:timestamp"})}
SERVICES = list(STD) + [XFactoryRegistry, XParserRegistry, XSerializerRegistry, XExtensionManager, XGlobalAttributeNameMap,
                        XIDFactory, XCostAmount, XCostDriver, XCostType, XExtensionParser]
REQUIRED = ["checks", "trials", "thread switches", "line schedules", "bytecode schedules", "free schedules", "same first request",
            "different first requests", "used while created", "logs read", "logs written", "identifiers", "identifiers of clones",
            "identifiers of events", "identifiers of factories", "identifier texts", "reseeded", "identifiers in threads"] + \
           ["service " + s.__name__ for s in SERVICES]
LINES = "<log><extension prefix='concept' uri='http://www.xes-standard.org/concept.xesext'/><trace><event>" \
        "<string key='concept:name' value='a'/><string key='org:resource' value='b'/><float key='cost:total' value='1.5'/>" \
        "</event></trace></log>"


def complete(service, x):
    """Why an instance received is not fully usable, or None."""
    if type(x) is not service:
        return "a %s instead of a %s" % (type(x).__name__, service.__name__)
    if service in STD:
        prefix, keys = STD[service]
        name, uri = gen.STD[prefix]
        if (x.get_name(), x.get_prefix(), x.get_uri().geturl()) != (name, prefix, uri):
            return "name, prefix or URI"
        levels = set().union(*(getattr(x, "get_%s_attributes" % n)() for n in ("log", "trace", "event", "meta")))
        if {a.get_key() for a in levels} != keys:
            return "defined attributes %s" % sorted(a.get_key() for a in levels)
        if {getattr(x, n).get_key() for n in dir(x) if n.startswith("ATTR_")} != keys:
            return "attribute constants %s" % sorted(n for n in dir(x) if n.startswith("ATTR_"))
        for a in levels:
            if a.get_extension() is not x:
                return "an attribute of another extension"
        for key in keys:
            if XGlobalAttributeNameMap().get_mapping("EN").map(key) is None:
                return "no English name for " + key
    elif service is XFactoryRegistry:
        if type(x.current_default()) is not XFactory or len(x.get_available()) != 1:
            return "factories %r, default %r" % (x.get_available(), x.current_default())
    elif service in (XParserRegistry, XSerializerRegistry):
        if len(x.get_available()) != 4 or "GZIP" not in type(x.current_default()).__name__ or x.current_default() not in x:
            return "instances %r, default %r" % (x.get_available(), x.current_default())
    elif service is XExtensionManager:
        for prefix, (name, uri) in gen.STD.items():
            e = x.get_by_prefix(prefix)
            if e is None or e.get_name() != name or x.get_by_index(x.get_index(e)) is not e:
                return "extension " + prefix
        if x.get_by_index(7) is None or x.get_by_index(8) is not None:
            return "number of extensions"
    elif service is XGlobalAttributeNameMap:
        if x.map_safely("no such key", "EN") != "no such key" or x.get_standard_mapping() is not x.get_mapping("EN"):
            return "mapping"
    elif service is XIDFactory:
        if not isinstance(x.create_id(), XID):
            return "identifiers"
    elif service in (XCostAmount, XCostDriver, XCostType):
        event = XFactory.create_event()
        value = 1.5 if service is XCostAmount else "v"
        x.assign_nested_values(event, {("a", "b"): value})
        if x.extract_nested_values(event) != {("a", "b"): value}:
            return "nested values"
    elif service is XExtensionParser and not callable(x.parse):
        return "parse"
    return None


def setup(ctx):
    ctx.state["ids"] = set()


def case(ctx, rng, i):
    if i % 4 == 3:
        identifiers(ctx, rng, i)
        return
    plan = make_plan(ctx, rng)
    ctx.sample({"mode": plan["mode"], "threads": [[getattr(s, "__name__", s) for s in t] for t in plan["threads"]]})
    fork.trial(ctx, lambda c: run_plan(c, plan))


def make_plan(ctx, rng):
    n = rng.choice([2, 2, 2, 3, 3, 4, 6])
    focus = rng.choice(SERVICES)
    style = rng.choice(["same", "same", "mixed", "mixed", "dependants"])
    threads = []
    for _ in range(n):
        if style == "same":
            wanted = [focus] + [rng.choice(SERVICES) for _ in range(rng.choice([0, 0, 1]))]
        elif style == "mixed":
            wanted = [rng.choice(SERVICES + ["read", "write"]) for _ in range(rng.randint(1, 5))]
        else:
            wanted = [rng.choice([XExtensionManager, XFactoryRegistry, XGlobalAttributeNameMap, XConceptExtension, XCostExtension,
                                  XCostAmount, "read", "write", XParserRegistry]) for _ in range(rng.randint(1, 3))]
        threads.append(wanted)
    mode = rng.choice(["line", "line", "bytecode", "bytecode", "free"])
    return {"threads": threads, "mode": mode, "seed": rng.getrandbits(30), "chance": rng.choice([0.02, 0.1, 0.3, 0.6]),
            "style": style}


def run_plan(ctx, plan):
    ctx.count("trials")
    ctx.count(plan["mode"] + " schedules")
    firsts = [t[0] for t in plan["threads"]]
    ctx.count("same first request" if len(set(firsts)) < len(firsts) else "different first requests")

    def body(wanted):
        got = []
        for s in wanted:
            if s == "read":
                log = XesXmlParser().parse(io.BytesIO(LINES.encode()))[0]
                attributes = log[0][0].get_attributes()
                problem = None
                found = {k: getattr(a.get_extension(), "get_prefix", str)() for k, a in attributes.items()}
                if found != {"concept:name": "concept", "org:resource": "org", "cost:total": "cost"}:
                    problem = "a log read has the extensions %r" % found
                elif [e.get_prefix() for e in log.get_extensions()] != ["concept"]:
                    problem = "a log read declares %r" % [e.get_prefix() for e in log.get_extensions()]
                got.append(("read", None, problem))
            elif s == "write":
                log = XFactory.create_log()
                XConceptExtension().assign_name(log, "n")
                log.get_extensions().add(XExtensionManager().get_by_prefix("concept"))
                out = io.BytesIO()
                XesXmlSerializer().serialize(log, out, True)
                text = out.getvalue()
                problem = None if b"concept.xesext" in text and b'value="n"' in text else "a written log lacks its content"
                got.append(("write", None, problem))
            else:
                x = s()
                got.append((s, x, complete(s, x)))
        return got
    jobs = [lambda w=w: body(w) for w in plan["threads"]]
    detail = {"threads": [[getattr(s, "__name__", s) for s in t] for t in plan["threads"]], "mode": plan["mode"]}
    try:
        if plan["mode"] == "free":
            results = sched.free(jobs)
        else:
            baton = sched.Baton(plan["seed"], plan["chance"], opcodes=plan["mode"] == "bytecode")
            results = baton.run(jobs)
            ctx.count("thread switches", baton.switches)
            if baton.switches:
                ctx.distinct("%s %s" % (detail, baton.trail))
    except sched.Stuck as error:
        ctx.fail("threads that request services at the same time never finish: %s" % error, **detail)
    received = {}
    for ok, got in results:
        ctx.check(ok, "a request failed: %r" % (got,), **detail)
        for s, x, problem in got:
            name = getattr(s, "__name__", s)
            ctx.check(problem is None, "%s: not fully initialised when received: %s" % (name, problem), **detail)
            ctx.count("used while created")
            if x is None:
                ctx.count("logs read" if s == "read" else "logs written")
                continue
            ctx.count("service " + name)
            ctx.check(received.setdefault(s, x) is x, "%s: two threads received different instances" % name, **detail)
    later = {}
    for s in SERVICES:
        x = s()
        ctx.check(s not in received or received[s] is x, "%s: a later request gives another instance" % s.__name__, **detail)
        problem = complete(s, x)
        ctx.check(problem is None, "%s: not complete afterwards: %s" % (s.__name__, problem), **detail)
        for other, y in later.items():
            ctx.check(x is not y, "%s and %s are the same instance" % (s.__name__, other.__name__), **detail)
        later[s] = x
        ctx.check(s() is x, "%s: a repeated request gives another instance" % s.__name__, **detail)
    for prefix, service in ((p, s) for s, (p, _) in STD.items()):
        ctx.check(XExtensionManager().get_by_prefix(prefix) is later[service], "the manager knows another %s extension" % prefix,
                  **detail)


def identifiers(ctx, rng, i):
    """Identifiers of one process, kept in one growing set."""
    seen = ctx.state["ids"]
    log = gen.build_log(gen.Gen(rng, nasty=0, depth=1).log("small"))
    definition = ("<xesextension name='n' prefix='p' uri='urn:p'><event><id key='a'/><id key='b'/></event></xesextension>")
    path = ctx.scratch + "/ids.xesext"
    with open(path, "w") as f:
        f.write(definition)
    seed = rng.random() < 0.7
    numbers = rng.getrandbits(16)

    def body(actions):
        out = []
        for action in actions:
            if seed:
                random.seed(numbers)
            if action == "factory":
                out += [("factories", XIDFactory.create_id() if len(out) % 2 else XIDFactory().create_id())]
            elif action == "plain":
                out += [("factories", XID())]
            elif action == "event":
                out += [("events", XFactory.create_event().get_id()),
                        ("events", XFactory.create_event(gen.build_map([gen.A("k", "string", "v")])).get_id())]
            elif action == "clone":
                out += [("clones", e.get_id()) for t in log.clone() for e in t]
                out += [("clones", e.clone().get_id()) for t in list(log)[:2] for e in list(t)[:2]]
            elif action == "read":
                out += [("events", e.get_id()) for t in XesXmlParser().parse(io.BytesIO(LINES.encode()))[0] for e in t]
            elif action == "definition":
                e = XExtensionParser.parse(path)
                out += [("factories", a.get_value()) for a in e.get_event_attributes()]
        return out
    kinds = ["factory", "plain", "event", "clone", "read", "definition"]
    jobs = [[rng.choice(kinds) for _ in range(rng.randint(3, 12))] for _ in range(rng.randint(1, 4))]
    if seed:
        ctx.count("reseeded")
    before = random.getstate()
    try:
        if len(jobs) == 1:
            results = [(True, body(jobs[0]))]
        elif rng.random() < 0.3:
            ctx.count("identifiers in threads")
            results = sched.free([lambda j=j: body(j) for j in jobs])
        else:
            ctx.count("identifiers in threads")
            baton = sched.Baton(rng.getrandbits(30), rng.choice([0.05, 0.3]), opcodes=rng.random() < 0.5)
            results = baton.run([lambda j=j: body(j) for j in jobs])
            ctx.count("thread switches", baton.switches)
            ctx.distinct("%s %s" % (jobs, baton.trail))
    finally:
        random.setstate(before)
    for t in log:
        for e in t:
            results.append((True, [("events", e.get_id())]))
    for ok, found in results:
        ctx.check(ok, "creating identifiers failed: %r" % (found,))
        for kind, x in found:
            ctx.count("identifiers")
            ctx.count("identifiers of " + kind)
            number = x.get_uuid().int
            ctx.check(number not in seen, "an identifier appeared twice: %s" % x, kind=kind, jobs=jobs, reseeded=seed)
            seen.add(number)
    texts(ctx, rng, [x for _, found in results for _, x in found[:3]] + [given(ctx, rng) for _ in range(5)])


def given(ctx, rng):
    """An identifier built from a given UUID, the nil UUID included."""
    number = gen.uid(rng)
    made = XID(number)
    ctx.check(made.get_uuid() == number and uuid.UUID(str(made)) == number, "an identifier does not have the given UUID",
              given=number, got=made.get_uuid())
    made = XID()
    made.set_uuid(number)
    ctx.check(made.get_uuid() == number, "an identifier does not have the UUID that was set", given=number)
    return made


def texts(ctx, rng, found):
    for x in found:
        ctx.count("identifier texts")
        text = str(x)
        for form in (text, text.upper(), text.lower(), "".join(rng.choice([c.upper(), c.lower()]) for c in text)):
            y = XID.parse(form)
            ctx.check(isinstance(y, XID) and y == x and x == y and hash(x) == hash(y) and y.get_uuid() == x.get_uuid() and
                      not (x != y) and x.compare_to(y) == 0, "the text %s reads as another identifier" % form, identifier=text,
                      read=str(y))
            ctx.same(str(y), text, "the text of an identifier that was read")
        ctx.check(uuid.UUID(text) == x.get_uuid(), "the text of an identifier is not its UUID")
