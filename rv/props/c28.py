"""Log elements hold exactly what was put into them."""
import uuid
from datetime import datetime, timedelta, timezone

from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.model.XAttributeMap import XAttributeMap

from rv import gen

TECHNIQUE = "runtime monitor: histories of edits on whole families of elements compared after every step with plain lists and maps"
RULE = ("per case two logs, some traces, events and attributes of all eight types, edited through every documented way (list "
        "operations, map operations, exchanged maps, children, values, classifiers, globals, features, extensions, cached "
        "summaries), also very many elements; after every step all elements of the family are compared, object by object, with a "
        "reference of plain lists and dictionaries; non-trivial: a history with at least one replacement or removal")
ASSUMPTIONS = ["an attribute map is given to one element only, and attributes are stored under their own keys",
               "values have the type of their attribute"]
CASES = {"quick": 50000, "thorough": 1200000}
REQUIRED = ["checks", "edits", "list edits", "map edits", "child edits", "value edits", "replaced", "removed", "moved", "slices",
            "maps exchanged", "returned lists changed", "constructed with attributes", "large elements", "duplicates",
            "classifier edits", "global edits", "feature edits", "cached summaries", "identifiers", "texts", "through a view",
            "maps made from maps", "values alike"] + \
           ["kind " + k for k in gen.KIND_NAMES]


class Ref:
    """What one element is supposed to hold."""

    def __init__(self, kind, obj):
        self.kind = kind
        self.obj = obj
        self.attrs = {}
        self.members = []       # traces, events or children
        self.value = None
        self.key = self.ext = None
        self.id = None
        self.lists = {"classifiers": [], "trace globals": [], "event globals": []}
        self.features = {}
        self.extensions = []


def value_of(rng, kind, g):
    if kind == "date":
        v = g.value("date")
        return v
    if kind == "id":
        return XID(uuid.UUID(int=rng.getrandbits(128)))
    return g.value(kind)


def text_of(kind, v):
    if kind == "boolean":
        return "true" if v else "false"
    if kind == "id":
        return str(v.get_uuid()).upper()
    if kind == "date":
        return None
    return str(v)


MAKERS = {"string": XFactory.create_attribute_literal, "int": XFactory.create_attribute_discrete,
          "float": XFactory.create_attribute_continuous, "boolean": XFactory.create_attribute_boolean,
          "id": XFactory.create_attribute_id, "date": XFactory.create_attribute_timestamp}


class Family:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.g = gen.Gen(rng, nasty=rng.choice([0, 0.2]), depth=0)
        self.extensions = [XExtensionManager().get_by_index(k) for k in range(8)] + [None] * 4
        self.classifiers = [XEventNameClassifier(), XEventAttributeClassifier("one", ["a", "b"]), XEventAttributeClassifier("two", ["a"])]
        self.history = []
        self.refs = []
        self.spare = 0
        for _ in range(rng.randint(5, 12)):
            self.refs.append(self.attribute())
        for kind, n in (("event", rng.randint(2, 5)), ("trace", rng.randint(1, 3)), ("log", 2)):
            for _ in range(n):
                self.refs.append(self.element(kind))

    # making elements

    def attribute(self, key=None, stamp=False):
        rng = self.rng
        kind = rng.choice(gen.KIND_NAMES)
        self.ctx.count("kind " + kind)
        self.spare += 1
        key = key if key is not None else rng.choice(["k%d" % rng.randrange(6), self.g.key()])
        if stamp or rng.random() < 0.05:
            key, kind = "time:timestamp", "date"
        ext = rng.choice(self.extensions)
        if kind in ("list", "container"):
            make = XFactory.create_attribute_list if kind == "list" else XFactory.create_attribute_container
            r = Ref(kind, make(key, ext))
        else:
            v = value_of(rng, kind, self.g)
            if key == "time:timestamp" and kind == "date":
                v = datetime(2000, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=rng.randint(-9, 9))
            r = Ref(kind, MAKERS[kind](key, v, ext))
            r.value = v
        r.key, r.ext = key, ext
        return r

    def element(self, kind):
        rng = self.rng
        make = {"event": XFactory.create_event, "trace": XFactory.create_trace, "log": XFactory.create_log}[kind]
        if rng.random() < 0.5:
            r = Ref(kind, make())
        else:
            attributes = XFactory.create_attribute_map()
            chosen = {}
            for a in rng.sample(self.attributes(), min(len(self.attributes()), rng.randint(1, 4))):
                attributes[a.key] = a.obj
                chosen[a.key] = a.obj
            self.ctx.count("constructed with attributes")
            if kind == "event" and rng.random() < 0.5:
                identity = XID(uuid.UUID(int=rng.getrandbits(128)))
                r = Ref(kind, XFactory.create_event(attributes, identity))
                self.ctx.check(r.obj.get_id() is identity, "the identity of a new event")
            else:
                r = Ref(kind, make(attributes))
            r.attrs = chosen
        if kind == "event":
            r.id = r.obj.get_id()
            if rng.random() < 0.5:
                a = self.attribute(stamp=True)
                r.obj.get_attributes()[a.key] = r.attrs[a.key] = a.obj
        return r

    def attributes(self):
        return [r for r in self.refs if r.kind in gen.KIND_NAMES]

    def of(self, *kinds):
        return [r for r in self.refs if r.kind in kinds]

    # edits

    def step(self):
        rng, ctx = self.rng, self.ctx
        ctx.count("edits")
        r = rng.random()
        if r < 0.3:
            self.edit_list(rng.choice(self.of("log", "trace")))
        elif r < 0.6:
            self.edit_map(rng.choice(self.refs))
        elif r < 0.7:
            collections = self.of("list", "container")
            if collections:
                self.edit_children(rng.choice(collections))
        elif r < 0.82:
            valued = [a for a in self.attributes() if a.kind not in ("list", "container")]
            if valued:
                self.edit_value(rng.choice(valued))
        elif r < 0.95:
            self.edit_log(rng.choice(self.of("log")))
        else:
            e = rng.choice(self.of("event"))
            ctx.count("identifiers")
            e.id = XID(uuid.UUID(int=rng.getrandbits(128)))
            e.obj.set_id(e.id)
            self.history.append("identifier")

    def edit_list(self, r):
        rng, ctx = self.rng, self.ctx
        ctx.count("list edits")
        pool = [x.obj for x in self.of("trace" if r.kind == "log" else "event")]
        n = len(r.members)
        x = rng.choice(pool)
        if any(x is m for m in r.members):
            ctx.count("duplicates")
        op = rng.choice(["append", "append", "insert", "extend", "set", "del", "pop", "reverse", "slice", "sort", "iadd", "clear", "move"])
        self.history.append("%s %s %d" % (r.kind, op, n))
        if op == "append":
            r.obj.append(x)
            r.members.append(x)
        elif op == "insert":
            at = rng.randint(-n - 1, n + 1)
            r.obj.insert(at, x)
            r.members.insert(at, x)
        elif op in ("extend", "iadd"):
            more = rng.choices(pool, k=rng.randint(0, 3))
            if op == "extend":
                r.obj.extend(iter(more))
            else:
                o = r.obj
                o += more
                ctx.check(o is r.obj, "adding in place made another object")
            r.members.extend(more)
        elif op == "set" and n:
            at = rng.randint(-n, n - 1)
            r.obj[at] = x
            r.members[at] = x
            ctx.count("replaced")
        elif op == "del" and n:
            at = rng.randint(-n, n - 1)
            del r.obj[at]
            del r.members[at]
            ctx.count("removed")
        elif op == "pop" and n:
            at = rng.randint(-n, n - 1)
            ctx.check(r.obj.pop(at) is r.members.pop(at), "another object was taken out", history=self.history[-5:])
            ctx.count("removed")
        elif op == "reverse":
            r.obj.reverse()
            r.members.reverse()
            ctx.count("moved")
        elif op == "sort":
            order = {id(p): rng.randrange(3) for p in pool}
            r.obj.sort(key=lambda m: order[id(m)])
            r.members.sort(key=lambda m: order[id(m)])
            ctx.count("moved")
        elif op == "slice":
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            ctx.count("slices")
            part = r.obj[a:b]
            ctx.check(len(part) == b - a and all(p is q for p, q in zip(part, r.members[a:b])), "a slice", history=self.history[-5:])
            if isinstance(part, list) and part is not r.obj:
                part.append(None)
            if rng.random() < 0.5:
                more = rng.choices(pool, k=rng.randint(0, 2))
                r.obj[a:b] = more
                r.members[a:b] = more
                ctx.count("replaced")
        elif op == "clear" and rng.random() < 0.2:
            r.obj.clear()
            r.members.clear()
            ctx.count("removed")
        elif op == "move" and n:
            at = rng.randrange(n)
            to = rng.randint(0, n - 1)
            r.obj.insert(to, r.obj.pop(at))
            r.members.insert(to, r.members.pop(at))
            ctx.count("moved")

    def edit_map(self, r):
        rng, ctx = self.rng, self.ctx
        ctx.count("map edits")
        host = r.obj
        if r.kind == "event" and rng.random() < 0.2:
            ctx.count("through a view")
            host = XExtendedEvent.wrap(r.obj)
        m = host.get_attributes()
        # nesting always goes to attributes made later, so that nothing contains itself
        pool = self.attributes()
        if r.kind in gen.KIND_NAMES:
            a = self.attribute()
            if rng.random() < 0.2:
                self.refs.insert(0, a)
        else:
            a = rng.choice(pool) if rng.random() < 0.7 else self.attribute()
        keys = list(r.attrs)
        op = rng.choice(["set", "set", "set", "update", "setdefault", "del", "pop", "pop missing", "exchange", "clear", "popitem", "again"])
        self.history.append("%s map %s %d" % (r.kind, op, len(keys)))
        if op == "set":
            ctx.count("replaced", a.key in r.attrs)
            m[a.key] = a.obj
            r.attrs[a.key] = a.obj
        elif op == "update":
            more = {a.key: a.obj}
            more.update({b.key: b.obj for b in [self.attribute() for _ in range(rng.randint(0, 3))]})
            m.update(more)
            r.attrs.update(more)
        elif op == "setdefault":
            ctx.check(m.setdefault(a.key, a.obj) is r.attrs.setdefault(a.key, a.obj), "the attribute already there")
        elif op == "del" and keys:
            key = rng.choice(keys)
            del m[key]
            del r.attrs[key]
            ctx.count("removed")
        elif op == "pop" and keys:
            key = rng.choice(keys)
            ctx.check(m.pop(key) is r.attrs.pop(key), "another attribute was taken out")
            ctx.count("removed")
        elif op == "pop missing":
            ctx.check(m.pop("no such key", None) is None and m.get("no such key") is None and "no such key" not in m, "a missing key")
        elif op == "popitem" and keys:
            key = keys[-1]
            got = m.popitem()
            ctx.check(got[0] == key and got[1] is r.attrs.pop(key), "the latest attribute")
            ctx.count("removed")
        elif op == "exchange":
            ctx.count("maps exchanged")
            chosen = {}
            for b in [self.attribute() for _ in range(rng.randint(0, 3))]:
                chosen[b.key] = b.obj
            if rng.random() < 0.03:
                n = rng.choice([40, 70, 130])
                order = rng.sample(range(n), n)
                chosen.update(("m%d" % k, XFactory.create_attribute_discrete("m%d" % k, k)) for k in order)
            how = rng.random()
            if how < 0.4:
                ctx.count("maps made from maps")
                source = XAttributeMap(chosen) if rng.random() < 0.5 else dict(chosen)
                fresh = XAttributeMap(source)
                source.clear()
            else:
                fresh = XFactory.create_attribute_map()
                if how < 0.7:
                    fresh.update(list(chosen.items()))
                else:
                    for key, b in chosen.items():
                        fresh[key] = b
            host.set_attributes(fresh)
            if rng.random() < 0.5:      # the old map leads nowhere now
                m["stale"] = XFactory.create_attribute_literal("stale", "x")
            r.attrs = chosen
        elif op == "clear" and rng.random() < 0.3:
            m.clear()
            r.attrs.clear()
            ctx.count("removed")
        elif op == "again" and keys:
            key = rng.choice(keys)
            m[key] = r.attrs[key]

    def edit_children(self, r):
        rng, ctx = self.rng, self.ctx
        ctx.count("child edits")
        if rng.random() < 0.75:
            key = None
            if r.members and rng.random() < 0.4:
                key = rng.choice(r.members).get_key()
                ctx.count("duplicates")
            a = self.attribute(key)
            x = a.obj
            if r.members and rng.random() < 0.15:
                x = rng.choice(r.members)
            r.obj.add_to_collection(x)
            r.members.append(x)
            self.history.append("%s child" % r.kind)
        else:
            ctx.count("returned lists changed")
            got = r.obj.get_collection()
            if hasattr(got, "append"):
                got.append(XFactory.create_attribute_literal("stale", "x"))
                got.reverse()
                del got[:1]
            self.history.append("%s returned list changed" % r.kind)

    def edit_value(self, r):
        ctx = self.ctx
        ctx.count("value edits")
        if r.kind == "date" and self.rng.random() < 0.3:
            millis = self.rng.choice([0, -1, 999, self.rng.randint(-10**12, 10**13)])
            r.obj.set_value_millis(millis)
            r.value = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=millis)
            ctx.same(r.obj.get_value_millis(), millis, "milliseconds of a timestamp")
        else:
            r.value = value_of(self.rng, r.kind, self.g)
            if self.rng.random() < 0.2:
                r.value = self.near(r.kind, r.obj.get_value())
            if r.kind == "float" and self.rng.random() < 0.3:
                r.value = -r.obj.get_value()
                r.obj.set_value(self.rng.choice([0.0, -0.0]))
                if self.rng.random() < 0.5:
                    r.value = -r.obj.get_value()
            r.obj.set_value(r.value)
        self.history.append("%s value" % r.kind)

    def near(self, kind, v):
        """A value that is easily taken for the one before."""
        self.ctx.count("values alike")
        rng = self.rng
        if kind == "float":
            return rng.choice([-v, v, 0.0, -0.0, v + 1e-9])
        if kind == "int":
            return rng.choice([-v, v + 1, v - 1, v + 2**53, v + 2**61 - 1, 0, 1])
        if kind == "string":
            return rng.choice([v + " ", " " + v, v.upper(), v.lower(), v[:-1], v + v, "", "\u00e9", "e\u0301"])
        if kind == "date":
            try:
                return rng.choice([v.replace(fold=1 - v.fold), v + timedelta(microseconds=1), v - timedelta(microseconds=1),
                                   v.astimezone(timezone(timedelta(hours=3))) if v.tzinfo else v])
            except OverflowError:
                return v
        if kind == "id":
            return XID(uuid.UUID(int=v.get_uuid().int ^ rng.choice([0, 1, 2**127])))
        return not v

    def edit_log(self, r):
        rng, ctx = self.rng, self.ctx
        what = rng.choice(["classifiers", "trace globals", "event globals", "features", "extensions", "info"])
        self.history.append("log " + what)
        if what == "features":
            ctx.count("feature edits")
            key, value = rng.choice(["xes.version", "xes.features", "x"]), rng.choice(["1.0", "nested-attributes", ""])
            r.obj.set_features(key, value)
            r.features[key] = value
        elif what == "extensions":
            e = rng.choice(self.extensions[:8])
            if e in r.extensions:
                r.obj.get_extensions().discard(e)
                r.extensions.remove(e)
            else:
                r.obj.get_extensions().add(e)
                r.extensions.append(e)
        elif what == "info":
            ctx.count("cached summaries")
            c, info = rng.choice(self.classifiers), object()
            r.obj.set_info(c, info)
            ctx.check(r.obj.get_info(c) is info, "the summary just cached")
            for other in self.classifiers:
                if other != c:
                    ctx.check(r.obj.get_info(other) is None, "a summary of another classifier")
        else:
            ctx.count("classifier edits" if what == "classifiers" else "global edits")
            live = {"classifiers": r.obj.get_classifiers, "trace globals": r.obj.get_global_trace_attributes,
                    "event globals": r.obj.get_global_event_attributes}[what]()
            x = rng.choice(self.classifiers) if what == "classifiers" else self.attribute().obj
            if r.lists[what] and rng.random() < 0.4:
                at = rng.randrange(len(r.lists[what]))
                del live[at]
                del r.lists[what][at]
                ctx.count("removed")
            else:
                at = rng.randint(0, len(r.lists[what]))
                live.insert(at, x)
                r.lists[what].insert(at, x)

    # comparison

    def same_objects(self, actual, expected, what):
        actual = list(actual)
        if len(actual) != len(expected) or any(a is not b for a, b in zip(actual, expected)):
            self.ctx.fail("%s: got %d objects %r, expected %d objects %r" % (
                what, len(actual), [str(a)[:40] for a in actual[:8]], len(expected), [str(b)[:40] for b in expected[:8]]),
                history=self.history[-8:])
        self.ctx.count("checks")

    def compare(self):
        ctx = self.ctx
        for r in self.refs:
            m = r.obj.get_attributes()
            what = "attributes of a " + r.kind
            ctx.check(list(m) == list(r.attrs) and list(m.keys()) == list(r.attrs) and len(m) == len(r.attrs),
                      "%s: got keys %r, expected %r" % (what, list(m)[:10], list(r.attrs)[:10]), history=self.history[-8:])
            self.same_objects(m.values(), list(r.attrs.values()), what)
            for key, a in r.attrs.items():
                ctx.check(m[key] is a and m.get(key) is a and key in m, "%s by key" % what, key=key, history=self.history[-8:])
            ctx.check(m.is_empty() == (not r.attrs) and r.obj.has_attributes() == bool(r.attrs), what + ": emptiness",
                      history=self.history[-8:])
            if r.kind in ("log", "trace"):
                self.same_objects(r.obj, r.members, "members of a " + r.kind)
                ctx.check(len(r.obj) == len(r.members), "length of a " + r.kind)
                for at in range(-len(r.members), len(r.members)):
                    ctx.check(r.obj[at] is r.members[at], "member %d of a %s" % (at, r.kind), history=self.history[-8:])
                self.same_objects(reversed(r.obj), r.members[::-1], "members of a %s from the end" % r.kind)
            if r.kind == "log":
                self.same_objects(r.obj.get_classifiers(), r.lists["classifiers"], "classifiers")
                self.same_objects(r.obj.get_global_trace_attributes(), r.lists["trace globals"], "global trace attributes")
                self.same_objects(r.obj.get_global_event_attributes(), r.lists["event globals"], "global event attributes")
                ctx.same(dict(r.obj.get_features()), r.features, "features", history=self.history[-8:])
                ctx.check(set(map(id, r.obj.get_extensions())) == set(map(id, r.extensions)), "extensions of a log",
                          history=self.history[-8:])
            elif r.kind == "event":
                ctx.check(r.obj.get_id() is r.id, "the identifier of an event", history=self.history[-8:])
            elif r.kind in gen.KIND_NAMES:
                self.compare_attribute(r)

    def compare_attribute(self, r):
        ctx = self.ctx
        ctx.check(r.obj.get_key() == r.key and r.obj.get_extension() is r.ext, "key or extension of a " + r.kind,
                  history=self.history[-8:])
        if r.kind in ("list", "container"):
            self.same_objects(r.obj.get_collection(), r.members, "children of a " + r.kind)
            expected = "[" + ",".join("%s:%s" % (a.get_key(), a) for a in r.members) + "]"
            ctx.same(str(r.obj), expected, "text of a " + r.kind, history=self.history[-8:])
            ctx.count("texts")
            return
        got = r.obj.get_value()
        ctx.check(type(got) is type(r.value) and (got is r.value or got == r.value) and
                  (r.kind != "float" or repr(got) == repr(r.value)) and
                  (r.kind != "date" or got.utcoffset() == r.value.utcoffset()),
                  "the value of a %s: got %r, expected %r" % (r.kind, got, r.value), history=self.history[-8:])
        text = text_of(r.kind, r.value)
        if text is not None:
            ctx.count("texts")
            ctx.same(str(r.obj), text, "text of a " + r.kind, history=self.history[-8:])


def large(ctx, rng):
    """Very many members, attributes, children."""
    ctx.count("large elements")
    f = Family(ctx, rng)
    n = rng.choice([130, 300, 1100, 2100])
    log, trace = f.of("log")[0], f.of("trace")[0]
    for r, pool in ((log, f.of("trace")), (trace, f.of("event"))):
        for k in range(n):
            x = pool[k % len(pool)].obj
            r.obj.append(x)
            r.members.append(x)
    host = rng.choice(f.of("event", "log", "trace"))
    for k in range(n):
        a = XFactory.create_attribute_discrete("n%d" % k, k)
        host.obj.get_attributes()[a.get_key()] = a
        host.attrs[a.get_key()] = a
    collections = f.of("list", "container")
    if collections:
        r = rng.choice(collections)
        for k in range(n):
            a = XFactory.create_attribute_discrete("n%d" % (k % 7), k)
            r.obj.add_to_collection(a)
            r.members.append(a)
    f.compare()
    for _ in range(5):
        f.step()
    f.compare()


def case(ctx, rng, i):
    if i % 201 == 77:
        large(ctx, rng)
        return
    f = Family(ctx, rng)
    before = ctx.counters["removed"] + ctx.counters["replaced"]
    f.compare()
    for _ in range(rng.randint(4, 25)):
        f.step()
        f.compare()
    if ctx.counters["removed"] + ctx.counters["replaced"] > before:
        ctx.distinct(repr(f.history))
    ctx.sample(f.history[:8])
