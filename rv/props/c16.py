"""Nested cost values form a faithful tree."""
import io

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.std.XCostExtension import XCostExtension, XCostAmount, XCostDriver, XCostType

from rv import gen, snap, xesdoc

TECHNIQUE = "runtime monitor: nested cost assignments and extractions compared with a reference attribute tree"
RULE = ("random logs (some with thousands of elements) (built, read from documents, cloned) whose traces and events get 2-10 batches of nested and one-level cost "
        "amounts, drivers and types over shared, overlapping and existing paths of depth 1-7, interleaved with extractions; "
        "oracle: reference tree of attributes with object identities, and path maps computed from it; non-trivial: case with at "
        "least one path of two or more keys")
ASSUMPTIONS = ["cost attributes have the standard type", "keys of a path are not the cost keys themselves"]
CASES = {"quick": 15000, "thorough": 150000}
REQUIRED = ["checks", "amounts", "drivers", "types", "nested assignments", "flat assignments", "created attributes",
            "existing attributes on paths", "overwritten values", "paths through collections", "deep paths", "direct helpers",
            "cost read from documents", "after a round trip", "several kinds at one place", "cloned", "empty assignments",
            "paths nested in paths", "huge assignments"]

NAMES = {"amounts": ("cost:amount", "float", XCostAmount), "drivers": ("cost:driver", "string", XCostDriver),
         "types": ("cost:type", "string", XCostType)}
COST = gen.STD["cost"][1]


def setup(ctx):
    gen.register_custom()


class Node:
    """Reference attribute: attribute maps and collections share nodes as the library shares objects."""

    def __init__(self, key, kind, value, ext, obj=None):
        self.key, self.kind, self.value, self.ext, self.obj = key, kind, value, ext, obj
        self.coll, self.map = None, {}

    def render(self):
        out = [self.key, self.kind, self.value, self.ext]
        if self.kind == "list":
            out.append([n.render() for n in self.coll])
        elif self.kind == "container":
            out.append(sorted((n.render() for n in self.coll), key=repr))
        out.append({k: n.render() for k, n in self.map.items()})
        return out


def of_object(a, memo):
    if id(a) in memo:
        return memo[id(a)]
    ext = a.get_extension()
    node = memo[id(a)] = Node(a.get_key(), snap.kind(a), snap.value_of(a, False), None if ext is None else ext.get_uri().geturl(), a)
    if node.kind in ("list", "container"):
        node.coll = [of_object(b, memo) for b in a.get_collection()]
    for key, b in a.get_attributes().items():
        node.map[key] = of_object(b, memo)
    return node


def of_element(e):
    memo = {}
    return {k: of_object(a, memo) for k, a in e.get_attributes().items()}


def of_spec(attrs):
    """Reference tree of a document's attributes, independent of what the library read."""
    out = {}
    for a in attrs:
        node = Node(a.key, a.kind, gen.canon_value(a, False), a.ext)
        if a.kind in ("list", "container"):
            node.coll = [list(of_spec([k]).values())[0] for k in a.kids]
            node.map = {n.key: n for n in node.coll}
        else:
            node.map = of_spec(a.kids)
        out[a.key] = node
    return out


def paths_of(tree, key):
    """{path: value} of one kind of cost in a tree."""
    out = {}
    stack = [((k,), n) for k, n in tree.items()]
    while stack:
        path, node = stack.pop()
        if key in node.map:
            out[path] = node.map[key].value
        stack.extend((path + (k,), n) for k, n in node.map.items())
    return out


def add_costs(rng, attrs, chance, depth=0):
    """Cost attributes below the attributes of a specification."""
    n = 0
    for a in attrs:
        n += add_costs(rng, a.kids, chance, depth + 1)
        if a.key.startswith("cost:"):
            continue
        for name, (key, kind, _) in NAMES.items():
            if rng.random() < chance and all(k.key != key for k in a.kids):
                a.kids.insert(rng.randint(0, len(a.kids)), gen.A(key, kind, read_value(rng, name), COST))
                n += 1
    return n


def value(rng, name):
    if name == "amounts":
        return rng.choice([0.01, 1.0, 12.5, 1e-300, 1e300, 5e-324, 99999999.99, rng.random() + 1e-9])
    for _ in range(10):
        t = gen.text(rng, empty=False)
        if t.strip():
            return t
    return "d"


def read_value(rng, name):
    """A value that documents may hold but assignments ignore."""
    if rng.random() < 0.25:
        return rng.choice([0.0, -0.0, -1.0, -1e-300]) if name == "amounts" else rng.choice(["", " ", "None", "0"])
    return value(rng, name)


def case(ctx, rng, i):
    through = rng.random() < 0.6      # collections on paths (their attribute maps have no place in documents)
    kinds = gen.KIND_NAMES if through else [k for k in gen.KIND_NAMES if k not in ("list", "container")]
    g = gen.Gen(rng, std_typed=True, finite=True, nasty=0.1, depth=3, kinds=kinds)
    spec = gen.L()
    spec.attrs = g.attributes(2)
    spec.traces = [g.trace(rng.randint(1, 2)), g.trace(1)]
    read = rng.random() < 0.4
    n = 0
    if read or rng.random() < 0.5:
        for attrs in spec.all_attribute_lists():
            n += add_costs(rng, attrs, rng.choice([0.1, 0.5]))
    if read:
        data, text = xesdoc.Doc(rng, spec, dict(gen.STD, **gen.CUSTOM)).document()
        log = XesXmlParser().parse(io.BytesIO(data))[0]
        ctx.count("cost read from documents", n)
        for t, (attrs, events) in zip(log, spec.traces):
            extract_all(ctx, rng, t, of_spec(attrs), {"document": text})
            for e, event in zip(t, events):
                extract_all(ctx, rng, e, of_spec(event), {"document": text})
    else:
        log = gen.build_log(spec, style=rng.randint(0, 1))
    if rng.random() < 0.2:
        log = log.clone()
        ctx.count("cloned")
    elements = list(log) + [e for t in log for e in t]
    trees = [of_element(e) for e in elements]
    history, nontrivial = [], n > 0
    batches = 1 if not elements else rng.randint(2, 10)
    for _ in range(batches if elements else 0):
        k = rng.randrange(len(elements))
        if rng.random() < 0.25:
            extract_all(ctx, rng, elements[k], trees[k], {"history": history})
            continue
        nontrivial |= assign(ctx, rng, elements[k], trees[k], history)
        for e, t in zip(elements, trees):
            same_tree(ctx, e, t, history)
        extract_all(ctx, rng, elements[k], trees[k], {"history": history})
    if elements and not through and rng.random() < 0.5:
        out = io.BytesIO()
        XesXmlSerializer().serialize(log, out, True)
        again = XesXmlParser().parse(io.BytesIO(out.getvalue()))[0]
        ctx.count("after a round trip")
        for e, t in zip(list(again) + [e for t in again for e in t], trees):
            extract_all(ctx, rng, e, t, {"history": history})
    if nontrivial:
        ctx.distinct(repr(spec) + repr(history))
    ctx.sample(repr(history[:4]))


def rendered(tree):
    return {k: n.render() for k, n in tree.items()}


def same_tree(ctx, element, tree, history):
    ctx.same(snap.attrs(element.get_attributes(), False, maps=True), rendered(tree), "the attributes after assigning costs",
             history=history[-3:])
    stack = [(element.get_attributes(), tree)]
    seen = set()
    while stack:
        mapping, nodes = stack.pop()
        if list(mapping) != list(nodes):
            ctx.check([k for k in mapping if nodes[k].obj is not None] == [k for k in nodes if nodes[k].obj is not None],
                      "the order of existing attributes changed", history=history[-3:])
        for key, node in nodes.items():
            a = mapping[key]
            if node.obj is None:
                node.obj = a
            else:
                ctx.check(node.obj is a, "the attribute %r was replaced by another object" % key, history=history[-3:])
            if id(node) not in seen:
                seen.add(id(node))
                stack.append((a.get_attributes(), node.map))


def pick_path(ctx, rng, tree, used):
    """A path that may follow existing attributes, extend an earlier path or be new."""
    if used and rng.random() < 0.3:
        base = rng.choice(used)
        cut = rng.randint(0, len(base))
        path = list(base[:cut])
    else:
        path = []
        nodes = tree
        while nodes and rng.random() < 0.7:
            keys = [k for k in nodes if not k.startswith("cost:")]
            if not keys:
                break
            path.append(rng.choice(keys))
            nodes = nodes[path[-1]].map
    extra = rng.choice([0, 0, 1, 1, 2, 3, 5]) if path else rng.choice([1, 1, 1, 2, 3, 7])
    pool = ["a", "b", "c", "a", "b", "aa", "", "concept:name", "holder"]
    if len(path) > 1 and rng.random() < 0.15:       # the same keys, otherwise divided
        n = rng.randrange(len(path) - 1)
        path[n:n + 2] = [path[n] + rng.choice(["", "/", ".", ":", ",", " ", "|", ", ", "\\", "\n", "', '"]) + path[n + 1]]
    for _ in range(extra):
        path.append(rng.choice(pool) if rng.random() < 0.8 else gen.key_text(rng, 0.5))
    path = [k for k in path if not k.startswith("cost:")]
    return tuple(path) or ("a",)


def assign(ctx, rng, element, tree, history):
    name = rng.choice(list(NAMES))
    key, kind, helper = NAMES[name]
    flat = rng.random() < 0.3
    used = list(paths_of(tree, key)) + [p for p in paths_of(tree, "cost:amount")]
    used = [p for p in used if not any(k.startswith("cost:") for k in p)]
    values = {}
    many = rng.random() < 0.001
    if many:
        ctx.count("huge assignments")
        used = used[:20]
        deep = tuple("level %d" % n for n in range(rng.choice([3, 60])))
        for n in range(1100):
            values[deep[:n % 7 * len(deep) // 6] + ("child %d" % n,)] = value(rng, name)
        if rng.random() < 0.5:
            values[deep] = value(rng, name)
        if flat:
            values = {("child %d" % n,): v for n, v in enumerate(values.values())}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        path = pick_path(ctx, rng, tree, used)
        if flat:
            path = path[:1]
        values[path] = value(rng, name)
        used.append(path)
    given = {p[0]: v for p, v in values.items()} if flat else dict(values)
    if not values:
        ctx.count("empty assignments")
    ctx.count(name, len(values))
    ctx.count("flat assignments" if flat else "nested assignments")
    history.append((name, "flat" if flat else "nested", dict(given)))
    copy = dict(given)
    if rng.random() < 0.3:
        ctx.count("direct helpers")
        (helper().assign_values if flat else helper().assign_nested_values)(element, given)
    else:
        getattr(XCostExtension(), "assign_" + ("" if flat else "nested_") + name)(element, given)
    ctx.check(given == copy, "the given values were changed")
    for path in values:
        if any(path != p and path == p[:len(path)] for p in values):
            ctx.count("paths nested in paths")
        if len(path) > 4:
            ctx.count("deep paths")
    for path, v in values.items():
        nodes, node = tree, None
        for k in path:
            if k not in nodes:
                nodes[k] = Node(k, "string", "", None)
                ctx.count("created attributes")
            else:
                ctx.count("existing attributes on paths")
            node = nodes[k]
            if node.kind in ("list", "container"):
                ctx.count("paths through collections")
            nodes = node.map
        if key in node.map:
            ctx.count("overwritten values")
            node.map[key] = fresh(node.map, key, kind, v)
        else:
            node.map[key] = fresh(node.map, key, kind, v)
        if sum(k in node.map for k, _, _ in NAMES.values()) > 1:
            ctx.count("several kinds at one place")
    return any(len(p) > 1 for p in values)


def fresh(mapping, key, kind, v):
    return Node(key, kind, snap.float_value(v) if kind == "float" else v, COST)


def extract_all(ctx, rng, element, tree, detail):
    before = snap.attrs(element.get_attributes(), False, maps=True)
    for name in rng.sample(list(NAMES), rng.randint(1, 3)):
        key, kind, helper = NAMES[name]
        expected = paths_of(tree, key)
        nested = (helper().extract_nested_values(element) if rng.random() < 0.3
                  else getattr(XCostExtension(), "extract_nested_" + name)(element))
        ctx.check(isinstance(nested, dict), "nested values are not a map")
        form = {p: snap.float_value(v) if kind == "float" else v for p, v in nested.items()}
        ctx.same(form, expected, "extracted nested " + name, **detail)
        direct = (helper().extract_values(element) if rng.random() < 0.3
                  else getattr(XCostExtension(), "extract_" + name)(element))
        form = {p: snap.float_value(v) if kind == "float" else v for p, v in direct.items()}
        ctx.same(form, {p[0]: v for p, v in expected.items() if len(p) == 1}, "extracted " + name, **detail)
        nested.clear()
        direct.clear()
    ctx.same(snap.attrs(element.get_attributes(), False, maps=True), before, "extracting changed the element", **detail)
