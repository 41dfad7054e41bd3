"""Attribute name mapping always gives a usable name."""
import io

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

from rv import gen, sched, snap

TECHNIQUE = "runtime monitor: registrations and name lookups compared with a reference map of aliases per language and key"
RULE = ("one growing history per process of alias registrations (through the global map, a language's map, keys or attributes) and "
        "lookups in registered, new and English mappings by key and by attribute of any type, alone and in interleaved threads; "
        "oracle: reference dictionary (language, key) -> alias and the names the standard gives; non-trivial: case with a "
        "registration")
ASSUMPTIONS = ["aliases and keys are texts"]
STATEFUL = True
CASES = {"quick": 18000, "thorough": 300000}
REQUIRED = ["checks", "registrations", "replaced aliases", "registered through a mapping", "registered by attribute", "own alias",
            "English alias", "key itself", "unregistered languages", "by attribute", "by key", "by mapping", "by language name",
            "standard names", "standard names in other languages", "empty aliases", "languages together", "thread switches",
            "foreign mappings", "read attributes", "keys alike"]

STANDARD = {
    "concept:name": {"EN": "Name", "DE": "Name", "FR": "Appellation", "ES": "Nombre", "PT": "Nome"},
    "concept:instance": {"EN": "Instance", "DE": "Instanz", "FR": "Entit\u00e9", "ES": "Instancia", "PT": "Inst\u00e2ncia"},
    "cost:total": {"EN": "Total Cost"}, "cost:currency": {"EN": "Currency of Cost"}, "cost:amount": {"EN": "Cost Amount"},
    "cost:driver": {"EN": "Cost Driver"}, "cost:type": {"EN": "Cost Type"},
    "identity:id": {"EN": "Identity", "DE": "Identit\u00e4t", "FR": "Identit\u00e9", "ES": "Identidad", "PT": "Identidade"},
    "lifecycle:model": {"EN": "Lifecycle Model", "DE": "Lebenszyklus-Model", "FR": "Mod\u00e8le du Cycle Vital",
                        "ES": "Modelo de Ciclo de Vida", "PT": "Modelo do Ciclo de Vida"},
    "lifecycle:transition": {"EN": "Lifecycle Transition", "DE": "Lebenszyklus-Transition", "FR": "Transition en Cycle Vital",
                             "ES": "Transici\u00f3n en Ciclo de Vida", "PT": "Transi\u00e7\u00e3o do Ciclo de Vida"},
    "micro:level": {"EN": "Micro level of this event"}, "micro:parentId": {"EN": "Id of parent event of this event"},
    "micro:length": {"EN": "Number of child events for this event"},
    "org:resource": {"EN": "Resource", "DE": "Akteur", "FR": "Agent", "ES": "Recurso", "PT": "Recurso"},
    "org:role": {"EN": "Role", "DE": "Rolle", "FR": "R\u00f4le", "ES": "Papel", "PT": "Papel"},
    "org:group": {"EN": "Group", "DE": "Gruppe", "FR": "Groupe", "ES": "Grupo", "PT": "Grupo"},
    "semantic:modelReference": {"EN": "Ontology Model Reference", "DE": "Ontologie-Modellreferenz",
                                "FR": "R\u00e9f\u00e9rence au Mod\u00e8le Ontologique",
                                "ES": "Referencia de Modelo Ontol\u00f3gico", "PT": "Refer\u00eancia de Modelo Ontol\u00f3gico"},
    "time:timestamp": {"EN": "Timestamp", "DE": "Zeitstempel", "FR": "Horodateur", "ES": "Timestamp", "PT": "Timestamp"},
}
KEYS = list(STANDARD) + ["a", "b", "", "key with blanks", "x:y"]


def setup(ctx):
    XExtensionManager()
    the_map = XGlobalAttributeNameMap()
    known = {}
    for key, names in STANDARD.items():
        for language, name in names.items():
            ctx.same(the_map.map_safely(key, language), name, "the name of %r in %r" % (key, language))
            known[language, key] = name
    ctx.state["known"] = known
    ctx.state["maps"] = {}
    for name in the_map.get_available_mapping_names():
        ctx.state["maps"][name] = the_map.get_mapping(name)
    ctx.check("EN" in ctx.state["maps"], "there is no English mapping")
    ctx.check(the_map.get_standard_mapping() is the_map.get_mapping("EN"), "the standard mapping is not the English one")


def attribute_for(ctx, rng, key):
    """An attribute of any type with a key."""
    g = gen.Gen(rng, depth=1, nasty=0)
    if rng.random() < 0.1:
        ctx.count("read attributes")
        text = "<log><int key='%s' value='1'/></log>" % key if not set(key) & set("<&'\t\n\r") else None
        if text:
            return XesXmlParser().parse(io.BytesIO(text.encode("utf-8", "xmlcharrefreplace")))[0].get_attributes()[key]
    return gen.build_attribute(g.attribute(1, key=key))


def languages(rng, i):
    return rng.choice(["EN", "EN", "DE", "FR", "NL", "IT", "ES", "PT", "en", "", "L%d" % i, "L%d" % i, "L%d-b" % i,
                       "L%d" % rng.randint(0, i + 1), "language" * 40 + str(i % 3), "\u4e2d\u6587"])


def keys(rng, i):
    r = rng.random()
    if r < 0.05:
        return ("key%d " % i) * rng.choice([20, 200]) + str(rng.randint(0, 2))
    if r < 0.5:
        return "key%d-%d" % (i, rng.randint(0, 2))
    return rng.choice(KEYS) if rng.random() < 0.8 else gen.key_text(rng, 0.3)


def case(ctx, rng, i):
    known, maps = ctx.state["known"], ctx.state["maps"]
    the_map = XGlobalAttributeNameMap()
    history = []
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        language, key = languages(rng, i), keys(rng, i)
        if r < 0.35:
            register(ctx, rng, the_map, language, key, history)
        elif r < 0.9:
            look(ctx, rng, the_map, language, key, history)
        elif r < 0.95:
            together(ctx, rng, the_map, i, history)
        else:
            standard(ctx, rng, the_map)
        if language in maps:
            ctx.check(the_map.get_mapping(language) is maps[language], "the language %r has another mapping object" % language,
                      history=history[-6:])
    names = the_map.get_available_mapping_names()
    ctx.check(isinstance(names, tuple) and len(set(names)) == len(names), "the available languages are not a set", names=names)
    ctx.check(set(names) == set(maps), "the available languages are not those asked for",
              unexpected=set(names) - set(maps), missing=set(maps) - set(names), history=history)
    mappings = the_map.get_available_mappings()
    ctx.check(len(mappings) == len(maps) and {id(m) for m in mappings} == {id(m) for m in maps.values()},
              "the available mappings are not those of the languages")
    if any(h[0] == "register" for h in history):
        ctx.distinct(repr(history))
    ctx.sample(history[:6])


def note(ctx, the_map, language):
    """The language has been asked for: from now on it has one mapping object."""
    maps = ctx.state["maps"]
    ctx.check(language in the_map.get_available_mapping_names(), "a language that was asked for is not available", language=language)
    mapping = the_map.get_mapping(language)
    ctx.check(maps.setdefault(language, mapping) is mapping, "the mapping object of a language changed", language=language)
    ctx.same(mapping.get_mapping_name(), language, "the name of the mapping")


def alias_text(ctx, rng):
    if rng.random() < 0.05:
        ctx.count("empty aliases")
        return ""
    if rng.random() < 0.01:
        return gen.alike(rng, 1)[0]
    return gen.text(rng, empty=False)[:50]


def register(ctx, rng, the_map, language, key, history):
    known = ctx.state["known"]
    alias = alias_text(ctx, rng)
    how = rng.choice(["global", "global", "mapping", "attribute"])
    if language == "EN" and key in STANDARD and rng.random() < 0.8:
        key = "my " + key
    if how == "global":
        the_map.register_mapping(language, key, alias)
    else:
        ctx.count("registered through a mapping")
        mapping = the_map.get_standard_mapping() if language == "EN" and rng.random() < 0.5 else the_map.get_mapping(language)
        if how == "attribute":
            ctx.count("registered by attribute")
            mapping.register_mapping(attribute_for(ctx, rng, key), alias)
        else:
            mapping.register_mapping(key, alias)
    ctx.count("registrations")
    if (language, key) in known:
        ctx.count("replaced aliases")
    known[language, key] = alias
    history.append(("register", language, key, alias, how))
    note(ctx, the_map, language)
    look(ctx, rng, the_map, language, key, history)
    if len(key) > 200 or rng.random() < 0.02:       # a key that is alike
        ctx.count("keys alike")
        look(ctx, rng, the_map, language, key[:-1] + rng.choice("012"), history)


def look(ctx, rng, the_map, language, key, history):
    known = ctx.state["known"]
    detail = {"language": language, "key": key, "history": history[-8:]}
    own = known.get((language, key))
    expected = own if own is not None else known.get(("EN", key), key)
    ctx.count("own alias" if own is not None else "English alias" if ("EN", key) in known else "key itself")
    if language not in ctx.state["maps"]:
        ctx.count("unregistered languages")
    forms = [("by key", key), ("by attribute", attribute_for(ctx, rng, key))]
    rng.shuffle(forms)
    for form, what in forms:
        ctx.count(form)
        if rng.random() < 0.5:
            ctx.count("by language name")
            got = the_map.map_safely(what, language)
        else:
            ctx.count("by mapping")
            got = the_map.map_safely(what, the_map.get_mapping(language))
        ctx.same(got, expected, "the name, " + form, **detail)
        ctx.same(the_map.get_mapping(language).map(what), own, "the alias in the language itself, " + form, **detail)
        ctx.same(the_map.map(what), known.get(("EN", key)), "the alias of the global map, " + form, **detail)
    note(ctx, the_map, language)
    if rng.random() < 0.2:
        ctx.count("foreign mappings")
        from opyenxes.info.XAttributeNameMap import XAttributeNameMap
        mine = XAttributeNameMap(language)
        ctx.same(the_map.map_safely(key, mine), known.get(("EN", key), key), "the name in an empty mapping of one's own", **detail)
        mine.register_mapping(key, "mine")
        ctx.same(the_map.map_safely(forms[0][1], mine), "mine", "the name in a mapping of one's own", **detail)
        ctx.same(the_map.map_safely(key, language), expected, "the name after registering in another mapping", **detail)
    history.append(("look", language, key))


def standard(ctx, rng, the_map):
    known = ctx.state["known"]
    for key, names in STANDARD.items():
        e = XExtensionManager().get_by_prefix(key.split(":")[0])
        for a in e.get_defined_attributes():
            if a.get_key() == key:
                for language in names:
                    ctx.count("standard names")
                    if language != "EN":
                        ctx.count("standard names in other languages")
                    ctx.same(the_map.map_safely(a, language), known[language, key], "name of a defined attribute", key=key,
                             language=language)
        for language in ("NL", "IT", "Klingon"):
            ctx.same(the_map.map_safely(key, language), known.get((language, key), known["EN", key]),
                     "standard name where the language has none", key=key, language=language)
            note(ctx, the_map, language)


def together(ctx, rng, the_map, i, history):
    """Threads ask for the same new language and register in it at the same time."""
    ctx.count("languages together")
    ctx.state["n"] = ctx.state.get("n", 0) + 1
    language = "T%d-%d" % (i, ctx.state["n"])
    jobs = [("tkey%d-%d" % (i, n), "alias %d" % n) for n in range(rng.randint(2, 3))]

    def body(key, alias):
        mapping = the_map.get_mapping(language)
        the_map.register_mapping(language, key, alias)
        return mapping, the_map.map_safely(key, language)
    baton = sched.Baton(rng.getrandbits(30), rng.choice([0.2, 0.5]), opcodes=rng.random() < 0.3)
    results = baton.run([lambda j=j: body(*j) for j in jobs])
    ctx.count("thread switches", baton.switches)
    mapping = the_map.get_mapping(language)
    for (key, alias), (ok, got) in zip(jobs, results):
        ctx.check(ok, "asking for a language failed: %r" % (got,))
        ctx.check(got[0] is mapping, "threads got different mappings for one language", language=language)
        ctx.same(got[1], alias, "the name registered by a thread")
        ctx.same(the_map.map_safely(key, language), alias, "the name registered by a thread, afterwards")
        ctx.state["known"][language, key] = alias
    note(ctx, the_map, language)
    history.append(("together", language))
