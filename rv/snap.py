"""Canonical snapshots of library objects, taken through public getters only,
and the same canonical form computed from abstract specifications."""
from datetime import datetime

from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeContainer import XAttributeContainer
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp

KINDS = [(XAttributeDiscrete, "int"), (XAttributeLiteral, "string"), (XAttributeContinuous, "float"),
         (XAttributeBoolean, "boolean"), (XAttributeID, "id"), (XAttributeList, "list"),
         (XAttributeContainer, "container"), (XAttributeTimestamp, "date")]

EPOCH1 = datetime(1, 1, 1)


def kind(attribute):
    for cls, name in KINDS:
        if isinstance(attribute, cls):
            return name
    return "?" + type(attribute).__name__


def date_micros(value):
    """(UTC microseconds since year 1 of the wall clock minus the offset, offset minutes)"""
    delta = value.replace(tzinfo=None) - EPOCH1
    micros = (delta.days * 86400 + delta.seconds) * 1000000 + delta.microseconds
    offset = value.utcoffset()
    seconds = 0 if offset is None else offset.days * 86400 + offset.seconds
    return micros - seconds * 1000000, seconds // 60


def date_value(value, ms=True):
    if not isinstance(value, datetime):
        return ("not a date", repr(value))
    micros, offset = date_micros(value)
    return (micros // 1000 if ms else micros, offset)


def float_value(value):
    if not isinstance(value, float):
        return repr(value)
    return "nan" if value != value else repr(value)


def id_value(value):
    return str(value).lower()


def value_of(attribute, ms=True):
    k = kind(attribute)
    if k in ("list", "container"):
        return None
    value = attribute.get_value()
    if k == "date":
        return date_value(value, ms)
    if k == "float":
        return float_value(value)
    if k == "id":
        return id_value(value)
    if k == "boolean":
        return ("bool", value) if isinstance(value, bool) else ("not a bool", repr(value))
    if k == "int":
        return ("int", value) if isinstance(value, int) and not isinstance(value, bool) else ("not an int", repr(value))
    if k == "string":
        return value if isinstance(value, str) else ("not a str", repr(value))
    return repr(value)


def attr(attribute, ms=True, ext=True, maps=False):
    """maps=True also records the attribute map of lists and containers."""
    k = kind(attribute)
    out = [attribute.get_key(), k, value_of(attribute, ms)]
    if ext:
        extension = attribute.get_extension()
        out.append(None if extension is None else extension.get_uri().geturl())
    if k == "list":
        out.append([attr(a, ms, ext, maps) for a in attribute.get_collection()])
    elif k == "container":
        out.append(sorted((attr(a, ms, ext, maps) for a in attribute.get_collection()), key=repr))
    if k not in ("list", "container") or maps:
        out.append(attrs(attribute.get_attributes(), ms, ext, maps))
    return out


def attrs(mapping, ms=True, ext=True, maps=False):
    out = {}
    for key, value in mapping.items():
        item = attr(value, ms, ext, maps)
        if item[0] != key:
            item.append(("MAP KEY DIFFERS", key))
        out[key] = item
    return out


def event(e, ms=True, ext=True, maps=False, ids=False):
    out = {"attrs": attrs(e.get_attributes(), ms, ext, maps)}
    if ids:
        out["id"] = id_value(e.get_id())
    return out


def trace(t, ms=True, ext=True, maps=False, ids=False):
    return {"attrs": attrs(t.get_attributes(), ms, ext, maps),
            "events": [event(e, ms, ext, maps, ids) for e in t]}


def header(log, ms=True, ext=True, maps=False):
    return {
        "extensions": sorted(e.get_uri().geturl() for e in log.get_extensions()),
        "global trace": [attr(a, ms, ext, maps) for a in log.get_global_trace_attributes()],
        "global event": [attr(a, ms, ext, maps) for a in log.get_global_event_attributes()],
        "classifiers": [[c.name(), list(c.get_defining_attribute_keys())] for c in log.get_classifiers()],
        "attrs": attrs(log.get_attributes(), ms, ext, maps),
    }


def log(x, ms=True, ext=True, maps=False, ids=False, features=False):
    out = header(x, ms, ext, maps)
    if features:
        out["features"] = dict(x.get_features())
    out["traces"] = [trace(t, ms, ext, maps, ids) for t in x]
    return out


def walk_attributes(mapping):
    """Every attribute below a map, through maps and collections, once per object."""
    stack = list(mapping.values())
    seen = set()
    while stack:
        a = stack.pop()
        if id(a) in seen:
            continue
        seen.add(id(a))
        yield a
        stack.extend(a.get_attributes().values())
        if kind(a) in ("list", "container"):
            stack.extend(a.get_collection())


def definition_set(attributes, ms=False):
    return sorted((attr(a, ms) for a in attributes), key=repr)


def extension(e):
    out = {"name": e.get_name(), "prefix": e.get_prefix(), "uri": e.get_uri().geturl(),
           "log": definition_set(e.get_log_attributes()), "trace": definition_set(e.get_trace_attributes()),
           "event": definition_set(e.get_event_attributes()), "meta": definition_set(e.get_meta_attributes())}
    out["constants"] = {n: attr(getattr(e, n), False) for n in sorted(dir(e)) if n.startswith("ATTR_")}
    return out


def definitions():
    """Definitions of every registered extension, in registration order."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    manager = XExtensionManager()
    out, i = [], 0
    while manager.get_by_index(i) is not None:
        out.append(extension(manager.get_by_index(i)))
        i += 1
    return out
