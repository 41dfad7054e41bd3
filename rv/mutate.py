"""Heavy edits of library objects through their public interface."""
import uuid
from datetime import datetime, timedelta

from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID

from rv import snap

EDITS = ["value", "nested", "remove nested", "collection", "swap map", "set_uuid"]


def attribute(rng, a, kinds=None):
    """One edit of one attribute; returns the name of the edit."""
    k = snap.kind(a)
    edit = rng.choice(EDITS)
    if edit == "set_uuid" and k == "id":
        a.get_value().set_uuid(uuid.UUID(int=rng.getrandbits(128)))
        return "set_uuid"
    if k in ("list", "container") and edit in ("value", "collection", "set_uuid"):
        a.add_to_collection(XFactory.create_attribute_literal("added%d" % rng.randint(0, 10**9), "x"))
        return "collection"
    if edit == "remove nested" and a.has_attributes():
        del a.get_attributes()[rng.choice(list(a.get_attributes()))]
        return "remove nested"
    if edit in ("nested", "remove nested", "collection"):
        key = "added%d" % rng.randint(0, 10**9)
        a.get_attributes()[key] = XFactory.create_attribute_discrete(key, 1)
        return "nested"
    if edit == "swap map":
        a.set_attributes(XFactory.create_attribute_map())
        a.get_attributes()["swapped"] = XFactory.create_attribute_literal("swapped", str(rng.random()))
        return "swap map"
    new_value(rng, a, k)
    return "value"


def new_value(rng, a, k):
    if k == "string":
        a.set_value("changed %r" % rng.random())
    elif k == "int":
        a.set_value(rng.randint(10**12, 10**13))
    elif k == "float":
        a.set_value(rng.random() + 10**6)
    elif k == "boolean":
        a.set_value(not a.get_value())
    elif k == "id":
        a.set_value(XID(uuid.UUID(int=rng.getrandbits(128))))
    elif k == "date":
        a.set_value(datetime(2031, 1, 1) + timedelta(seconds=rng.randint(1, 10**8)))
    else:
        a.add_to_collection(XFactory.create_attribute_literal("added%d" % rng.randint(0, 10**9), "x"))


def element(rng, e):
    """One edit of the attribute map of a log, trace or event."""
    r = rng.random()
    m = e.get_attributes()
    if r < 0.4 or not len(m):
        key = "added%d" % rng.randint(0, 10**9)
        m[key] = XFactory.create_attribute_literal(key, "x")
    elif r < 0.6:
        del m[rng.choice(list(m))]
    elif r < 0.8:
        key = rng.choice(list(m))
        m[key] = XFactory.create_attribute_boolean(key, rng.random() < 0.5)
    elif r < 0.9:
        e.set_attributes(XFactory.create_attribute_map())
        e.get_attributes()["swapped"] = XFactory.create_attribute_literal("swapped", str(rng.random()))
    else:
        m.clear()


def log(rng, x, share=1.0):
    """Edits of everything in a log."""
    for m in [x.get_attributes()] + [t.get_attributes() for t in x] + \
            [e.get_attributes() for t in x for e in t]:
        for a in list(snap.walk_attributes(m)):
            if rng.random() < share:
                attribute(rng, a)
    for group in (x.get_global_trace_attributes(), x.get_global_event_attributes()):
        for a in group:
            for b in [a] + list(snap.walk_attributes(a.get_attributes())):
                attribute(rng, b)
        if rng.random() < 0.5:
            group.clear()
        group.append(XFactory.create_attribute_literal("added", "global"))
    for t in list(x):
        for e in list(t):
            if rng.random() < share / 2:
                element(rng, e)
            if rng.random() < share / 4:
                e.get_id().set_uuid(uuid.UUID(int=rng.getrandbits(128)))
            if rng.random() < share / 4:
                e.set_id(XID())
        if rng.random() < share / 2:
            element(rng, t)
        r = rng.random()
        if r < 0.3:
            t.append(XFactory.create_event())
        elif r < 0.5 and len(t):
            t.pop(rng.randrange(len(t)))
        elif r < 0.6:
            t.clear()
        elif r < 0.7:
            t.reverse()
    element(rng, x)
    r = rng.random()
    if r < 0.3:
        x.append(XFactory.create_trace())
    elif r < 0.6 and len(x):
        x.pop(rng.randrange(len(x)))
    elif r < 0.7:
        x.reverse()
    x.get_classifiers().append(XEventAttributeClassifier("added", ["x"]))
    if rng.random() < 0.3:
        x.get_classifiers().clear()
    extensions = x.get_extensions()
    if rng.random() < 0.4:
        extensions.clear()
    n = rng.randint(0, 9)
    extra = XExtensionManager().get_by_index(n)
    if extra is not None:
        (extensions.discard if extra in extensions else extensions.add)(extra)
    x.set_features("added", rng.random())
    if rng.random() < 0.3:
        x.get_features().clear()
