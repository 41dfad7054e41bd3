"""Timestamps denote one instant in every representation."""
import io
import os
import time
from datetime import datetime, timedelta, timezone
from xml.sax.saxutils import quoteattr

from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp

from rv import gen, snap, xesdoc

try:
    from opyenxes.utils.XsDateTimeConversion import parse_date_time
except ImportError:
    parse_date_time = None

RULE = ("per case 40 xs:dateTime texts (years 1-9999, 0-40 fraction digits, every form of offset) and 40 unreadable "
        "mutations read directly and from documents, 30 timestamp attributes (naive, fixed offset, named zone) "
        "printed and read back, 30 epoch millisecond values set and read, each case under another host time zone; "
        "oracle: integer calendar arithmetic; non-trivial: every text or value")
ASSUMPTIONS = ["offsets are below 24 h; one that is not whole minutes is printed as whole minutes (toward -24 h)", "fields are written with their full number of digits"]
CASES = {"quick": 6000, "thorough": 80000}
REQUIRED = ["checks", "texts read", "unreadable texts", "printed naive", "printed fixed", "printed named", "printed mean",
            "millisecond values", "host zones", "end of day", "hours that occur twice or never"]
ZONES = ["UTC", "America/New_York", "Europe/Amsterdam", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago",
         "Australia/Lord_Howe", "XYZ-14", "ABC+11:30"]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days(y, m, d):
    """Days since 1970-01-01 in the proleptic Gregorian calendar."""
    n = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    return n + CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d - 1 - 719162


def micros(y, mo, d, h, mi, s, us, offset):
    return (((days(y, mo, d) * 24 + h) * 60 + mi - offset) * 60 + s) * 1000000 + us


def of_datetime(v):
    off = v.utcoffset()
    minutes = 0 if off is None else off.days * 1440 + off.seconds // 60
    us = micros(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, minutes)
    return us - (0 if off is None else off.seconds % 60 * 1000000), minutes


def observe(value):
    """(UTC microseconds since 1970, offset minutes) of a datetime the library returned."""
    if not isinstance(value, datetime):
        return repr(value)
    return of_datetime(value)


def good_text(rng):
    v = gen.naive(rng)
    digits = rng.choice([0, 0, 1, 2, 3, 3, 6, 6, 7, 9, 12, 15, 17, 25, 40])
    fraction = "".join(rng.choice("0123456789") for _ in range(digits))
    if digits and rng.random() < 0.3:
        fraction = rng.choice(["0", "9", "5", "01", "001", "999", "999999", "9999999", "000001", "0000009"])
    us = int((fraction or "0").ljust(6, "0")[:6])
    style = rng.random()
    offset = 0
    if style < 0.2:
        tail = "Z"
    elif style < 0.35:
        tail = ""
    elif style < 0.4:
        tail = rng.choice(["+00:00", "-00:00"])
    else:
        offset = gen.fixed_offset(rng)
        tail = "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
    text = "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (v.year, v.month, v.day, v.hour, v.minute, v.second,
                                                  "." + fraction if fraction else "", tail)
    return text, (micros(v.year, v.month, v.day, v.hour, v.minute, v.second, us, offset), offset)


def bad_text(rng):
    y, mo, d = rng.randint(1000, 9999), rng.randint(1, 12), rng.randint(1, 28)
    h, mi, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
    f = {"y": "%04d" % y, "mo": "%02d" % mo, "d": "%02d" % d, "h": "%02d" % h, "mi": "%02d" % mi, "s": "%02d" % s}
    fraction = rng.choice(["", "", ".5", ".123", ".123456", ".1234567"])
    tail = rng.choice(["", "Z", "+00:00", "+01:00", "-05:30", "+14:00"])
    r = rng.random()
    name = rng.choice(list(f))
    if r < 0.3:
        f[name] = {"y": "0000", "mo": rng.choice(["00", "13", "19", "99"]), "d": rng.choice(["00", "32", "99"]),
                   "h": rng.choice(["25", "30", "99"]), "mi": rng.choice(["60", "61", "99"]),
                   "s": rng.choice(["60", "61", "62", "99"])}[name]
    elif r < 0.4:
        mo, last = rng.choice([(2, 29 + leap(y)), (4, 31), (6, 31), (9, 31), (11, 31), (2, 30), (2, 31)])
        f["mo"], f["d"] = "%02d" % mo, "%02d" % last
    elif r < 0.55:
        k = rng.randrange(len(f[name]))
        f[name] = f[name][:k] + rng.choice("abcxyzOIl/_") + f[name][k + 1:]
    elif r < 0.65:
        f[name] = ""
    elif r < 0.72:
        tail = rng.choice(["+24:00", "-24:00", "+99:00", "+25:30", "-30:00"])
    elif r < 0.8:
        tail = rng.choice(["+0a:00", "+00:0x", "+", "+01", "+0100", "-0a:30", "+:", "+aa:bb", "+1:2:3", "+01:60",
                           "-03:75", "+00:99", "+01:-1", "+-1:00", "ZZ", "Z+01:00", "+01:00Z", "+0_1:00", "+01:0_5",
                           "-1", "-14", "-0530", "+1", "+010:", "+:30", "-:30"])
    elif r < 0.82:
        k = rng.choice(["mo", "d", "h", "mi", "s"])
        f[k] = rng.choice(["Z", "-", "+"]) + f[k]
    elif r < 0.85:
        fraction = rng.choice([".", ".a", ".1a2", ".12x", ".1.2", "..5"])
    elif r < 0.9:
        text = "%s-%s-%s" % (f["y"], f["mo"], f["d"])
        return rng.choice([text, text + "T", "T%s:%s:%sZ" % (f["h"], f["mi"], f["s"]),
                           "%s:%s:%s" % (f["h"], f["mi"], f["s"]), text + "T" + f["h"], f["y"], f["y"] + "-" + f["mo"],
                           text + "T%s:%s" % (f["h"], f["mi"]), text + "T%s:%sZ" % (f["h"], f["mi"])])
    elif r < 0.95:
        return rng.choice(["", " ", "now", "UNKNOWN", "1577836800000", "1.5", "01/02/2020", "Mon Jan 1 00:00:00 2020",
                           "2020", "T", "Z", "-", "+", ":", "--T::Z", "0000-00-00T00:00:00", "null", "None"])
    else:
        sep = rng.choice([("/", ":"), ("-", "."), ("", ""), (".", ":"), ("-", "-")])
        return sep[0].join([f["y"], f["mo"], f["d"]]) + "T" + sep[1].join([f["h"], f["mi"], f["s"]]) + tail
    return "%s-%s-%sT%s:%s:%s%s%s" % (f["y"], f["mo"], f["d"], f["h"], f["mi"], f["s"], fraction, tail)


def read_document(texts):
    body = "".join('<date key="k%d" value=%s/>' % (n, quoteattr(t)) for n, t in enumerate(texts))
    data = "<log><trace><event>%s</event></trace></log>" % body
    event = XesXmlParser().parse(io.StringIO(data))[0][0][0]
    out = []
    for n in range(len(texts)):
        a = event.get_attributes().get("k%d" % n)
        out.append(None if a is None else a.get_value())
    return out


def case(ctx, rng, i):
    os.environ["TZ"] = ZONES[i // 8 % len(ZONES)]
    time.tzset()
    ctx.count("host zones")
    good = [good_text(rng) for _ in range(40)]
    bad = [bad_text(rng) for _ in range(40)]
    values = read_document([t for t, _ in good] + bad)
    for (text, expected), value in zip(good, values):
        ctx.count("texts read")
        ctx.distinct(text)
        ctx.same(observe(value), expected, "date %r in a document" % text)
        if parse_date_time is not None:
            ctx.same(observe(parse_date_time(text)), expected, "date %r" % text)
    for text, value in zip(bad, values[len(good):]):
        ctx.count("unreadable texts")
        ctx.distinct(text)
        ctx.check(value is None, "the unreadable date %r is read as %r" % (text, value))
        if parse_date_time is not None:
            ctx.check(parse_date_time(text) is None, "the unreadable date %r is read" % text)
    end_of_day(ctx, rng)
    for n in range(30):
        print_and_read(ctx, rng, n)
    for _ in range(30):
        milliseconds(ctx, rng)
    log_under_zone(ctx, rng)
    ctx.sample({"zone": os.environ["TZ"], "good": [t for t, _ in good[:4]], "bad": bad[:4]})


def end_of_day(ctx, rng):
    """24:00:00 is no time of the same day: unreadable, or the first instant of the next day."""
    y, mo, d = rng.randint(1000, 9998), rng.randint(1, 12), rng.randint(1, 27)
    text = "%04d-%02d-%02dT24:00:00" % (y, mo, d) + rng.choice(["", ".0", ".000"]) + rng.choice(["", "Z", "+00:00"])
    value = read_document([text])[0]
    ctx.count("end of day")
    ctx.check(value is None or observe(value) == (micros(y, mo, d + 1, 0, 0, 0, 0, 0), 0), "the date %r is read as %r" % (text, value))


def print_and_read(ctx, rng, n):
    style = ["naive", "fixed", "named", "utc", "mean"][n % 5]
    value = gen.stamp(rng, style)
    ctx.count("printed " + style)
    ctx.count("hours that occur twice or never", value.replace(fold=0).utcoffset() != value.replace(fold=1).utcoffset())
    us, offset = of_datetime(value)
    ctx.distinct(repr(value))
    attribute = rng.choice([XAttributeTimestamp, XFactory.create_attribute_timestamp])("time:timestamp", value)
    if rng.random() < 0.3:
        attribute = XAttributeTimestamp("time:timestamp", 0)
        if rng.random() < 0.5 and 2 < value.year < 9999:        # it held the same instant with another offset
            ctx.count("instants given another offset")
            other = timezone(timedelta(minutes=rng.choice([0, 60, -330, 845])))
            attribute.set_value((value if value.utcoffset() is not None else value.replace(tzinfo=timezone.utc)).astimezone(other))
        attribute.set_value(value)
    if rng.random() < 0.3:
        attribute = attribute.clone()
    ctx.check(attribute.get_value() == value and attribute.get_value().utcoffset() == value.utcoffset(),
              "the value of %r is %r" % (value, attribute.get_value()))
    text = str(attribute)
    ctx.check(xesdoc.DATE.match(text) is not None, "%r prints the invalid xs:dateTime %r" % (value, text))
    back = read_document([text])[0]
    ctx.same(observe(back), (us // 1000 * 1000, offset), "%r prints %r" % (value, text))
    ctx.same(xesdoc.date_text(text), snap.date_value(value), "%r prints %r, which denotes something else" % (value, text))
    low, high = micros(1, 1, 1, 0, 0, 0, 0, 0), micros(9999, 12, 31, 23, 59, 59, 999999, 0)
    if low <= us <= high:
        ctx.same(attribute.get_value_millis(), us // 1000, "epoch milliseconds of %r" % value)
        ctx.count("dates as milliseconds")


def milliseconds(ctx, rng):
    low, high = micros(1, 1, 1, 0, 0, 0, 0, 0) // 1000, micros(9999, 12, 31, 23, 59, 59, 999999, 0) // 1000
    r = rng.random()
    if r < 0.4:
        ms = rng.randint(-10**12, 3 * 10**12)
    elif r < 0.7:
        ms = rng.randint(low, high)
    else:
        ms = rng.choice([0, 1, -1, 999, 1000, -999, -1000, -1001, 86399999, 86400000, 2**31 * 1000, 2**31 * 1000 - 1,
                         -2**31 * 1000 - 1, 2**32 * 1000, low, high, low + 1, high - 1, 10**12 + 1, 1585443600000,
                         1572137999999, 1583650800000])
    ctx.count("millisecond values")
    ctx.distinct("ms%d" % ms)
    style = rng.random()
    if style < 0.4:
        attribute = XAttributeTimestamp("t", ms)
    elif style < 0.7:
        attribute = XAttributeTimestamp("t", gen.stamp(rng))
        attribute.set_value_millis(ms)
    else:
        event = XFactory.create_event()
        XTimeExtension().assign_timestamp(event, ms)
        attribute = event.get_attributes()["time:timestamp"]
    ctx.same(attribute.get_value_millis(), ms, "epoch milliseconds %d read back" % ms)
    us, offset = of_datetime(attribute.get_value())
    ctx.same(us, ms * 1000, "instant of epoch milliseconds %d" % ms)
    ctx.same(xesdoc.date_text(str(attribute))[0], snap.date_value(datetime(1970, 1, 1, tzinfo=timezone.utc))[0] + ms,
             "print-out of epoch milliseconds %d" % ms)


def log_under_zone(ctx, rng):
    """A log written under one host zone and read under another keeps its instants."""
    values = [gen.stamp(rng) for _ in range(5)]
    log = XFactory.create_log()
    trace = XFactory.create_trace()
    log.append(trace)
    for v in values:
        event = XFactory.create_event()
        XTimeExtension().assign_timestamp(event, v)
        trace.append(event)
    out = io.StringIO()
    XesXmlSerializer().serialize(log, out)
    os.environ["TZ"] = rng.choice(ZONES)
    time.tzset()
    back = XesXmlParser().parse(io.StringIO(out.getvalue()))[0][0]
    for v, event in zip(values, back):
        us, offset = of_datetime(v)
        ctx.same(observe(XTimeExtension().extract_timestamp(event)), (us // 1000 * 1000, offset),
                 "timestamp %r through a document" % v)
