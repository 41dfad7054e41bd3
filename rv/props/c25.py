"""Timers report the time that passed."""
import random
import re
import time
from fractions import Fraction

REAL = {name: getattr(time, name) for name in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")}


class Clock:
    """Stands in for the clocks of the time module while a case runs."""
    now = None      # nanoseconds, or None for the real clocks

    @classmethod
    def install(cls):
        offsets = {"time": 0, "monotonic": -1500000000 * 10**9, "perf_counter": -1600000000 * 10**9}
        for name, real in REAL.items():
            offset = offsets[name.replace("_ns", "")]
            if name.endswith("_ns"):
                fake = (lambda real=real, offset=offset: real() if cls.now is None else cls.now + offset)
            else:
                fake = (lambda real=real, offset=offset: real() if cls.now is None else (cls.now + offset) / 1e9)
            setattr(time, name, fake)


Clock.install()     # before the timer is imported, however it gets at the clock
from opyenxes.utils.XTimer import XTimer  # noqa: E402

TECHNIQUE = "runtime monitor: timer histories on a controlled clock compared with a model, and durations recomputed from their texts"
RULE = ("random histories of creating, starting, stopping and asking several timers while a controlled clock (today or around the epoch) advances by 0 to 10**9 "
        "seconds, and texts of whole and fractional durations around every unit; oracle: model of the timers, sum of the parts; "
        "non-trivial: a timer stopped after its clock advanced")
ASSUMPTIONS = ["the system clock does not go backwards while a timer is used"]
CASES = {"quick": 200000, "thorough": 5000000}
UNITS = [("days", 86400000), ("hours", 3600000), ("minutes", 60000), ("seconds", 1000), ("milliseconds", 1)]
REQUIRED = ["checks", "created", "started", "restarted", "stopped", "stopped again", "restarted after a stop", "asked while running",
            "asked after a stop", "asked without start", "stopped at once", "texts", "texts of whole numbers", "texts of fractions",
            "texts at a unit", "texts around several units", "texts of timers", "advances", "several timers", "clocks around the epoch"] + ["unit " + u for u, _ in UNITS]
NUMBER = r"(\d+(?:\.\d+)?(?:e[-+]?\d+)?)"
TEXT = re.compile("".join(r"(?:%s %s, )?" % (NUMBER, u) for u, _ in UNITS[:-1]) + NUMBER + r" milliseconds\Z")


def check_text(ctx, text, millis):
    m = TEXT.match(text)
    ctx.check(m is not None, "the text of %r milliseconds is %r" % (millis, text))
    parts = [(u, size, Fraction(g)) for (u, size), g in zip(UNITS, m.groups()) if g is not None]
    total = sum(size * n for _, size, n in parts)
    ctx.check(abs(total - millis) <= (0 if isinstance(millis, int) else max(1e-6, abs(millis) * 1e-12)), "the text %r of %r milliseconds adds up to %r" % (text, millis, total))
    sizes = [size for _, size in UNITS]
    for unit, size, n in parts:
        ctx.count("unit " + unit)
        if unit != "days":
            above = sizes[sizes.index(size) - 1]
            ctx.check(n * size <= above, "the text of %r milliseconds has %r %s" % (millis, n, unit), text=text)
        if unit != "milliseconds":
            ctx.check(n == int(n), "the text of %r milliseconds has %r %s" % (millis, n, unit), text=text)


def close(a, b):
    return a == b if b == 0 else abs(a - b) < 1.01      # whole milliseconds will do


def case(ctx, rng, i):
    if i % 2:
        return texts(ctx, rng)
    Clock.now = rng.randint(16 * 10**8, 20 * 10**8) * 10**9 + rng.randint(0, 10**9)
    if rng.random() < 0.2:          # a clock that was never set, around the epoch
        Clock.now = rng.choice([0, -10**6, rng.randint(-10**9, 10**9), rng.randint(-10**13, 10**13), -10**18])
        ctx.count("clocks around the epoch")
    try:
        timers, history = [], []
        for _ in range(rng.randint(3, 15)):
            r = rng.random()
            if r < 0.25 or not timers:
                timers.append([XTimer(), Clock.now, None, 0])
                ctx.count("created")
                history.append("create")
            elif r < 0.55:
                step = rng.choice([0, 0, 1000, 10**6, 1500000, 10**9, rng.randint(0, 10**10), rng.randint(0, 10**14), 10**17])
                Clock.now += step
                ctx.count("advances")
                history.append(("advance", step))
            n = rng.randrange(len(timers))
            t = timers[n]
            r = rng.random()
            if r < 0.25:
                t[0].start()
                ctx.count("restarted after a stop" if t[2] is not None else "restarted" if t[3] else "started")
                t[1], t[2], t[3] = Clock.now, None, t[3] + 1
                history.append(("start", n))
            elif r < 0.55:
                t[0].stop()
                ctx.count("stopped again" if t[2] is not None else "stopped")
                t[2] = Clock.now
                history.append(("stop", n))
                if t[2] == t[1]:
                    ctx.count("stopped at once")
                else:
                    ctx.distinct(repr(history))
            for n, (timer, start, stop, starts) in enumerate(timers):
                expected = ((Clock.now if stop is None else stop) - start) / 1e6
                got = timer.get_duration()
                ctx.count("asked while running" if stop is None else "asked after a stop")
                if not starts:
                    ctx.count("asked without start")
                ctx.check(close(got, expected), "timer %d: %r milliseconds instead of %r" % (n, got, expected), history=history)
                if rng.random() < 0.2:
                    ctx.count("texts of timers")
                    check_text(ctx, timer.get_duration_string(), got)
            if len(timers) > 1:
                ctx.count("several timers")
        ctx.sample(history)
    finally:
        Clock.now = None


def texts(ctx, rng):
    r = rng.random()
    if r < 0.2:                     # remainders around every unit below larger ones
        millis = 0
        for _, size in UNITS:
            if rng.random() < 0.5:
                millis += size * rng.choice([0, 1, 2, 22, 23, 58, 59, 60, 999])
            if rng.random() < 0.3:
                millis += rng.choice([-1, 0, 1, -0.5, 0.5, -0.001, 0.001, 0.25, -999, 499.5])
        ctx.count("texts around several units")
    elif r < 0.45:
        size = rng.choice([s for _, s in UNITS])
        millis = size * rng.choice([1, 1, 2, 23, 24, 59, 60, 61, 999, 1000, 1001]) + rng.choice([-1, 0, 0, 1, 500])
        ctx.count("texts at a unit")
    elif r < 0.7:
        millis = rng.randint(0, 10 ** rng.randint(1, 18))
    else:
        millis = rng.random() * 10 ** rng.randint(0, 15)
    millis = max(0, millis)
    ctx.count("texts of fractions" if isinstance(millis, float) else "texts of whole numbers")
    ctx.count("texts")
    ctx.distinct(repr(millis))
    text = XTimer.format_duration(millis) if rng.random() < 0.7 else XTimer().format_duration(millis)
    check_text(ctx, text, millis)
