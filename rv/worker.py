"""One worker process: runs its share of the cases of one property and writes
what it observed as JSON.

usage: worker.py PROP TIER SEED FIRST STEP COUNT SECONDS OUT SCRATCH"""
import importlib
import io
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

RESOURCE_ERRNO = {12, 23, 24, 28, 122}   # ENOMEM, ENFILE, EMFILE, ENOSPC, EDQUOT
CASE_CPU_SECONDS = 60


class CaseTooLong(BaseException):
    pass


def on_timer(signum, frame):
    raise CaseTooLong()


REACHED = {"functions": set(), "lines": set()}


def start_coverage():
    """Records which functions and lines of opyenxes ran (each location reports once)."""
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "rv")
    root = os.environ.get("RV_SRC", "/repo/src") + os.sep + "opyenxes"

    def started(code, offset):
        if code.co_filename.startswith(root):
            REACHED["functions"].add(code.co_filename[len(root) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    def line(code, number):
        if code.co_filename.startswith(root):
            REACHED["lines"].add((code.co_filename, number))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, started)
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.PY_START | mon.events.LINE)


def main(argv):
    prop, tier, seed, first, step, count, seconds, out, scratch = argv
    seed, first, step, count, seconds = int(seed), int(first), int(step), int(count), float(seconds)
    real_stdout = sys.stdout
    from rv.base import Ctx, Violation, Inconclusive
    result = {"violation": None, "inconclusive": None, "done": 0}
    ctx = Ctx(seed, tier, scratch)
    started = time.monotonic()
    start_coverage()
    signal.signal(signal.SIGVTALRM, on_timer)
    if os.environ.get("RV_SHOW") is None:
        sys.stdout = Silent()
    module = None
    index = None
    try:
        try:
            import opyenxes
            src = os.environ.get("RV_SRC", "/repo/src")
            if not os.path.realpath(opyenxes.__file__).startswith(os.path.realpath(src) + os.sep):
                raise Inconclusive("opyenxes comes from " + opyenxes.__file__)
            module = importlib.import_module("rv.props." + prop.lower())
            if hasattr(module, "setup"):
                guarded(ctx, lambda: module.setup(ctx))
            for index in range(first, count, step):
                if time.monotonic() - started > seconds and result["done"] > 0:
                    ctx.count("stopped at the time budget")
                    break
                ctx.index = index
                rng = random.Random("%s:%d:%d" % (prop, seed, index))
                guarded(ctx, lambda: module.case(ctx, rng, index))
                result["done"] += 1
            if hasattr(module, "final"):
                guarded(ctx, lambda: module.final(ctx))
        except Violation as error:
            result["violation"] = {"case": index, "message": str(error)}
        except Inconclusive as error:
            result["inconclusive"] = "case %s: %s" % (index, error)
        except MemoryError:
            result["inconclusive"] = "case %s: out of memory" % index
        except CaseTooLong:
            result["violation"] = {"case": index, "message": "no result after %d s of processor time" % CASE_CPU_SECONDS}
        except OSError as error:
            if error.errno in RESOURCE_ERRNO:
                result["inconclusive"] = "case %s: %r" % (index, error)
            else:
                result["violation"] = {"case": index, "message": "exception:\n" + traceback.format_exc(limit=-12)}
        except Exception:
            result["violation"] = {"case": index, "message": "exception:\n" + traceback.format_exc(limit=-12)}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout = real_stdout
    result["counters"] = dict(ctx.counters)
    result["seen"] = sorted(ctx.seen)
    result["samples"] = ctx.samples
    result["functions"] = sorted(REACHED["functions"])
    result["lines"] = len(REACHED["lines"])
    result["line_list"] = sorted("%s:%d" % (f[f.rindex("opyenxes"):], n) for f, n in REACHED["lines"])
    result["wall"] = time.monotonic() - started
    with open(out + ".part", "w") as f:
        json.dump(result, f)
    os.replace(out + ".part", out)


class Silent(io.TextIOBase):
    """Swallows what the library prints, but fails like a real utf-8 stream would."""

    def write(self, s):
        s.encode("utf-8", "surrogateescape")
        return len(s)


def guarded(ctx, function):
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        function()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


if __name__ == "__main__":
    soft = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    except (ValueError, OSError):
        pass
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
