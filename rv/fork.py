"""Runs one trial in a forked child, so that process-wide state starts fresh each time."""
import json
import os
import select
import sys
import time
import traceback

from rv.base import Inconclusive, Violation


def trial(ctx, function, limit=300):
    """function(ctx) in a child; counters, reached code and verdict come back to ctx."""
    for attempt in range(3):
        try:
            return once(ctx, function, limit)
        except Crash as error:      # of the interpreter, while its bytecode was being instrumented
            ctx.count("trials repeated after an interpreter crash")
            last = error
    raise Inconclusive(str(last))


class Crash(Exception):
    pass


def once(ctx, function, limit):
    reached = getattr(sys.modules.get("__main__"), "REACHED", {"functions": set(), "lines": set()})
    known = {k: set(v) for k, v in reached.items()}
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            ctx.counters.clear()
            ctx.seen.clear()
            out = {"violation": None, "inconclusive": None}
            try:
                out["value"] = function(ctx)
            except Violation as error:
                out["violation"] = str(error)
            except Inconclusive as error:
                out["inconclusive"] = str(error)
            except MemoryError:
                out["inconclusive"] = "out of memory"
            except BaseException:
                out["violation"] = "exception:\n" + traceback.format_exc(limit=-12)
            out["counters"] = dict(ctx.counters)
            out["seen"] = sorted(ctx.seen)
            out["functions"] = sorted(reached["functions"] - known["functions"])
            out["lines"] = sorted(reached["lines"] - known["lines"])
            data = json.dumps(out, default=repr).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    data, deadline = b"", time.monotonic() + limit
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, deadline - time.monotonic()))
            if not ready:
                os.kill(pid, 9)
                raise Inconclusive("a trial did not finish within %d s" % limit)
            piece = os.read(r, 1 << 16)
            if not piece:
                break
            data += piece
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if not data:
        raise (Crash if status in (4, 6, 7, 11) else Inconclusive)("a trial ended with status %d and no result" % status)
    out = json.loads(data)
    ctx.counters.update(out["counters"])
    ctx.seen.update(out["seen"])
    reached["functions"].update(out["functions"])
    reached["lines"].update((f, n) for f, n in out["lines"])
    if out["violation"]:
        raise Violation(out["violation"])
    if out["inconclusive"]:
        raise Inconclusive(out["inconclusive"])
    return out.get("value")
