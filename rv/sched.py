"""Runs threads under a seeded baton scheduler: one thread runs at a time and the
baton changes hands at line (or instruction) boundaries of opyenxes code."""
import gc
import os
import random
import sys
import threading
import time
import types
import zlib

ROOT = os.environ.get("RV_SRC", "/repo/src") + os.sep + "opyenxes"
STEAL = 0.02


TOOL = 4
CODES = {"modules": None, "codes": []}


def library():
    """Every code object of the opyenxes modules imported so far."""
    modules = sorted(n for n in sys.modules if n.startswith("opyenxes"))
    if CODES["modules"] != modules:
        todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
        found = {}
        while todo:
            code = todo.pop()
            if id(code) not in found and code.co_filename.startswith(ROOT):
                found[id(code)] = code
                todo.extend(c for c in code.co_consts if isinstance(c, types.CodeType))
        CODES["codes"] = list(found.values())
        CODES["modules"] = modules
    return CODES["codes"]


class Stuck(Exception):
    """No thread made progress for a long time."""


class Baton:
    """Interleaves functions; results and exceptions are returned per function."""

    def __init__(self, seed, chance=0.1, opcodes=False):
        self.rng = random.Random(seed)
        self.chance = chance
        self.opcodes = opcodes
        self.guard = threading.Lock()
        self.current = None
        self.alive = set()
        self.wake = {}
        self.steps = 0
        self.switches = 0
        self.steals = 0
        self.trail = 0          # digest of the order of switches
        self.blocked = set()    # threads that lost the baton because they did not move

    def pick(self, me):
        others = sorted(self.alive - self.blocked - {me})
        return self.rng.choice(others) if others else None

    def hand_over(self, me, to, line=None):
        """Caller holds guard."""
        self.current = to
        self.switches += 1
        self.trail = zlib.crc32(("%s>%s@%s" % (me, to, line)).encode(), self.trail)
        self.wake[to].set()

    def wait_turn(self, me):
        seen = -1
        while True:
            if self.current == me:
                return
            if self.wake[me].wait(STEAL):
                self.wake[me].clear()
                continue
            with self.guard:
                if self.current == me:
                    return
                if self.current is None or self.current not in self.alive:
                    self.current = me
                    return
                if self.steps == seen:      # the holder is blocked outside our sight
                    self.steals += 1
                    self.blocked.add(self.current)
                    self.current = me
                    return
                seen = self.steps

    def point(self, me, code, where):
        if self.current != me:
            self.blocked.discard(me)
            self.wait_turn(me)
        self.steps += 1
        if self.rng.random() < self.chance:
            with self.guard:
                to = self.pick(me)
                if to is None or self.current != me:
                    return
                self.wake[me].clear()
                self.hand_over(me, to, "%s:%d" % (code.co_name, where))
            self.wait_turn(me)

    def watch(self, codes):
        """Calls point() before each line (or instruction) of these code objects."""
        mon = sys.monitoring
        names = {}

        def step(code, where):
            me = names.get(threading.get_ident())
            if me is not None:
                self.point(me, code, where)
        event = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
        mon.use_tool_id(TOOL, "rv.sched")
        mon.register_callback(TOOL, event, step)
        for code in codes:
            mon.set_local_events(TOOL, code, event)
        return names

    @staticmethod
    def unwatch(codes):
        mon = sys.monitoring
        for code in codes:
            mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def run(self, functions, limit=90):
        """[(ok, result or exception)] in the order of the functions."""
        results = [None] * len(functions)
        self.alive = set(range(len(functions)))
        self.wake = {n: threading.Event() for n in self.alive}
        self.current = self.rng.randrange(len(functions))
        ready = threading.Barrier(len(functions))

        codes = library()
        names = self.watch(codes)

        def body(n):
            ready.wait()
            self.wait_turn(n)
            names[threading.get_ident()] = n
            try:
                results[n] = (True, functions[n]())
            except BaseException as error:
                results[n] = (False, error)
            finally:
                names.pop(threading.get_ident(), None)
                with self.guard:
                    self.alive.discard(n)
                    self.blocked.discard(n)
                    to = self.pick(n)
                    if to is not None and self.current == n:
                        self.hand_over(n, to)
        threads = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(functions))]
        try:
            join(threads, limit, lambda: self.steps)
        finally:
            self.unwatch(codes)
        return results


def join(threads, limit, progress=lambda: 0):
    """Waits for threads; raises Stuck when the process stays idle although they are not done."""
    for t in threads:
        t.start()
    quiet, cpu, steps = time.monotonic(), time.process_time(), progress()
    for t in threads:
        while True:
            t.join(1)
            if not t.is_alive():
                break
            now = time.process_time()
            if now - cpu > 1.0 or progress() != steps:
                quiet, cpu, steps = time.monotonic(), now, progress()
            if time.monotonic() - quiet > limit:
                raise Stuck("%d of %d threads never finished" % (sum(x.is_alive() for x in threads), len(threads)))


def free(functions, limit=90, interval=1e-6):
    """Runs functions in freely scheduled threads with a very short switch interval."""
    results = [None] * len(functions)
    ready = threading.Barrier(len(functions))

    def body(n):
        ready.wait()
        try:
            results[n] = (True, functions[n]())
        except BaseException as error:
            results[n] = (False, error)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        join([threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(functions))], limit)
    finally:
        sys.setswitchinterval(old)
    return results
