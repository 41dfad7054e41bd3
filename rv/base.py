"""Core of the monitors: case contexts, verdicts, difference reports."""
import hashlib
import json
from collections import Counter


class Violation(Exception):
    """The oracle observed an execution that breaks the property."""


class Inconclusive(Exception):
    """The monitor could not decide (environment trouble, nothing observed)."""


def short(value, limit=300):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + "...(%d)" % len(text)


def first_difference(actual, expected, path="$"):
    """Path and values of the first difference of two plain structures."""
    if type(actual) is not type(expected):
        return "%s: got %s, expected %s" % (path, short(actual), short(expected))
    if isinstance(expected, dict):
        for key in expected:
            if key not in actual:
                return "%s: missing %s (expected %s)" % (path, short(repr(key), 80), short(expected[key]))
        for key in actual:
            if key not in expected:
                return "%s: unexpected %s (got %s)" % (path, short(repr(key), 80), short(actual[key]))
        for key in expected:
            diff = first_difference(actual[key], expected[key], "%s.%s" % (path, short(str(key), 60)))
            if diff:
                return diff
        return None
    if isinstance(expected, (list, tuple)):
        for i, (a, e) in enumerate(zip(actual, expected)):
            diff = first_difference(a, e, "%s[%d]" % (path, i))
            if diff:
                return diff
        if len(actual) != len(expected):
            return "%s: got %d items, expected %d" % (path, len(actual), len(expected))
        return None
    if actual != expected:
        return "%s: got %s, expected %s" % (path, short(actual), short(expected))
    return None


class Ctx:
    """What one worker observed: counters, distinct cases, samples."""

    def __init__(self, seed, tier, scratch):
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        self.counters = Counter()
        self.seen = set()
        self.samples = []
        self.index = None
        self.state = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def count(self, name, n=1):
        self.counters[name] += n

    def distinct(self, case):
        """Records a non-trivial case by a digest of its content."""
        if not isinstance(case, (str, bytes)):
            case = repr(case)
        if isinstance(case, str):
            case = case.encode("utf-8", "surrogatepass")
        self.seen.add(hashlib.sha1(case).hexdigest()[:16])

    def sample(self, case, limit=3, size=700):
        if len(self.samples) < limit:
            text = case if isinstance(case, str) else json.dumps(case, default=repr, ensure_ascii=True)
            self.samples.append("case %s: %s" % (self.index, short(text, size)))

    def fail(self, message, **detail):
        extra = "".join("\n  %s: %s" % (k, short(v, 2000)) for k, v in detail.items())
        raise Violation(message + extra)

    def check(self, condition, message, **detail):
        self.counters["checks"] += 1
        if not condition:
            self.fail(message, **detail)

    def same(self, actual, expected, what, **detail):
        self.counters["checks"] += 1
        if actual != expected or type(actual) is not type(expected):
            diff = first_difference(actual, expected)
            if diff is None and actual != expected:
                diff = "got %s, expected %s" % (short(actual), short(expected))
            if diff is not None:
                self.fail("%s: %s" % (what, diff), **detail)
