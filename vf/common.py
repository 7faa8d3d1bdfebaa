"""Shared vocabulary of the monitors: violations, counters, tolerant comparison."""
import hashlib
import math
from collections import Counter

INF = float("inf")


class Violation(Exception):
    """The observed execution breaks the property."""

    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Ctx:
    """What one case observed. A fresh one per case; merged by the runner."""

    def __init__(self, rng, index, tier, seed, tmp):
        self.rng = rng
        self.index = index
        self.tier = tier
        self.seed = seed
        self.tmp = tmp            # scratch directory of this case's worker (may be written freely)
        self.ev = Counter()       # monitored events
        self.sig = []             # structure of the case, for distinctness
        self.desc = {}            # human readable inputs, for samples and replays
        self.nontrivial = True

    def count(self, name, n=1):
        self.ev[name] += int(n)

    def shape(self, *parts):
        self.sig.append(parts)

    def signature(self):
        return hashlib.sha1(repr(self.sig).encode()).hexdigest()[:16]


def fail(what, **detail):
    raise Violation(what, **detail)


def require(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


def close(a, b, rel=1e-7, abs_=1e-9):
    """Tolerant equality that treats equal infinities as equal and NaN as never equal."""
    try:
        if a is None or b is None:
            return a is b
        if a == b:
            return True
        if isinstance(a, complex) or isinstance(b, complex):
            return False
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
    except TypeError:
        return False


def req_close(a, b, what, rel=1e-7, abs_=1e-9, **detail):
    if not close(a, b, rel, abs_):
        raise Violation(what, got=repr(a), expected=repr(b), **detail)


def is_num(x):
    try:
        float(x)
    except (TypeError, ValueError):
        return False
    return not isinstance(x, (str, bytes)) and not math.isnan(float(x))


def approx_map(got, want, what, rel=1e-7, abs_=1e-9, **detail):
    """Compare two dict key -> number, absent == 0."""
    for k in set(got) | set(want):
        req_close(got.get(k, 0), want.get(k, 0), "%s [%s]" % (what, k), rel, abs_, **detail)
