"""Sub-checks, recorder, violation type and helpers shared by all properties."""
import contextlib
import hashlib
import json
import math
import os
import sys
import traceback

from boot import REPO, HarnessError


class Violation(Exception):
    """The property is broken for this case."""


class Skip(Exception):
    """Case outside the property's domain (counted, never a failure)."""


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        args = [a() if callable(a) else a for a in args]
        raise Violation(msg.format(*args) if args else msg)


def _np():
    import numpy as np
    return np


def close(a, b, rtol=1e-9, atol=1e-9):
    """Scalar closeness; NaN equals NaN, infinities must match."""
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(a, b, what, rtol=1e-9, atol=1e-9):
    try:
        ok = close(a, b, rtol, atol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation("{}: got {!r}, expected {!r}".format(
            what() if callable(what) else what, a, b))


def check_vec(a, b, what, rtol=1e-9, atol=1e-9):
    a = list(a)
    b = list(b)
    if len(a) != len(b):
        raise Violation("{}: length {} instead of {}".format(
            what, len(a), len(b)))
    for i, (u, v) in enumerate(zip(a, b)):
        check_close(u, v, "{}[{}]".format(what, i), rtol, atol)


@contextlib.contextmanager
def observing(what):
    """Reading the library's output: a malformed output is a violation."""
    try:
        yield
    except (Violation, Skip):
        raise
    except (KeyError, IndexError, ValueError, TypeError, AttributeError,
            ZeroDivisionError, AssertionError) as e:
        raise Violation("{}: output cannot be read: {}: {}".format(
            what, type(e).__name__, e))


@contextlib.contextmanager
def must_raise(excs, what):
    try:
        yield
    except excs:
        return
    except (Violation, Skip):
        raise
    except Exception as e:
        raise Violation("{}: raised {} ({}) instead of {}".format(
            what, type(e).__name__, e,
            "/".join(x.__name__ for x in (
                excs if isinstance(excs, tuple) else (excs,)))))
    raise Violation("{}: no error raised".format(what))


def repo_frame(exc):
    """Innermost frame inside the package under test, or None."""
    tb = exc.__traceback__
    found = None
    root = os.path.join(os.path.realpath(REPO), "optbinning") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            found = "{}:{}".format(os.path.relpath(fn, os.path.realpath(REPO)),
                                   tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return found


def jdefault(o):
    np = _np()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, bytes):
        return list(o)
    if isinstance(o, tuple):
        return list(o)
    return repr(o)


def cjson(case):
    return json.dumps(case, sort_keys=True, default=jdefault)


def chash(case):
    return hashlib.blake2b(cjson(case).encode(), digest_size=8).digest()


class Rec:
    """Per-shard recorder handed to every check function."""

    def __init__(self, known):
        self.labels = {}
        self.known_ids = known
        self.known_hits = {}
        self._nt = False
        self._case_labels = []
        self._in_label = False

    def begin(self):
        self._nt = False
        self._case_labels = []

    def label(self, *names):
        for n in names:
            if n not in self._case_labels:
                self._case_labels.append(n)

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def known(self, kid, msg):
        """A deviation matching a listed finding is counted, others fail."""
        if kid in self.known_ids:
            self.known_hits[kid] = self.known_hits.get(kid, 0) + 1
            raise Skip("known finding " + kid)
        raise Violation("{} [{}]".format(msg, kid))


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule="",
                 weight=1.0):
        self.name = name
        self.strategy = strategy      # zero-argument callable
        self.fn = fn                  # fn(case, rec)
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule
        self.weight = weight


def run_case(sub, case, rec):
    """Run one case; raises Violation / HarnessError; returns label of skip."""
    rec.begin()
    try:
        sub.fn(case, rec)
        return None
    except Skip as e:
        return str(e) or "skip"
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as e:
        where = repo_frame(e)
        if where is None:
            raise HarnessError("harness error in {}: {}".format(
                sub.name, "".join(traceback.format_exception(e))))
        raise Violation("valid input crashed in {}: {}: {}".format(
            where, type(e).__name__, str(e)[:300]))
