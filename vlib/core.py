"""Harness core: sub-checks, violations, case bookkeeping.

A *sub-check* is a Hypothesis strategy producing plain (JSON-serialisable) data and a function
that drives magnopy's public API with this data and compares with an oracle.  Because a case is
plain data, the shrunk counterexample is itself the replay file.
"""

import json
import math
import os
import signal
import sys
import traceback

import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


class SubCheck:
    def __init__(self, name, strategy, func, quick, thorough, rule, nontrivial=None):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.nontrivial = nontrivial or (lambda case: True)


class Ctx:
    """Per-case context: labels for the evidence."""

    def __init__(self):
        self.labels = []

    def label(self, text):
        self.labels.append(str(text))


def fail(msg):
    raise Violation(msg)


def ensure(condition, msg):
    if not condition:
        raise Violation(msg() if callable(msg) else msg)


def arr(x, shape=None, what="value", dtype=float):
    """Convert a value returned by the code under test; bad values are violations."""
    try:
        a = np.array(x, dtype=dtype)
    except Exception as e:
        raise Violation(f"{what} is not array-like: {x!r} ({e})")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    return a


def num(x, what="value"):
    try:
        a = np.array(x)
        if a.shape != ():
            raise ValueError(f"shape {a.shape}")
        if np.iscomplexobj(a):
            raise ValueError("complex")
        return float(a)
    except Exception as e:
        raise Violation(f"{what} is not a real number: {x!r} ({e})")


def close(a, b, what, tol=1e-9, scale=None):
    """|a-b| <= tol*max(1,scale); scale defaults to the largest modulus of b."""
    b = np.asarray(b)
    a = arr(a, b.shape, what, dtype=complex if np.iscomplexobj(b) else float)
    if scale is None:
        scale = np.max(np.abs(b)) if b.size else 0.0
        if not np.isfinite(scale):
            scale = 0.0
    bound = tol * max(1.0, scale)
    d = np.abs(a - b)
    if not np.all(d <= bound):
        raise Violation(
            f"{what}: got {np.array2string(a, precision=12)} expected "
            f"{np.array2string(np.asarray(b), precision=12)} (tolerance {bound:.3g}, "
            f"difference {np.nanmax(d) if d.size else 0})"
        )


def raises(exc, func, what):
    """func() has to raise exactly the documented kind of the exception."""
    try:
        func()
    except exc:
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {text_of(e)}, expected {exc}")
    raise Violation(f"{what}: no exception raised, expected {exc}")


def text_of(exc):
    try:
        return str(exc)
    except Exception:
        # some exceptions of wulfric can not be printed
        return "(no message)"


def in_tested_code(exc):
    """Did the exception pass through the code under test?"""
    tb = exc.__traceback__
    for frame, _ in traceback.walk_tb(tb):
        name = frame.f_code.co_filename.replace("\\", "/")
        if "/magnopy/" in name or "/wulfric/" in name:
            return True
    return False


def _alarm(signum, frame):
    raise Violation("no result within the time limit of one case")


def run_case(sub, case, limit=150):
    """Run one case. Returns labels; raises Violation or HarnessError."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    try:
        return _run_case(sub, case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_case(sub, case):
    ctx = Ctx()
    np.random.seed(12345)
    # magnopy sets it when a file is rejected; it would hide the frames looked at below
    sys.tracebacklimit = 1000
    try:
        sub.func(case, ctx)
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        sys.tracebacklimit = 1000
        if in_tested_code(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/magnopy/" in f.filename or "/wulfric/" in f.filename]
            last = where[-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {text_of(e)} "
                f"(from {last.filename.split('/src/')[-1]}, {last.name})"
            ) from e
        if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, FileNotFoundError, StopIteration)):
            # A check reads every result of the unchanged code, thus this result has another form
            frame = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"result can not be interpreted, {type(e).__name__}: {e} (at {os.path.basename(frame.filename)}, {frame.line})"
            ) from e
        raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e
    return ctx.labels


def _default(o):
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, default=_default, sort_keys=True)


def finite(x):
    return all(math.isfinite(v) for v in np.ravel(x))
