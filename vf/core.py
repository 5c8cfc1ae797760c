"""Exceptions and small helpers shared by the checks."""
import math
import signal


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class oracle:
    """Context manager: whatever goes wrong inside is the harness's fault."""

    def __enter__(self):
        self.left = signal.setitimer(signal.ITIMER_PROF, 0)  # the oracle's time is not the code's
        return self

    def __exit__(self, et, ev, tb):
        if self.left[0] > 0:
            signal.setitimer(signal.ITIMER_PROF, *self.left)
        if et is not None and issubclass(et, Exception) and not issubclass(et, HarnessError):
            raise HarnessError(f"oracle failed: {et.__name__}: {ev}") from ev
        return False


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, tol=1e-9):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= tol


def close_rel(a, b, tol=1e-9):
    """Sums and products of non-negative numbers keep a small relative error, however small the result."""
    return close(a, b, tol * max(abs(float(b)), 1e-290))


def same_dist(got, want, what, tol=1e-9, rel=False):
    """Compares two dicts value -> probability."""
    if not isinstance(got, dict):
        fail(f"{what}: not a mapping: {got!r}")
    if set(got) != set(want):
        fail(f"{what}: values {sorted(map(str, got))} instead of {sorted(map(str, want))}")
    for k in want:
        if not (close_rel if rel else close)(got[k], want[k], tol):
            fail(f"{what}: P({k}) is {got[k]!r}, expected {want[k]!r}")


def same_marginals(got, want, what, tol=1e-9, rel=False):
    """Compares two dicts name -> (value -> probability)."""
    if set(got) != set(want):
        fail(f"{what}: variables {sorted(got)} instead of {sorted(want)}")
    for n in want:
        same_dist(got[n], want[n], f"{what}: variable {n!r}", tol, rel)
