"""Registration of generated-input tests, and helpers they use.

A test is a function check(spec, ctx) together with a Hypothesis strategy that
generates `spec`, a plain Python value (numbers, strings, tuples, lists, dicts)
that says everything about the case.  The same function decides a generated case,
a shrunk case and a replayed case.
"""
import numpy as np

TESTS = {}


class Violation(AssertionError):
    pass


class Test:
    def __init__(self, prop, name, strategy, fn, quick, thorough, numba, shards):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.numba, self.shards = quick, thorough, numba, shards


def check(prop, strategy, quick=200, thorough=None, numba=False, shards=8):
    """quick/thorough: number of generated cases over all shards."""
    def deco(fn):
        TESTS.setdefault(prop, []).append(
            Test(prop, fn.__name__, strategy, fn, quick, thorough or quick * 20, numba, shards))
        return fn
    return deco


class Ctx:
    """Per-case notes: is the case non-trivial, which classes does it belong to."""
    def __init__(self, scratch=None):
        self.nontrivial_flag = False
        self.labels = []
        self.scratch = scratch
        self.excluded = []

    def nontrivial(self, flag=True):
        if flag:
            self.nontrivial_flag = True

    def label(self, *names):
        self.labels.extend(names)

    def exclude(self, why):
        self.excluded.append(why)


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def _short(a):
    return np.array2string(np.asarray(a), threshold=60, precision=8)


def close(got, want, rtol=1e-6, atol=1e-8, what=""):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} where {want.shape} is expected\n got {_short(got)}\nwant {_short(want)}")
    with np.errstate(invalid="ignore"):
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        bad = np.argwhere(~ok)[:5].tolist()
        raise Violation(f"{what}: differs at {bad}\n got {_short(got)}\nwant {_short(want)}")


def equal(got, want, what=""):
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        g, w = np.asarray(got), np.asarray(want)
        same = g.shape == w.shape and bool(np.all((g == w) | ((g != g) & (w != w))))
    else:
        same = (got == want) or (got != got and want != want)
    if not same:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def raises(fn, *exc):
    """Return the exception fn() raised if it is one of exc, else None when it returned."""
    try:
        fn()
    except exc as e:
        return e
    return None


class rejects:
    """with rejects(ValueError): ... is a violation unless the block raises one of the exceptions."""
    def __init__(self, *exc):
        self.exc = exc

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        if kind is None:
            raise Violation("accepted, where one of " + ", ".join(e.__name__ for e in self.exc) + " is expected")
        return issubclass(kind, self.exc)
