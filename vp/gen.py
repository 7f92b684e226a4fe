"""Shared generators and comparison helpers."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from .core import Violation

SEC = 10**6
MIN = 60 * SEC
HOUR = 3600 * SEC
DAY = 24 * HOUR
Y2020 = 631152000 * SEC  # 2020-01-01 in microseconds since 2000-01-01

BASES = [0, Y2020, Y2020 + 12345678, -DAY * 400 - 7, 86399 * SEC + 999999]
UNITS = [1, 1000, SEC, 10 * SEC, MIN, 7 * MIN + 1, HOUR, DAY]


# ---------- values ----------
small_ints = st.integers(-20, 20).map(float)
dyadic = st.integers(-4000, 4000).map(lambda k: k / 8.0)
mid = st.floats(-1e6, 1e6, allow_nan=False, width=32).map(lambda x: float(x) + 0.0)
exactvals = st.one_of(small_ints, dyadic, st.integers(-10**6, 10**6).map(float))
vals = st.one_of(small_ints, dyadic, mid)
posvals = st.one_of(st.integers(0, 30).map(float), st.integers(0, 4000).map(lambda k: k / 8.0))
wild = st.one_of(small_ints, mid, st.floats(allow_nan=False, allow_infinity=False),
                 st.sampled_from([0.0, -0.0, 1e300, -1e300, 5e-324, 1e-300]))
special = st.sampled_from([float("nan"), float("inf"), float("-inf"), -0.0, 0.0, 1e308, -1e308, 5e-324])


@st.composite
def times(draw, lo, hi, distinct=True, maxgap=12, base=None):
    """a sorted list of timestamps (us), lo..hi of them"""
    n = draw(st.integers(lo, hi))
    b = draw(st.sampled_from(BASES)) if base is None else base
    u = draw(st.sampled_from(UNITS))
    jit = draw(st.booleans())
    out = []
    t = b
    for _ in range(n):
        g = draw(st.integers(1 if distinct else 0, maxgap))
        t += g * u
        out.append(t + (draw(st.integers(0, max(0, min(u // 3, 1000)))) if jit and u > 3 else 0))
    out.sort()
    if distinct:
        for i in range(1, n):
            if out[i] <= out[i - 1]:
                out[i] = out[i - 1] + 1
    return out


@st.composite
def series(draw, lo, hi, v=vals, distinct=True, maxgap=12, base=None):
    ts = draw(times(lo, hi, distinct, maxgap, base))
    return [[t, draw(v)] for t in ts]


@st.composite
def shuffled(draw, strat):
    xs = draw(strat)
    return draw(st.permutations(xs)) if len(xs) > 1 else list(xs)


@st.composite
def cuts(draw, n, maxparts=5):
    """group number per index of a contiguous partition of range(n)"""
    k = draw(st.integers(1, maxparts))
    cs = sorted(draw(st.integers(0, n)) for _ in range(k - 1))
    out = []
    g = 0
    for i in range(n):
        while g < len(cs) and i >= cs[g]:
            g += 1
        out.append(g)
    return out


def split_groups(rows, groups):
    d = {}
    for r, g in zip(rows, groups):
        d.setdefault(g, []).append(r)
    return [d[k] for k in sorted(d)]


# ---------- comparison ----------
def isnan(x):
    return isinstance(x, float) and x != x


def same(got, exp, tol=0.0):
    """got: value from SQL. exp: float/Fraction/int/None/str"""
    if got is None or exp is None:
        return got is None and exp is None
    if isinstance(exp, (str, bool)) or isinstance(got, (str, bool)):
        return got == exp
    if isnan(exp) or isnan(got):
        return isnan(exp) and isnan(got)
    if isinstance(exp, float) and math.isinf(exp):
        return got == exp
    if isinstance(got, float) and math.isinf(got):
        # only acceptable when the exact value is out of range anyway
        return isinstance(exp, Fraction) and abs(exp) > Fraction(1.7e308) and (got > 0) == (exp > 0)
    if tol == 0:
        return got == exp
    return abs(Fraction(got) - Fraction(exp)) <= Fraction(tol)


def need(cond, msg, *a, sig=None):
    if not cond:
        raise Violation(msg % a if a else msg, sig)


def need_same(got, exp, tol, what, sig=None):
    if not same(got, exp, tol):
        e = exp
        if isinstance(exp, Fraction):
            try:
                e = float(exp)
            except OverflowError:
                pass
        raise Violation("%s: got %r, expected %r (tolerance %.3g)" % (what, got, e, float(tol)), sig)


def relclose(a, b, rel=1e-9, scale=0.0):
    """two measured values that should agree up to rounding"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(relclose(x, y, rel, scale) for x, y in zip(a, b))
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-13 * scale + 5e-324


F = Fraction
