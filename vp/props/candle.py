"""B12 candlestick"""
from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import afl, arr, ats, ts

ACC = "open(s), high(s), low(s), close(s), open_time(s), high_time(s), low_time(s), close_time(s), volume(s), vwap(s)"


def tol(vs):
    return F(1, 10**11) * sum((abs(F(v)) for v in vs), F(1))


def check(r, parts, what):
    """parts: (time, open, high, low, close, volume, money) in arrival order"""
    t0 = min(p[0] for p in parts)
    t1 = max(p[4] for p in parts)
    op = {p[1] for p in parts if p[0] == t0}
    cl = {p[5] for p in parts if p[4] == t1}
    hi = max(p[2][0] for p in parts)
    lo = min(p[3][0] for p in parts)
    need(r[0] in op and r[4] == t0, "%s open: got %r at %r, expected %r at %r", what, r[0], r[4], sorted(op), t0)
    need(r[3] in cl and r[7] == t1, "%s close: got %r at %r, expected %r at %r", what, r[3], r[7], sorted(cl), t1)
    need(r[1] == hi, "%s high: got %r, expected %r", what, r[1], hi)
    need(r[2] == lo, "%s low: got %r, expected %r", what, r[2], lo)
    hts = {t for p in parts if p[2][0] == hi for t in p[2][1]}
    lts = {t for p in parts if p[3][0] == lo for t in p[3][1]}
    need(r[5] in hts, "%s high_time %r is not a time of the high %r: %r", what, r[5], hi, sorted(hts))
    need(r[6] in lts, "%s low_time %r is not a time of the low %r: %r", what, r[6], lo, sorted(lts))
    if any(p[6] is None for p in parts):
        need(r[8] is None and r[9] is None, "%s volume/vwap with a missing volume: got %r, expected NULL", what, r[8:10])
        return
    vol = sum((F(p[6]) for p in parts), F(0))
    money = sum((p[7] for p in parts), F(0))
    tv = tol(p[6] for p in parts)
    need_same(r[8], vol, tv, what + " volume")
    if vol > tv:
        tm = F(1, 10**11) * sum((abs(p[7]) for p in parts), F(1))
        need_same(r[9], money / vol, tm / vol + abs(money / vol) * tv / vol, what + " vwap")
    elif vol == 0 and all(p[6] == 0 for p in parts):
        need(r[9] is None, "%s vwap of zero volume: got %r, expected NULL", what, r[9])


def tick(t, p, v):
    return [t, p, (p, {t}), (p, {t}), t, p, v, F(p) * F(v) if v is not None else None]


vols = st.one_of(st.integers(0, 50).map(float), st.integers(1, 400).map(lambda k: k / 4.0))
prices = st.one_of(posvals, vals)


@st.composite
def ticks(draw, lo=1, hi=20, distinct=True):
    t = draw(times(lo, hi, distinct=distinct))
    nullv = draw(st.integers(0, 3))
    rows = [[x, draw(prices), None if nullv == 0 and draw(st.integers(0, 4)) == 0 else draw(vols)] for x in t]
    return rows


@st.composite
def basic_case(draw):
    rows = draw(ticks(distinct=draw(st.integers(0, 3)) > 0))
    for _ in range(draw(st.integers(0, 2))):
        rows.append(draw(st.sampled_from([[None, 5.0, 1.0], [rows[0][0] - 3, None, 1.0], [None, None, None]])))
    o = draw(st.integers(0, 2))
    rows = rows if o == 0 else rows[::-1] if o == 1 else draw(st.permutations(rows))
    return {"rows": [list(r) for r in rows]}


def f_basic(ctx, case):
    rows = case["rows"]
    r = ctx.db.row("SELECT " + ACC + " FROM (SELECT candlestick_agg(t,p,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::float8[]) u(t,p,v)) q",
                   ats([x[0] for x in rows]), afl([x[1] for x in rows]), afl([x[2] for x in rows]))
    real = [tick(*x) for x in rows if x[0] is not None and x[1] is not None]
    check(r, real, "candlestick_agg")
    ctx.ev.nontrivial(len(real) >= 3)
    ctx.ev.label("missing volume", any(p[6] is None for p in real))
    ctx.ev.label("same time", len({p[0] for p in real}) < len(real))


@st.composite
def ohlcv_case(draw):
    t = draw(times(1, 12))
    rows = []
    for x in t:
        ps = sorted(draw(prices) for _ in range(4))
        o, c = draw(st.permutations(ps[1:3]))
        rows.append([x, o, ps[3], ps[0], c, None if draw(st.integers(0, 9)) == 0 else draw(vols)])
    return {"rows": draw(st.permutations(rows)), "null": draw(st.booleans())}


def f_ohlcv(ctx, case):
    """candlesticks made from finished bars, alone and rolled up"""
    rows = case["rows"]
    prm = [ats([x[0] for x in rows])] + [afl([x[i] for x in rows]) for i in range(1, 6)]
    src = "unnest($1::timestamptz[],$2::float8[],$3::float8[],$4::float8[],$5::float8[],$6::float8[]) WITH ORDINALITY u(t,o,h,l,c,v,i)"
    rs = ctx.db.q("SELECT " + ACC + " FROM (SELECT i, candlestick(t,o,h,l,c,v) s FROM " + src + ") q ORDER BY i", *prm)
    parts = []
    for x, r in zip(rows, rs):
        t, o, h, l, c, v = x
        money = (F(h) + F(l) + F(c)) / 3 * F(v) if v is not None else None
        p = [t, o, (h, {t}), (l, {t}), t, c, v, money]
        check(r, [p], "candlestick()")
        parts.append(p)
    r = ctx.db.row("SELECT " + ACC + " FROM (SELECT rollup(x ORDER BY i) s FROM (SELECT i, candlestick(t,o,h,l,c,v) x FROM " + src + (" UNION ALL SELECT 0, NULL UNION ALL SELECT 2, candlestick(NULL,1,1,1,1,1) UNION ALL SELECT 2, candlestick(now(),1,NULL,1,1,1)" if case["null"] else "") + ") z) q", *prm)
    check(r, parts, "rollup of candlestick()")
    ctx.ev.nontrivial(len(rows) >= 2)


@st.composite
def roll_case(draw):
    rows = draw(ticks(2, 20))
    k = draw(st.integers(1, 5))
    return {"rows": rows, "g": [draw(st.integers(0, k - 1)) for _ in rows], "two": draw(st.booleans())}


def f_rolled(ctx, case):
    """any grouping, not only by time; one or two levels"""
    rows = case["rows"]
    if case["two"]:
        inner = "(SELECT rollup(s) s FROM (SELECT g, candlestick_agg(t,p,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::float8[],$4::int[]) u(t,p,v,g) GROUP BY g) a GROUP BY g%2)"
    else:
        inner = "(SELECT candlestick_agg(t,p,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::float8[],$4::int[]) u(t,p,v,g) GROUP BY g)"
    r = ctx.db.row("SELECT " + ACC + " FROM (SELECT rollup(s) s FROM " + inner + " i) q",
                   ats([x[0] for x in rows]), afl([x[1] for x in rows]), afl([x[2] for x in rows]), arr(case["g"]))
    check(r, [tick(*x) for x in rows], "rollup of candlestick_agg")
    ctx.ev.nontrivial(len(set(case["g"])) > 1)


PROPS = {
    "B12": {"rule": "basic: at least three counted ticks; ohlcv: at least two bars; rolled: at least two groups", "subs": [
        Sub("basic", basic_case(), f_basic, 3200),
        Sub("ohlcv", ohlcv_case(), f_ohlcv, 1600),
        Sub("rolled", roll_case(), f_rolled, 2000)]},
}
