"""B04 time_weight, B05 interpolated time-weighted values"""
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import afl, arr, ats, iv, ts
from .counter import choices

UNITS_US = {"microsecond": 1, "us": 1, "usecs": 1, "ms": 1000, "millisecond": 1000, "msec": 1000, "second": SEC, "s": SEC, "SECONDS": SEC, "sec": SEC,
            "minute": MIN, "min": MIN, "m": MIN, "Minutes": MIN, "hour": HOUR, "h": HOUR, "hrs": HOUR}
METHODS = [("locf", "LOCF"), ("locf", "locf"), ("locf", " Locf "), ("linear", "linear"), ("linear", "Linear"), ("linear", "trapezoidal")]


def area(pts, method):
    """exact area (value x microseconds) under the curve through time-ordered points"""
    a = F(0)
    for (t0, v0), (t1, v1) in zip(pts, pts[1:]):
        h = F(v0) if method == "locf" else (F(v0) + F(v1)) / 2
        a += h * (F(t1) - F(t0))
    return a


def at(p, n, t, method):
    if method == "locf":
        return F(p[1])
    return F(p[1]) + (F(n[1]) - F(p[1])) * (F(t) - p[0]) / (F(n[0]) - p[0])


def tol_of(pts, span):
    return F(max(abs(F(v)) for _, v in pts)) * (abs(F(span)) + 1) / 10**11


ACC = "integral(s,$U), average(s), first_val(s), last_val(s), first_time(s), last_time(s), integral(s)"


def check(pts, method, unit, got, what):
    a = area(pts, method)
    u = UNITS_US[unit]
    span = F(pts[-1][0]) - F(pts[0][0])
    t = tol_of(pts, span)
    need_same(got[0], a / u, t / u, what + " integral in " + unit)
    if span == 0:
        need(got[1] is None, "%s average of a single instant should be NULL: %r", what, got[1])
    else:
        need_same(got[1], a / span, t / span, what + " average")
        lo, hi = min(v for _, v in pts), max(v for _, v in pts)
        eps = 1e-9 * max(abs(lo), abs(hi))
        need(lo - eps <= got[1] <= hi + eps, "%s average %r outside [%r, %r]", what, got[1], lo, hi)
    need(same(got[2], pts[0][1]) and same(got[3], pts[-1][1]), "%s first/last value: got %r, expected %r", what, got[2:4], [pts[0][1], pts[-1][1]])
    need(got[4] == pts[0][0] and got[5] == pts[-1][0], "%s first/last time: got %r, expected %r", what, got[4:6], [pts[0][0], pts[-1][0]])
    need_same(got[6], a / SEC, t / SEC, what + " integral (default unit)")


@st.composite
def rows_case(draw):
    pts = draw(series(1, 24))
    rows = [list(p) for p in pts]
    for _ in range(draw(st.integers(0, 2))):
        rows.append(draw(st.sampled_from([[None, 3.0], [pts[0][0] + 1, None], [None, None]])))
    if len(pts) > 1:
        for _ in range(draw(st.integers(0, 2))):
            rows.append([draw(st.sampled_from(pts))[0], draw(vals)])
    o = draw(st.integers(0, 2))
    rows = rows if o == 0 else rows[::-1] if o == 1 else draw(st.permutations(rows))
    return {"rows": rows, "m": draw(st.integers(0, len(METHODS) - 1)), "u": draw(st.sampled_from(sorted(UNITS_US)))}


def f_basic(ctx, case):
    method, spelt = METHODS[case["m"]]
    rows = case["rows"]
    got = ctx.db.row("SELECT %s FROM (SELECT time_weight($3,t,v) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)) q" % ACC.replace("$U", "$4"),
                     ats([r[0] for r in rows]), afl([r[1] for r in rows]), spelt, case["u"])
    errs = []
    alts = choices(rows)
    for pts in alts:
        try:
            check(pts, method, case["u"], got, "time_weight(%s)" % spelt)
            break
        except Violation as e:
            errs.append(str(e))
    else:
        raise Violation(errs[0])
    ctx.ev.nontrivial(len(pts) >= 3 and len({v for _, v in pts}) > 1)
    ctx.ev.label("dups", len(alts) > 1)
    ctx.ev.label(method)
    ctx.ev.label("negative", any(v < 0 for _, v in pts))


@st.composite
def roll_case(draw):
    pts = draw(series(2, 24))
    g = draw(cuts(len(pts), 6))
    return {"pts": pts, "g": g, "order": draw(st.permutations(sorted(set(g)))), "m": draw(st.integers(0, len(METHODS) - 1)), "u": draw(st.sampled_from(sorted(UNITS_US)))}


def f_rolled(ctx, case):
    method, spelt = METHODS[case["m"]]
    pts = case["pts"]
    pos = {k: i for i, k in enumerate(case["order"])}
    got = ctx.db.row("SELECT %s FROM (SELECT rollup(s ORDER BY o) s FROM (SELECT o, time_weight($4,t,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::int[]) u(t,v,o) GROUP BY o) i) q" % ACC.replace("$U", "$5"),
                     ats([p[0] for p in pts]), afl([p[1] for p in pts]), arr([pos[x] for x in case["g"]]), spelt, case["u"])
    check(pts, method, case["u"], got, "rollup of time_weight(%s)" % spelt)
    ctx.ev.nontrivial(len(set(case["g"])) > 1)


# ---------------- interpolation ----------------
@st.composite
def interp_case(draw):
    pts = draw(series(1, 18))
    f, l = pts[0][0], pts[-1][0]
    opts = [p[0] for p in pts]
    a = draw(st.one_of(st.sampled_from(opts), st.integers(f - 5, l + 5), st.integers(f - 10**7, f)))
    b = draw(st.one_of(st.sampled_from(opts), st.integers(f - 5, l + 5), st.integers(l + 1, l + 10**7)))
    if a > b:
        a, b = b, a
    if a == b:
        b = a + 1 + draw(st.integers(0, 10**6))
    return {"pts": pts, "a": a, "b": b, "mask": draw(st.integers(0, 3)), "m": draw(st.integers(0, len(METHODS) - 1)), "u": draw(st.sampled_from(sorted(UNITS_US))), "arrow": draw(st.booleans())}


def f_interp(ctx, case):
    method, spelt = METHODS[case["m"]]
    pts, a, b = case["pts"], case["a"], case["b"]
    A = [p for p in pts if p[0] < a]
    B = [p for p in pts if a <= p[0] < b]
    C = [p for p in pts if p[0] >= b]
    if not B:
        raise Skip()
    useA = bool(A) and not case["mask"] & 1
    useC = bool(C) and not case["mask"] & 2
    src = "(SELECT time_weight($6,t,v) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v) WHERE %s)"
    sa = src % "t < $3::timestamptz" if useA else "NULL"
    sb = src % "t >= $3::timestamptz AND t < $4::timestamptz"
    sc = src % "t >= $4::timestamptz" if useC else "NULL"
    if case["arrow"]:
        sel = "s -> interpolated_average($3::timestamptz,$5::interval,p,n), s -> interpolated_integral($3::timestamptz,$5::interval,p,n,$7::text), s -> interpolated_integral($3::timestamptz,$5::interval,p,n)"
    else:
        sel = "interpolated_average(s,$3::timestamptz,$5::interval,p,n), interpolated_integral(s,$3::timestamptz,$5::interval,p,n,$7::text), interpolated_integral(s,$3::timestamptz,$5::interval,p,n)"
    got = ctx.db.row("SELECT %s FROM (SELECT %s::timeweightsummary s, %s::timeweightsummary p, %s::timeweightsummary n, $4::timestamptz) q" % (sel, sb, sa, sc),
                     ats([p[0] for p in pts]), afl([p[1] for p in pts]), ts(a), ts(b), iv(b - a), spelt, case["u"])
    c = [(F(t), F(v)) for t, v in B]
    if useA and B[0][0] > a:
        c.insert(0, (F(a), at(A[-1], B[0], a, method)))
    if useC or method == "locf":
        c.append((F(b), at(B[-1], C[0] if useC else None, b, method)))
    s = area(c, method)
    span = c[-1][0] - c[0][0]
    t = tol_of(pts, b - a) * 4
    u = UNITS_US[case["u"]]
    if span == 0:
        need(got[0] is None, "interpolated_average of a single instant should be NULL: %r", got[0])
    else:
        need_same(got[0], s / span, t / span, "interpolated_average (%s)" % method)
    need_same(got[1], s / u, t / u, "interpolated_integral (%s, %s)" % (method, case["u"]))
    need_same(got[2], s / SEC, t / SEC, "interpolated_integral (%s, default unit)" % method)
    ctx.ev.nontrivial(useA or useC)
    ctx.ev.label("prev used", useA and B[0][0] > a)
    ctx.ev.label("next used", useC)
    ctx.ev.label("first exactly at start", B[0][0] == a)
    ctx.ev.label(method)


@st.composite
def chain_case(draw):
    pts = draw(series(3, 20))
    w = max(draw(st.integers(1, max(1, (pts[-1][0] - pts[0][0]) // 2))), (pts[-1][0] - pts[0][0]) // 6 + 1)
    return {"pts": pts, "w": w, "off": draw(st.integers(0, w - 1)), "m": draw(st.integers(0, len(METHODS) - 1))}


def f_chain(ctx, case):
    method, spelt = METHODS[case["m"]]
    pts, w = case["pts"], case["w"]
    start = pts[0][0] - case["off"]
    ks = sorted({(p[0] - start) // w for p in pts})
    if ks != list(range(ks[0], ks[-1] + 1)):
        raise Skip()
    starts = [start + k * w for k in ks]
    rows = ctx.db.q("WITH b AS (SELECT g, time_weight($4,t,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::int[]) u(t,v,g) GROUP BY g), "
                    "w AS (SELECT s, b0, lag(s) OVER (ORDER BY g) p, lead(s) OVER (ORDER BY g) n FROM b JOIN (SELECT i-1 g, b0 FROM unnest($5::timestamptz[]) WITH ORDINALITY z(b0,i)) z USING (g)) "
                    "SELECT interpolated_integral(s,b0,$6::interval,p,n,'microsecond') FROM w",
                    ats([p[0] for p in pts]), afl([p[1] for p in pts]), arr([(p[0] - start) // w - ks[0] for p in pts]), spelt, ats(starts), iv(w))
    tot = sum(F(r[0]) for r in rows)
    c = list(pts)
    if method == "locf":
        c.append([starts[-1] + w, pts[-1][1]])
    exp = area(c, method)
    need_same(float(tot), exp, tol_of(pts, pts[-1][0] - pts[0][0] + w) * 10, "sum of the interpolated integrals (%s) of contiguous buckets" % method)
    ctx.ev.nontrivial(len(rows) >= 2)
    ctx.ev.label("buckets>=4", len(rows) >= 4)


@st.composite
def month_case(draw):
    """buckets of calendar months: the interval is added to the start, not scaled"""
    y, m = draw(st.integers(2019, 2024)), draw(st.integers(1, 12))
    from ..pg import PG_EPOCH_DAYS, days_from_civil
    nm = draw(st.integers(1, 3))
    a = (days_from_civil(y, m, 1) - PG_EPOCH_DAYS) * DAY
    y2, m2 = (y, m + nm) if m + nm <= 12 else (y + 1, m + nm - 12)
    b = (days_from_civil(y2, m2, 1) - PG_EPOCH_DAYS) * DAY
    ds = sorted(draw(st.sets(st.integers(1, (b - a) // DAY - 1), min_size=1, max_size=5)))
    return {"a": a, "b": b, "nm": nm, "pts": [[a + d * DAY, draw(vals)] for d in ds], "m": draw(st.sampled_from([0, 3])),
            "prev": [a - draw(st.integers(1, 40)) * DAY, draw(vals)], "next": [b + draw(st.integers(0, 40)) * DAY, draw(vals)]}


def f_month(ctx, case):
    method, spelt = METHODS[case["m"]]
    pts = [case["prev"]] + case["pts"] + [case["next"]]
    a, b = case["a"], case["b"]
    src = "(SELECT time_weight($5,t,v) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v) WHERE %s)"
    got = ctx.db.row("SELECT interpolated_average(s,$3::timestamptz,$6::interval,p,n), s -> interpolated_average($3::timestamptz,$6::interval,p,n), "
                     "interpolated_integral(s,$3::timestamptz,$6::interval,p,n), s -> interpolated_integral($3::timestamptz,$6::interval,p,n) FROM (SELECT %s s, %s p, %s n) q"
                     % (src % "t >= $3::timestamptz AND t < $4::timestamptz", src % "t < $3::timestamptz", src % "t >= $4::timestamptz"),
                     ats([p[0] for p in pts]), afl([p[1] for p in pts]), ts(a), ts(b), spelt, "%d months" % case["nm"])
    B = case["pts"]
    c = [(F(a), at(case["prev"], B[0], a, method))] + [(F(t), F(v)) for t, v in B] + [(F(b), at(B[-1], case["next"], b, method))]
    s = area(c, method)
    t = tol_of(pts, 3 * (b - a)) * 4
    for k in (0, 1):
        need_same(got[k], s / (b - a), t / (b - a), "interpolated_average over %d months" % case["nm"])
        need_same(got[k + 2], s / SEC, t / SEC, "interpolated_integral over %d months" % case["nm"])
    ctx.ev.nontrivial()


PROPS = {
    "B04": {"technique": "property-based testing: exact area under the curve as the reference model",
            "rule": "three or more distinct points with differing values (rolled: at least two groups)",
            "subs": [Sub("basic", rows_case(), f_basic, 4000), Sub("rolled", roll_case(), f_rolled, 2400)]},
    "B05": {"technique": "property-based testing: exact clipped area as the reference model; additivity over consecutive buckets",
            "rule": "a neighbouring summary is given (interp, month), or at least two buckets (chain)",
            "subs": [Sub("interp", interp_case(), f_interp, 3600), Sub("chain", chain_case(), f_chain, 1200), Sub("month", month_case(), f_month, 800)]},
}
