"""B06 one-variable statistics, B07 two-variable statistics, B08 sliding windows"""
import math
import re
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr

EPS = 2.3e-16
NAN = float("nan")


# ---------------- data ----------------
@st.composite
def column(draw, n, kinds=None):
    """n finite values in one of several shapes; returns (values, exact?)"""
    k = draw(st.sampled_from(kinds or ["int", "int", "dyadic", "mid", "offset", "const", "mixed", "tiny", "outlier"]))
    if k == "int":
        return [float(draw(st.integers(-9, 9))) for _ in range(n)], True
    if k == "dyadic":
        return [draw(st.integers(-4000, 4000)) / 8.0 for _ in range(n)], True
    if k == "mid":
        return [draw(mid) for _ in range(n)], False
    if k == "offset":
        off = draw(st.sampled_from([1e3, 1e6, -1e6, 1e9, -1e9, 1e12, 4e15]))
        return [off + draw(st.integers(-8, 8)) / (1.0 if abs(off) > 1e13 else 4.0) for _ in range(n)], False
    if k == "const":
        c = float(draw(st.integers(-50, 50)))
        return [c] * n, True
    if k == "mixed":
        return [draw(st.sampled_from([1e-5, 1.0, 1e5, 1e10])) * draw(st.integers(-9, 9)) for _ in range(n)], False
    if k == "tiny":
        return [draw(st.integers(-9, 9)) * 1e-12 for _ in range(n)], False
    xs = [float(draw(st.integers(-9, 9))) for _ in range(n)]
    for _ in range(draw(st.integers(1, 2))):
        if n:
            xs[draw(st.integers(0, n - 1))] = float(draw(st.sampled_from([10**6, -10**6, 12345678, 10**9])))
    return xs, True


@st.composite
def with_nulls(draw, xs):
    if draw(st.integers(0, 2)):
        return list(xs)
    return [None if draw(st.integers(0, 4)) == 0 else x for x in xs]


class M1:
    """exact one-variable moments, plus the rounding scale of a well-behaved one-pass algorithm"""

    def __init__(self, xs, slack=1.0, extra=0.0):
        self.n = n = len(xs)
        if not n:
            return
        fx = [F(x) for x in xs]
        self.s = sum(fx)
        self.mean = self.s / n
        dv = [x - self.mean for x in fx]
        self.m = [None, None] + [sum(d ** k for d in dv) for k in (2, 3, 4)]
        self.amax = max(abs(x) for x in xs)
        self.r = float(max(abs(d) for d in dv))
        # error of one deviation
        self.d = slack * 4 * EPS * (n + 3) * self.amax + extra
        self.slack = slack
        rr = self.r + self.d
        self.em = [None, None] + [k * n * self.d * rr ** (k - 1) * 2 ** k + slack * 1e-13 * n * (n + 1) * rr ** k + 1e-300 for k in (2, 3, 4)]
        self.es = slack * 2 * EPS * (n + 2) * sum(abs(x) for x in xs) + 1e-300


def check1(m, got, what, one_null=False, undefined=(None, NAN)):
    """got: num_vals,sum,average, then variance,stddev,skewness,kurtosis for sample, then for population"""
    need(got[0] == m.n, "%s num_vals: got %r, expected %d", what, got[0], m.n)
    if m.n == 0:
        need(all(g is None for g in got[1:]), "%s of no values should be NULL everywhere: %r", what, got)
        return
    n = m.n
    need_same(got[1], m.s, m.es, what + " sum")
    need_same(got[2], m.mean, m.es / n + abs(float(m.mean)) * 1e-15, what + " average")
    for off, dn, nm in ((3, n - 1, "sample"), (7, n, "population")):
        var, sd, sk, ku = got[off:off + 4]
        w = "%s %s " % (what, nm)
        if dn == 0:
            for g, nn in ((var, "variance"), (sd, "stddev"), (sk, "skewness"), (ku, "kurtosis")):
                need(g is None or isnan(g), w + nn + " of one value should be undefined, got %r", g)
            continue
        need_same(var, m.m[2] / dn, m.em[2] / dn, w + "variance")
        v = float(m.m[2]) / dn
        ev = m.em[2] / dn
        es = ev / math.sqrt(v) if v > 0 else math.sqrt(ev)
        es = min(es, math.sqrt(ev))
        if v > ev or sd == sd:
            need_same(sd, math.sqrt(v), es + 1e-15 * math.sqrt(v), w + "stddev")
        elif n >= 1:
            raise Violation("%sstddev: got %r" % (w, sd))
        if m.m[2] == 0:
            # 0/0 if the deviations were computed exactly
            continue
        rel2 = ev / v
        if rel2 > 1e-2:
            continue
        for g, k, nn in ((sk, 3, "skewness"), (ku, 4, "kurtosis")):
            e = float(m.m[k]) / dn / v ** (k / 2)
            t = m.em[k] / dn / v ** (k / 2) + abs(e) * k * rel2 + abs(e) * 1e-13
            if t < 1e-2 * max(1.0, abs(e)):
                need_same(g, e, t, w + nn)


S1 = ("num_vals({0}),sum({0}),average({0}),variance({0},{1}),stddev({0},{1}),skewness({0},{1}),kurtosis({0},{1}),"
      "variance({0},{2}),stddev({0},{2}),skewness({0},{2}),kurtosis({0},{2})")
METH = [("'sample'", "'population'"), ("'samp'", "'pop'"), ("'SAMPLE'", "' Population '")]


@st.composite
def one_case(draw):
    n = draw(st.integers(1, 40))
    xs, exact = draw(column(n))
    xs = draw(with_nulls(xs))
    return {"x": xs, "meth": draw(st.integers(0, 2)), "fn": draw(st.integers(0, 3))}


def f_one(ctx, case):
    a, b = METH[case["meth"]]
    name = ["stats_agg", "stats_agg", "stats_agg_no_inv", "toolkit_experimental.stats_agg_tf"][case["fn"]]
    got = ctx.db.row("SELECT %s FROM (SELECT %s(x) s FROM unnest($1::float8[]) x) q" % (S1.format("s", a, b), name), afl(case["x"]))
    xs = [x for x in case["x"] if x is not None]
    m = M1(xs)
    check1(m, got, "stats_agg")
    if case["meth"] == 0 and m.n:
        d = ctx.db.row("SELECT variance(s),stddev(s),skewness(s),kurtosis(s) FROM (SELECT %s(x) s FROM unnest($1::float8[]) x) q" % name, afl(case["x"]))
        need(all(same(p, q) for p, q in zip(d, got[3:7])), "stats_agg default method is not 'sample': %r vs %r", d, got[3:7])
    ctx.ev.nontrivial(m.n >= 3 and m.m[2] > 0)
    ctx.ev.label("large offset", m.n > 1 and m.amax > 1e5 * (m.r + 1e-9))
    ctx.ev.label("constant", m.n > 1 and m.m[2] == 0)
    ctx.ev.label("nulls", len(xs) < len(case["x"]))


@st.composite
def huge_case(draw):
    n = draw(st.integers(1, 12))
    e = draw(st.one_of(st.integers(70, 80), st.integers(98, 106), st.integers(150, 158), st.integers(60, 308)))
    one = st.builds(lambda m, d: max(min(m * 10.0 ** min(max(e + d, 0), 307), 1.7e308), -1.7e308), st.sampled_from([1.0, -1.0, 0.0, 3.0, 7.5, 1.25, -9.0]), st.sampled_from([0, 0, 0, -1, -3, -70]))
    xs = [draw(one) for _ in range(n)]
    return {"x": xs, "g": [draw(st.integers(0, 2)) for _ in xs], "how": draw(st.integers(0, 3))}


def f_huge(ctx, case):
    """finite values: the moments are right, or do not fit and that is reported"""
    xs = case["x"]
    if case["how"] < 2:
        src = "(SELECT %s(x) s FROM unnest($1::float8[],$2::int[]) u(x,g)) q" % ["stats_agg", "stats_agg_no_inv"][case["how"]]
    elif case["how"] == 2:
        src = "(SELECT rollup(s) s FROM (SELECT stats_agg(x) s FROM unnest($1::float8[],$2::int[]) u(x,g) GROUP BY g) r) q"
    else:
        src = "(SELECT s FROM (SELECT stats_agg(x) OVER (ORDER BY o) s, o FROM unnest($1::float8[],$2::int[]) WITH ORDINALITY u(x,g,o)) w ORDER BY o DESC LIMIT 1) q"
    m = M1([])
    m.n, m.s, m.amax = len(xs), sum(F(x) for x in xs), max(abs(x) for x in xs)
    m.mean = m.s / m.n
    m.m = [None, None] + [sum((F(x) - m.mean) ** k for x in xs) for k in (2, 3, 4)]
    mom = [abs(x) for x in [m.s] + m.m[2:]]
    try:
        got = ctx.db.row("SELECT %s FROM %s" % (S1.format("s", *METH[0]), src), afl(xs), arr(case["g"]))
    except PgError as e:
        if e.state != "22003":
            raise
        # every term of the updates is within a small multiple of this
        worst = max(F(m.amax) * m.n, (2 * F(m.amax)) ** 4 * 8 * m.n ** 2) if m.n > 1 else F(m.amax)
        need(worst > F(1.7e308), "stats_agg of %r reports an overflow: %s", xs, e)
        ctx.ev.label("overflow reported")
        ctx.ev.nontrivial(m.n > 1)
        return
    need(all(x < F(2) ** 1024 for x in mom), "stats_agg of %r has moments %r that do not fit a double, but gives %r", xs, ["%.3g" % (float(x) if x < F(2) ** 1023 else math.inf) for x in mom], got)
    need(got[0] == m.n and relclose(got[1], float(m.s), 1e-12, 10 * m.amax) and relclose(got[2], float(m.mean), 1e-12, 10 * m.amax), "stats_agg of %r gives num_vals, sum and average %r", xs, got[:3])
    for off, dn, nm in ((3, m.n - 1, "sample"), (7, m.n, "population")):
        if not dn:
            continue
        v = m.m[2] / dn
        t = F(1, 10**12) * F(m.amax) ** 2 * m.n
        need_same(got[off], v, t, "stats_agg of %r: %s variance" % (xs, nm))
        if v > t * 100:
            need(relclose(got[off + 1], math.sqrt(float(v)), 1e-6), "stats_agg of %r: %s stddev %r, expected %r", xs, nm, got[off + 1], math.sqrt(float(v)))
            for g, k, nn in ((got[off + 2], 3, "skewness"), (got[off + 3], 4, "kurtosis")):
                if m.n * v ** 2 < F(1e307) and v > F(1, 10**4) * F(m.amax) ** 2:
                    e = float(m.m[k] / dn / (F(math.sqrt(float(v))) ** k))
                    need(relclose(g, e, 1e-6, 1e5 * m.n ** 2), "stats_agg of %r: %s %s %r, expected %r", xs, nm, nn, g, e)
    ctx.ev.label("near the limit", mom[3] > F(1e290))
    ctx.ev.nontrivial(m.n > 1)


@st.composite
def int_case(draw):
    n = draw(st.integers(1, 20))
    big = draw(st.integers(0, 3))
    hi = [20, 10**6, 2**53, 2**54][big]
    return {"x": [draw(st.one_of(st.integers(-hi, hi), st.integers(-9, 9), st.none())) for _ in range(n)]}


def f_int(ctx, case):
    xs = [x for x in case["x"] if x is not None]
    bad = any(abs(x) > 2**53 - 1 for x in xs)
    edge = all(abs(x) <= 2**53 for x in xs)
    try:
        got = ctx.db.row("SELECT %s FROM (SELECT stats_agg(x) s FROM unnest($1::bigint[]) x) q" % S1.format("s", "'sample'", "'population'"), arr(case["x"]))
    except PgError as e:
        need(bad, "stats_agg(bigint) rejected values that a double holds exactly: %s", e)
        ctx.ev.label("rejected")
        return
    need(not bad or edge, "stats_agg(bigint) accepted a value a double cannot hold exactly")
    m = M1([float(x) for x in xs])
    check1(m, got, "stats_agg(bigint)")
    ctx.ev.nontrivial(m.n >= 3 and m.m[2] > 0)


@st.composite
def roll_case(draw):
    n = draw(st.integers(1, 30))
    xs, _ = draw(column(n))
    xs = draw(with_nulls(xs))
    return {"x": xs, "g": [draw(st.integers(0, 4)) for _ in range(n)]}


def f_roll(ctx, case):
    got = ctx.db.row("SELECT %s FROM (SELECT rollup(s) s FROM (SELECT stats_agg(x) s FROM unnest($1::float8[],$2::int[]) u(x,g) GROUP BY g) i) q"
                     % S1.format("s", "'sample'", "'population'"), afl(case["x"]), arr(case["g"]))
    m = M1([x for x in case["x"] if x is not None], slack=8.0)
    check1(m, got, "rollup of stats_agg")
    ctx.ev.nontrivial(m.n >= 3 and m.m[2] > 0 and len(set(case["g"])) > 1)
    ctx.ev.label("an all-NULL group", any(all(x is None for x, h in zip(case["x"], case["g"]) if h == g) for g in set(case["g"])))


# ---------------- two variables ----------------
class M2:
    def __init__(self, ps, slack=1.0, extra=(0.0, 0.0)):
        self.n = n = len(ps)
        self.y = M1([p[0] for p in ps], slack, extra[1])
        self.x = M1([p[1] for p in ps], slack, extra[0])
        if not n:
            return
        self.xy = sum((F(x) - self.x.mean) * (F(y) - self.y.mean) for y, x in ps)
        rx, ry = self.x.r + self.x.d, self.y.r + self.y.d
        self.exy = n * (self.x.d * ry + self.y.d * rx) * 2 + slack * 1e-13 * n * (n + 1) * rx * ry + 1e-300


S2 = ("slope({0}),intercept({0}),x_intercept({0}),corr({0}),determination_coeff({0}),"
      "covariance({0},{1}),covariance({0},{2})")


def ax(s, a):
    return ("num_vals({0}),sum_{3}({0}),average_{3}({0}),variance_{3}({0},{1}),stddev_{3}({0},{1}),skewness_{3}({0},{1}),kurtosis_{3}({0},{1}),"
            "variance_{3}({0},{2}),stddev_{3}({0},{2}),skewness_{3}({0},{2}),kurtosis_{3}({0},{2})").format(s, "'sample'", "'population'", a)


def check2(m, got, what, exact=False):
    check1(m.x, got[:11], what + " x:")
    check1(m.y, got[11:22], what + " y:")
    sl, ic, xi, co, dc, cs, cp = got[22:29]
    n = m.n
    if n == 0:
        need(all(g is None for g in got[22:29]), "%s of no pairs should be NULL: %r", what, got[22:29])
        return
    need_same(cp, m.xy / n, m.exy / n, what + " population covariance")
    if n > 1:
        need_same(cs, m.xy / (n - 1), m.exy / (n - 1), what + " sample covariance")
    else:
        need(cs is None or isnan(cs), "%s sample covariance of one pair: %r", what, cs)
    xx, yy = m.x.m[2], m.y.m[2]
    if xx == 0:
        if exact or n == 1:
            need(sl is None and ic is None and co is None and dc is None, "%s: no spread in x, but slope/intercept/corr/determination are %r", what, (sl, ic, co, dc))
            if n > 1:
                need_same(xi, m.x.mean, m.x.es + 1e-12 * m.x.amax, what + " x_intercept of a vertical line")
        return
    rx = m.x.em[2] / float(xx)
    if rx > 1e-3:
        return
    if yy == 0 and not exact:
        # a constant column that rounding may not see as constant
        return
    slope = m.xy / xx
    es = 2 * (m.exy + abs(float(slope)) * m.x.em[2]) / float(xx) + 1e-14 * abs(float(slope))
    need_same(sl, slope, es, what + " slope")
    icept = m.y.mean - m.x.mean * slope
    ei = abs(float(m.x.mean)) * es + 8 * EPS * (n + 4) * (abs(float(m.y.mean)) + abs(float(m.x.mean * slope))) * m.x.slack + m.y.es / n + m.x.es / n * abs(float(slope))
    need_same(ic, icept, ei, what + " intercept")
    if yy == 0:
        if exact:
            need(co is None, "%s: no spread in y, but corr is %r", what, co)
            need(dc == 1.0, "%s: determination_coeff of a horizontal line: %r", what, dc)
            need(xi is None, "%s: x_intercept of a horizontal line: %r", what, xi)
        return
    ry = m.y.em[2] / float(yy)
    if ry > 1e-3:
        return
    sq = math.sqrt(float(xx)) * math.sqrt(float(yy))
    c = float(m.xy) / sq
    ec = m.exy / sq + abs(c) * (rx + ry) + 1e-14
    need_same(co, c, ec, what + " corr")
    need_same(dc, c * c, 2 * abs(c) * ec + ec * ec + 1e-15, what + " determination_coeff")
    if slope != 0 and es < 1e-3 * abs(float(slope)):
        e = -icept / slope
        need_same(xi, e, 2 * (ei + abs(float(e)) * es) / abs(float(slope)) + 1e-14 * abs(float(e)), what + " x_intercept")


SEL2 = ax("s", "x") + "," + ax("s", "y") + "," + S2.format("s", "'sample'", "'population'")


@st.composite
def pairs(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    xs, e1 = draw(column(n))
    k = draw(st.integers(0, 3))
    if k == 0:
        a, b = draw(st.integers(-5, 5)), draw(st.integers(-20, 20))
        ys, e2 = [a * x + b for x in xs], False
        if draw(st.booleans()):
            ys = [y + draw(st.integers(-1, 1)) * 0.5 for y in ys]
    else:
        ys, e2 = draw(column(n))
    ps = [[y, x] for y, x in zip(ys, xs)]
    if draw(st.integers(0, 3)) == 0:
        for p in ps:
            if draw(st.integers(0, 4)) == 0:
                p[draw(st.integers(0, 1))] = None
    return ps, e1 and e2


@st.composite
def two_case(draw):
    ps, ex = draw(pairs(1, 30))
    return {"p": ps, "exact": ex, "fn": draw(st.integers(0, 3)), "g": [draw(st.integers(0, 3)) for _ in ps]}


def live(ps):
    return [p for p in ps if p[0] is not None and p[1] is not None]


def f_two(ctx, case):
    ps = case["p"]
    name = ["stats_agg", "stats_agg", "stats_agg_no_inv", "toolkit_experimental.stats_agg_tf"][case["fn"]]
    got = ctx.db.row("SELECT %s FROM (SELECT %s(y,x) s FROM unnest($1::float8[],$2::float8[]) u(y,x)) q" % (SEL2, name), afl([p[0] for p in ps]), afl([p[1] for p in ps]))
    m = M2(live(ps))
    # zero spread is recognised exactly when the sums are exact
    small = m.n > 0 and max(m.x.amax, m.y.amax) < 1e6
    check2(m, got, "stats_agg(y,x)", case["exact"] and small)
    ctx.ev.nontrivial(m.n >= 3 and m.x.m[2] > 0 and m.y.m[2] > 0)
    ctx.ev.label("vertical", m.n > 1 and m.x.m[2] == 0)
    ctx.ev.label("horizontal", m.n > 1 and m.y.m[2] == 0)
    ctx.ev.label("nulls", m.n < len(ps))


def f_tworoll(ctx, case):
    ps = case["p"]
    got = ctx.db.row("SELECT %s FROM (SELECT rollup(s) s FROM (SELECT stats_agg(y,x) s FROM unnest($1::float8[],$2::float8[],$3::int[]) u(y,x,g) GROUP BY g) i) q" % SEL2,
                     afl([p[0] for p in ps]), afl([p[1] for p in ps]), arr(case["g"]))
    m = M2(live(ps), slack=8.0)
    check2(m, got, "rollup of stats_agg(y,x)")
    ctx.ev.nontrivial(m.n >= 3 and m.x.m[2] > 0 and m.y.m[2] > 0 and len(set(case["g"])) > 1)


# the same numbers as PostgreSQL's own aggregates
PGSQL = ("SELECT regr_count(y,x), regr_slope(y,x), regr_intercept(y,x), corr(y,x), regr_r2(y,x), covar_samp(y,x), covar_pop(y,x), regr_avgx(y,x), regr_avgy(y,x), "
         "num_vals(s), slope(s), intercept(s), corr(s), determination_coeff(s), covariance(s), covariance(s,'pop'), average_x(s), average_y(s) FROM "
         "(SELECT y, x FROM unnest($1::float8[],$2::float8[]) u(y,x)) d, LATERAL (SELECT 1) l, (SELECT stats_agg(y,x) s FROM unnest($1::float8[],$2::float8[]) u(y,x)) q GROUP BY s::text, s")


def f_pg(ctx, case):
    ps = case["p"]
    m = M2(live(ps))
    if m.n == 0:
        raise Skip()
    g = ctx.db.row("WITH d AS (SELECT y,x FROM unnest($1::float8[],$2::float8[]) u(y,x)) SELECT * FROM "
                   "(SELECT regr_count(y,x), regr_slope(y,x), regr_intercept(y,x), corr(y,x), regr_r2(y,x), covar_samp(y,x), covar_pop(y,x), regr_avgx(y,x), regr_avgy(y,x) FROM d) a, "
                   "(SELECT num_vals(s), slope(s), intercept(s), corr(s), determination_coeff(s), covariance(s), covariance(s,'pop'), average_x(s), average_y(s) FROM (SELECT stats_agg(y,x) s FROM d) q) b",
                   afl([p[0] for p in ps]), afl([p[1] for p in ps]))
    names = ["count", "slope", "intercept", "corr", "r2", "covar_samp", "covar_pop", "avgx", "avgy"]
    well = m.x.em[2] <= 1e-6 * float(m.x.m[2]) and m.y.em[2] <= 1e-6 * float(m.y.m[2])
    if not well and not (case["exact"] and max(m.x.amax, m.y.amax) < 1e6):
        raise Skip()
    for nm, p, q in zip(names, g[:9], g[9:]):
        sc = {"slope": m.y.r / m.x.r if m.x.r else 1, "intercept": m.y.amax + (m.y.r / m.x.r * m.x.amax if m.x.r else 0), "corr": 1, "r2": 1,
              "covar_samp": m.x.r * m.y.r, "covar_pop": m.x.r * m.y.r, "avgx": m.x.amax, "avgy": m.y.amax, "count": 0}[nm]
        rel = max([1e-9] + ([m.x.em[2] / float(m.x.m[2]), m.y.em[2] / float(m.y.m[2])] if well else []))
        need((p is None) == (q is None) and (p is None or abs(p - q) <= 20 * m.n * rel * max(abs(p), sc)), "%s: stats_agg gives %r, PostgreSQL's own aggregate %r", nm, q, p)
    ctx.ev.nontrivial(m.n >= 3 and m.x.m[2] > 0 and m.y.m[2] > 0)


# ---------------- windows ----------------
@st.composite
def huge2_case(draw):
    a = draw(huge_case())
    b = draw(st.one_of(st.builds(lambda xs: {"x": xs}, st.lists(st.integers(-9, 9).map(float), min_size=len(a["x"]), max_size=len(a["x"]))), huge_case()))
    return {"x": a["x"], "y": (b["x"] * 12)[:len(a["x"])], "g": a["g"], "how": a["how"], "swap": draw(st.booleans())}


def f_huge2(ctx, case):
    """finite pairs: the moments are right, or do not fit and that is reported"""
    xs, ys = (case["y"], case["x"]) if case["swap"] else (case["x"], case["y"])
    n = len(xs)
    if case["how"] == 0:
        src = "(SELECT stats_agg(y,x) s FROM unnest($1::float8[],$2::float8[],$3::int[]) u(y,x,g)) q"
    elif case["how"] < 3:
        src = "(SELECT %s(s) s FROM (SELECT stats_agg(y,x) s FROM unnest($1::float8[],$2::float8[],$3::int[]) u(y,x,g) GROUP BY g) r) q" % ["", "rollup", "rolling"][case["how"]]
    else:
        src = "(SELECT s FROM (SELECT stats_agg(y,x) OVER (ORDER BY o) s, o FROM unnest($1::float8[],$2::float8[],$3::int[]) WITH ORDINALITY u(y,x,g,o)) w ORDER BY o DESC LIMIT 1) q"
    ax, ay = max(abs(F(x)) for x in xs), max(abs(F(y)) for y in ys)
    try:
        txt = ctx.db.row("SELECT s::text FROM " + src, afl(ys), afl(xs), arr(case["g"]))[0]
    except PgError as e:
        if e.state != "22003":
            raise
        worst = max(max(ax, ay) * n, (2 * max(ax, ay)) ** 4 * 8 * n ** 2, 8 * n ** 2 * ax * ay)
        need(worst > F(1.7e308), "stats_agg of y %r, x %r reports an overflow: %s", ys, xs, e)
        ctx.ev.label("overflow reported")
        ctx.ev.nontrivial(n > 1)
        return
    got = dict(re.findall(r"(\w+):([^,()]+)", txt))
    mx, my = sum(map(F, xs)) / n, sum(map(F, ys)) / n
    want = {"n": (F(n), 0), "sx": (mx * n, ax * n), "sy": (my * n, ay * n), "sxy": (sum((F(x) - mx) * (F(y) - my) for x, y in zip(xs, ys)), ax * ay * n)}
    for nm, vs, m, a in (("sx", xs, mx, ax), ("sy", ys, my, ay)):
        for k in (2, 3, 4):
            want[nm + str(k)] = (sum((F(v) - m) ** k for v in vs), a ** k * n)
    for k, (w, sc) in want.items():
        need(abs(w) < F(2) ** 1024, "stats_agg of y %r, x %r keeps a %s of %s, which does not fit", ys, xs, k, got[k])
        need(math.isfinite(float(got[k])), "stats_agg of y %r, x %r keeps a %s of %s, expected %g", ys, xs, k, got[k], float(w))
        need(abs(F(float(got[k])) - w) <= sc * n / 10**10 + F(1, 10**300), "stats_agg of y %r, x %r keeps a %s of %s, expected %g", ys, xs, k, got[k], float(w))
    ctx.ev.nontrivial(n > 1)


@st.composite
def frame(draw):
    k = draw(st.integers(0, 5))
    a, b = draw(st.integers(0, 6)), draw(st.integers(0, 4))
    if k == 0:
        return ["ROWS BETWEEN %d PRECEDING AND CURRENT ROW" % a, -a, 0]
    if k == 1:
        return ["ROWS BETWEEN %d PRECEDING AND %d FOLLOWING" % (a, b), -a, b]
    if k == 2:
        return ["ROWS BETWEEN %d FOLLOWING AND %d FOLLOWING" % (b, b + a), b, b + a]
    if k == 3:
        return ["ROWS BETWEEN %d PRECEDING AND %d PRECEDING" % (a + b, b), -a - b, -b]
    if k == 4:
        return ["ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING", 0, 10**6]
    return ["ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW", -10**6, 0]


SPEC = [NAN, float("inf"), float("-inf")]
WK = ["int", "int", "dyadic", "offset", "const", "outlier", "steps", "steps"]


@st.composite
def wcol(draw, n):
    k = draw(st.sampled_from(WK))
    if k == "steps":
        # runs of a repeated value: frames without spread appear inside data that has it
        out = []
        while len(out) < n:
            out += [float(draw(st.integers(-9, 9)))] * draw(st.integers(1, 7))
        return out[:n]
    if k == "offset":
        off = draw(st.sampled_from([1e3, 1e5, -1e6]))
        return [off + draw(st.integers(-8, 8)) for _ in range(n)]
    if k == "outlier":
        xs = [float(draw(st.integers(-9, 9))) for _ in range(n)]
        xs[draw(st.integers(0, n - 1))] = float(draw(st.sampled_from([1000, -3000, 20000])))
        return xs
    return draw(column(n, [k]))[0]


@st.composite
def win1_case(draw):
    n = draw(st.integers(2, 24))
    xs = draw(wcol(n))
    xs = draw(with_nulls(xs))
    if draw(st.integers(0, 5)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            xs[draw(st.integers(0, n - 1))] = draw(st.sampled_from(["nan", "inf", "-inf"]))
    return {"x": xs, "f": draw(frame()), "part": draw(st.integers(1, 2)), "int": draw(st.integers(0, 5)) == 0}


def framed(n, part, f):
    """row indexes of each row's frame"""
    out = []
    half = (n + part - 1) // part
    for i in range(n):
        p = i // half
        lo, hi = p * half, min(n, (p + 1) * half)
        out.append(range(max(lo, i + f[1]), max(lo, min(hi, i + f[2] + 1))))
    return out, half


def scale1(xs):
    """bound on the rounding a subtract-and-add scheme leaves behind"""
    fs = [x for x in xs if x is not None and math.isfinite(x)]
    return max([abs(x) for x in fs] or [0.0]), (max(fs) - min(fs) if fs else 0.0)


def leftovers(m, n, amax, rng):
    """rounding that rows already removed from the frame may have left behind: a few
    units in the last place of the sums they were part of"""
    m.d += 1e-15 * n * amax
    m.es += 1e-15 * n * amax
    for k in (2, 3, 4):
        m.em[k] += k * 2 ** k * m.n * m.d * (m.r + m.d) ** (k - 1) + 4e-15 * n * rng ** k


def check_win1(rows, xs, fr, what, hist=None):
    xs_all = xs if hist is None else hist
    amax, rng = scale1(xs_all)
    nt = 0
    for i, r in enumerate(fr):
        vs = [xs[j] for j in r if xs[j] is not None]
        got = rows[i]
        if not vs:
            need(got[0] in (None, 0) and all(g is None for g in got[1:]), "%s, row %d: frame without values gives %r", what, i, got)
            continue
        if not all(math.isfinite(v) for v in vs):
            need(got[0] == len(vs), "%s, row %d num_vals: got %r expected %d", what, i, got[0], len(vs))
            continue
        m = M1(vs)
        leftovers(m, len(xs), amax, rng)
        check1(m, got, "%s, row %d" % (what, i))
        if m.n > 1 and m.m[2] == 0 and amax < 2**40 and all(float(v).is_integer() for v in vs):
            need(got[3] is not None and got[3] >= 0 and not isnan(got[4]), "%s, row %d: no spread in the frame but variance %r, stddev %r", what, i, got[3], got[4])
            nt += 1
        if m.n > 1:
            nt += 1
    return nt


def conv(xs):
    return [float(x) if isinstance(x, str) else x for x in xs]


def f_win1(ctx, case):
    xs = conv(case["x"])
    isint = case["int"] and all(x is None or (math.isfinite(x) and float(x).is_integer()) for x in xs)
    fr, half = framed(len(xs), case["part"], case["f"])
    src = "unnest($1::float8[]) WITH ORDINALITY u(x,i)"
    col = "x::bigint" if isint else "x"
    rows = ctx.db.q("SELECT %s FROM (SELECT i, stats_agg(%s) OVER (PARTITION BY (i-1)/%d ORDER BY i %s) s FROM %s) q ORDER BY i"
                    % (S1.format("s", "'sample'", "'pop'"), col, half, case["f"][0], src), afl(xs))
    nt = check_win1(rows, xs, fr, "stats_agg over a window")
    ctx.ev.nontrivial(nt >= 2 and case["f"][1] > -10**6)
    ctx.ev.label("constant frames", any(len({xs[j] for j in r if xs[j] is not None}) == 1 and len(r) > 1 for r in fr))
    ctx.ev.label("nulls", None in xs)
    ctx.ev.label("empty frames", any(len(r) == 0 for r in fr))
    ctx.ev.label("non-finite", any(x is not None and not math.isfinite(x) for x in xs))


@st.composite
def win2_case(draw):
    n = draw(st.integers(2, 20))
    xs, ys = draw(wcol(n)), draw(wcol(n))
    ps = [[y, x] for y, x in zip(ys, xs)]
    if draw(st.integers(0, 2)) == 0:
        for p in ps:
            if draw(st.integers(0, 4)) == 0:
                p[draw(st.integers(0, 1))] = None
    if draw(st.integers(0, 5)) == 0:
        ps[draw(st.integers(0, n - 1))][draw(st.integers(0, 1))] = draw(st.sampled_from(["nan", "inf", "-inf"]))
    return {"p": ps, "f": draw(frame()), "part": draw(st.integers(1, 2))}


def check_win2(rows, ps, fr, what, hist=None):
    h = live(ps if hist is None else hist)
    ax_, rx_ = scale1([p[1] for p in h])
    ay_, ry_ = scale1([p[0] for p in h])
    n = len(h)
    nt = 0
    ints = all(not math.isfinite(v) or float(v).is_integer() and abs(v) < 1e5 for p in h for v in p)
    for i, r in enumerate(fr):
        vs = live([ps[j] for j in r])
        got = rows[i]
        if not vs:
            need(got[0] in (None, 0) and all(g is None or (k in (0, 11) and g == 0) for k, g in enumerate(got)), "%s, row %d: frame without pairs gives %r", what, i, got)
            continue
        if not all(math.isfinite(v) for p in vs for v in p):
            need(got[0] == len(vs), "%s, row %d num_vals: got %r expected %d", what, i, got[0], len(vs))
            continue
        m = M2(vs)
        leftovers(m.x, n, ax_, rx_)
        leftovers(m.y, n, ay_, ry_)
        m.exy += 2 * m.n * (m.x.d * (m.y.r + m.y.d) + m.y.d * (m.x.r + m.x.d)) + 4e-15 * n * rx_ * ry_
        check2(m, got, "%s, row %d" % (what, i), exact=ints)
        if m.n > 1:
            nt += 1
    return nt


def f_win2(ctx, case):
    ps = [conv(p) for p in case["p"]]
    fr, half = framed(len(ps), case["part"], case["f"])
    rows = ctx.db.q("SELECT %s FROM (SELECT i, stats_agg(y,x) OVER (PARTITION BY (i-1)/%d ORDER BY i %s) s FROM unnest($1::float8[],$2::float8[]) WITH ORDINALITY u(y,x,i)) q ORDER BY i"
                    % (SEL2, half, case["f"][0]), afl([p[0] for p in ps]), afl([p[1] for p in ps]))
    nt = check_win2(rows, ps, fr, "stats_agg(y,x) over a window")
    ctx.ev.nontrivial(nt >= 2 and case["f"][1] > -10**6)
    ctx.ev.label("frames without spread in x", any(len({p[1] for p in live([ps[j] for j in r])}) == 1 and len(r) > 1 for r in fr))


@st.composite
def rolling_case(draw):
    n = draw(st.integers(1, 10))
    two = draw(st.booleans())
    cells = []
    for _ in range(n):
        k = draw(st.integers(0, 4))
        m = 0 if k == 0 else draw(st.integers(1, 4))
        cells.append([[draw(st.one_of(st.integers(-9, 9).map(float), st.none() if k == 1 else st.integers(-3, 3).map(float))) for _ in range(2)] for _ in range(m)])
    if draw(st.integers(0, 2)) == 0:
        off = draw(st.sampled_from([1000.0, -1e5, 1e6]))
        cells = [[[None if v is None else v + off for v in p] for p in c] for c in cells]
    if draw(st.integers(0, 2)) == 0 and n > 1:
        # repeated summaries
        j = draw(st.integers(0, n - 1))
        for t in range(j, min(n, j + draw(st.integers(1, 4)))):
            cells[t] = cells[j]
    if draw(st.integers(0, 4)) == 0:
        c = cells[draw(st.integers(0, n - 1))]
        if c:
            c[draw(st.integers(0, len(c) - 1))][draw(st.integers(0, 1))] = draw(st.sampled_from(["nan", "inf", "-inf"]))
    return {"c": cells, "two": two, "f": draw(frame())}


def f_rolling(ctx, case):
    """rolling() over a window of per-row summaries; a cell without rows is a NULL summary"""
    cells = [[conv(p) for p in c] for c in case["c"]]
    n = len(cells)
    gi, ys, xs = [], [], []
    for i, c in enumerate(cells):
        for p in c:
            gi.append(i)
            ys.append(p[0])
            xs.append(p[1])
    fr, _ = framed(n, 1, case["f"])
    agg = "stats_agg(y,x)" if case["two"] else "stats_agg(x)"
    sel = SEL2 if case["two"] else S1.format("s", "'sample'", "'pop'")
    rows = ctx.db.q("WITH d AS (SELECT * FROM unnest($1::int[],$2::float8[],$3::float8[]) u(g,y,x)), c AS MATERIALIZED (SELECT i, (SELECT %s FROM d WHERE g = i HAVING count(*) > 0) s FROM generate_series(0,%d) i) "
                    "SELECT %s FROM (SELECT i, rolling(s) OVER (ORDER BY i %s) s FROM c) q ORDER BY i" % (agg, n - 1, sel, case["f"][0]), arr(gi), afl(ys), afl(xs))
    flat = [p for c in cells for p in c]
    nt = 0
    for i, r in enumerate(fr):
        vs = [p for j in r for p in cells[j]]
        if case["two"]:
            nt += check_win2([rows[i]], vs or [[None, None]], [range(len(vs))], "rolling(stats_agg(y,x)), row %d" % i, flat)
        else:
            xs1 = [p[1] for p in vs]
            nt += check_win1([rows[i]], xs1, [range(len(xs1))], "rolling(stats_agg(x)), row %d" % i, [p[1] for p in flat])
    ctx.ev.nontrivial(nt >= 2 and case["f"][1] > -10**6)
    ctx.ev.label("NULL summaries", any(not c for c in cells))
    ctx.ev.label("two variables", case["two"])


PROPS = {
    "B06": {"technique": "property-based testing: exact rational moments as the reference model",
            "rule": "three or more values with non-zero spread (rollup: in at least two groups)",
            "subs": [Sub("one", one_case(), f_one, 4000), Sub("bigint", int_case(), f_int, 1200), Sub("huge", huge_case(), f_huge, 1600), Sub("rollup", roll_case(), f_roll, 2000)]},
    "B07": {"technique": "property-based testing: exact rational least squares as the reference model, and PostgreSQL's regr_* aggregates differentially",
            "rule": "three or more pairs with spread on both axes",
            "subs": [Sub("two", two_case(), f_two, 3200), Sub("rollup", two_case(), f_tworoll, 1600), Sub("regr", two_case(), f_pg, 1600), Sub("huge", huge2_case(), f_huge2, 1200)]},
    "B08": {"technique": "property-based testing: every frame recomputed exactly from its rows",
            "rule": "a frame whose start moves, with at least two rows whose frame has two or more values",
            "subs": [Sub("one", win1_case(), f_win1, 2400), Sub("two", win2_case(), f_win2, 1600), Sub("rolling", rolling_case(), f_rolling, 1600)]},
}
