"""C01 uddsketch, C02 tdigest, C03 hyperloglog, C04 count_min_sketch, C05 frequency aggregates"""
import math
import re
from collections import Counter

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, fl, ts


# ---------------------------------------------------------------- uddsketch
def grouped(agg, ty, case_v="$1", g="$2", roll="rollup"):
    return "(SELECT %s(s) s FROM (SELECT %s s FROM unnest(%s::%s[],%s::int[]) u(v,g) GROUP BY g) q)" % (roll, agg, case_v, ty, g)


@st.composite
def spread(draw, n):
    """values over a drawn number of orders of magnitude"""
    k = draw(st.sampled_from(["narrow", "pos", "mixed", "wide", "huge", "ints", "tight"]))
    if k == "narrow":
        return [draw(st.integers(1, 40)) / 4.0 for _ in range(n)]
    if k == "ints":
        return [float(draw(st.integers(-30, 30))) for _ in range(n)]
    if k == "tight":
        b = draw(st.sampled_from([1.0, 1e5, -3e4]))
        return [b + draw(st.integers(0, 1000)) / 1000.0 for _ in range(n)]
    if k == "pos":
        return [draw(st.floats(1e-3, 1e6)) for _ in range(n)]
    if k == "mixed":
        return [draw(st.floats(-1e4, 1e4)) for _ in range(n)]
    e = 6 if k == "wide" else 250
    return [draw(st.sampled_from([1.0, 1.0, -1.0])) * draw(st.floats(1, 10)) * 10.0 ** draw(st.integers(-e, e)) for _ in range(n)]


@st.composite
def udd_s(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 120)))
    xs = draw(spread(n))
    if draw(st.integers(0, 3)) == 0:
        xs = [draw(st.sampled_from(xs)) if draw(st.integers(0, 2)) else x for x in xs]
    if draw(st.integers(0, 3)) == 0:
        xs[draw(st.integers(0, n - 1))] = 0.0
    if draw(st.integers(0, 3)) == 0:
        xs.sort(reverse=draw(st.booleans()))
    g = draw(st.integers(1, 5))
    return {"v": xs, "size": draw(st.one_of(st.integers(7, 24), st.integers(7, 200), st.just(200))),
            "err": draw(st.sampled_from([0.001, 0.01, 0.05, 0.1, 0.3, 0.0001, 0.9])),
            "def": draw(st.integers(0, 5)) == 0,
            "g": [draw(st.integers(0, g - 1)) for _ in xs],
            "q": [draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25]), st.integers(0, n).map(lambda k: k / n))) for _ in range(4)],
            "r": [draw(st.one_of(st.sampled_from(xs), st.floats(-1e6, 1e6))) for _ in range(3)]}


def half(i):
    return -((-i) // 2)


class Udd:
    """reference: which bucket each value is in, how far the error has had to grow"""

    def __init__(self, xs, size, err):
        self.err0 = err
        self.lg = math.log1p(err) - math.log1p(-err)
        self.amb = False
        keys = [self.key0(x) for x in xs]
        self.amb = any(a for _, a in keys)
        keys = [k for k, _ in keys]
        self.k = 0
        e = err
        while len(set(keys)) > size:
            keys = [(s, half(i)) for s, i in keys]
            self.k += 1
            e = 2 * e / (1 + e * e)
            if self.k > 64:
                break
        self.e = e
        self.cnt = Counter(keys)

    def key0(self, x):
        if x == 0:
            return (0, 0), False
        r = math.log(abs(x)) / self.lg
        m = 1e-6 + abs(r) * 4e-15 / self.err0
        return (1 if x > 0 else -1, math.ceil(r)), abs(r - round(r)) < m

    def key(self, x):
        """the bucket after the compactions; ambiguous when x is near a boundary of the wide bucket"""
        (s, i), a = self.key0(x)
        for _ in range(self.k):
            i = half(i)
        return (s, i), a

    @staticmethod
    def order(k):
        return (k[0], k[1] * k[0])


def chain(err, n=70):
    out = [err]
    for _ in range(n):
        out.append(2 * out[-1] / (1 + out[-1] ** 2))
    return out


def check_udd(case, r, what, ctx):
    xs = case["v"]
    n = len(xs)
    size, err = (200, 0.001) if case["def"] else (case["size"], case["err"])
    u = Udd(xs, size, err)
    nv, mean, total, e, pct, rank = r
    need(nv == n, "%s num_vals: got %r, expected %d", what, nv, n)
    s = sum((F(x) for x in xs), F(0))
    t = F(1, 10**12) * sum((abs(F(x)) for x in xs), F(0))
    need_same(total, s, t, what + " total")
    need_same(mean, s / n, t / n + abs(s / n) * F(1, 10**14), what + " mean")
    if u.amb:
        ctx.ev.label("value on a bucket edge")
        need(any(relclose(e, c, 1e-9) for c in chain(err)), "%s: error %r cannot come from the requested %r", what, e, err)
    else:
        need(relclose(e, u.e, 1e-9), "%s(%d, %r): reported error %r, expected %r (%d compactions needed for %d buckets)", what, size, err, e, u.e, u.k, size)
    ys = sorted(xs)
    # an error of practically one no longer says anything about the values
    for q, p in zip(case["q"], pct) if e < 0.9999 else ():
        cand = {min(max(math.ceil(n * q) - 1, 0), n - 1), min(max(math.floor(n * q), 0), n - 1)}
        # n*q is computed in floating point
        for d in (-1e-9, 1e-9):
            cand.add(min(max(math.floor(n * q + d), 0), n - 1))
        ok = False
        for k in cand:
            y = ys[k]
            lim = e * (1 + 1e-9) + 1e-12 + (abs(math.log(abs(y))) * 1e-14 / err if y else 0)
            ok = ok or abs(F(p) - F(y)) <= F(lim) * abs(F(y)) + F(5e-324)
        need(ok, "%s approx_percentile(%r) = %r is not within %r of the data at that rank: %r", what, q, p, e, sorted({ys[k] for k in cand}))
    if not u.amb and u.e < 0.9999:
        for v, got in zip(case["r"], rank):
            k, a = u.key(v)
            # a boundary of a compacted bucket is a boundary of the original ones too
            if a:
                continue
            o = Udd.order(k)
            below = sum(c for kk, c in u.cnt.items() if Udd.order(kk) < o)
            exp = (F(below) + F(u.cnt.get(k, 0), 2)) / n
            need_same(got, exp, F(1, 10**9), "%s approx_percentile_rank(%r)" % (what, v))
    ctx.ev.nontrivial(n >= 4 and len(set(xs)) > 2)
    ctx.ev.label("compacted", u.k > 0)
    ctx.ev.label("compacted 3 times or more", u.k > 2)


UDDACC = "num_vals(s), mean(s), total(s), error(s), approx_percentile_array($%d::float8[],s), (SELECT array_agg(approx_percentile_rank(v,s) ORDER BY o) FROM unnest($%d::float8[]) WITH ORDINALITY u(v,o)), (SELECT array_agg(approx_percentile(q,s) ORDER BY o) FROM unnest($%d::float8[]) WITH ORDINALITY u(q,o))"


def uddagg(case, col="v"):
    return "percentile_agg(%s)" % col if case["def"] else "uddsketch(%d,%r,%s)" % (case["size"], case["err"], col)


def f_udd(ctx, case):
    r = ctx.db.row("SELECT %s FROM (SELECT %s s FROM unnest($1::float8[]) v) q" % (UDDACC % (2, 3, 2), uddagg(case)), afl(case["v"]), afl(case["q"]), afl(case["r"]))
    need(r[4] == r[6], "approx_percentile_array and approx_percentile disagree: %r vs %r", r[4], r[6])
    check_udd(case, r[:6], uddagg(case), ctx)


def f_udd_roll(ctx, case):
    r = ctx.db.row("SELECT %s FROM %s q" % (UDDACC % (3, 4, 3), grouped(uddagg(case), "float8")), afl(case["v"]), arr(case["g"]), afl(case["q"]), afl(case["r"]))
    check_udd(case, r[:6], "rollup of " + uddagg(case), ctx)
    # two levels, NULL summaries in between
    r = ctx.db.row("SELECT %s FROM (SELECT rollup(s) s FROM (SELECT rollup(s) s FROM (SELECT %s s, g FROM unnest($1::float8[],$2::int[]) u(v,g) GROUP BY g UNION ALL SELECT NULL, 1) a GROUP BY g%%2 UNION ALL SELECT NULL) b) q" % (UDDACC % (3, 4, 3), uddagg(case)), afl(case["v"]), arr(case["g"]), afl(case["q"]), afl(case["r"]))
    check_udd(case, r[:6], "two-level rollup of " + uddagg(case), ctx)
    ctx.ev.nt = ctx.ev.nt and len(set(case["g"])) > 1
    ctx.ev.label("groups", len(set(case["g"])) > 1)


# ---------------------------------------------------------------- tdigest
@st.composite
def td_s(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(1, 150)))
    xs = draw(spread(n))
    if draw(st.integers(0, 2)) == 0:
        xs = [draw(st.sampled_from(xs)) if draw(st.integers(0, 2)) else x for x in xs]
    if draw(st.integers(0, 3)) == 0:
        xs.sort(reverse=draw(st.booleans()))
    g = draw(st.integers(1, 5))
    return {"v": xs, "size": draw(st.one_of(st.sampled_from([20, 50, 100, 200]), st.integers(20, 300))), "rep": draw(st.sampled_from([1, 1, 1, 7, 40])),
            "g": [draw(st.integers(0, g - 1)) for _ in xs], "perm": draw(st.integers(1, 1000)),
            "q": sorted(draw(st.floats(0, 1)) for _ in range(6)),
            "r": sorted(draw(st.one_of(st.sampled_from(xs), st.floats(-1e6, 1e6))) for _ in range(5))}


def rank_dist(ys, v, q):
    """distance of q to the ranks the data has within a thousandth of its range of v

    (where many equal values meet a few others the digest interpolates between centroids over a gap that holds
    no data, so that the exact rank of a value next to the tie says nothing)"""
    import bisect
    w = 1e-3 * (ys[-1] - ys[0]) + 1e-9 * abs(v)
    lo = bisect.bisect_left(ys, v - w) / len(ys)
    hi = bisect.bisect_right(ys, v + w) / len(ys)
    return max(lo - q, q - hi, 0.0)


def check_td(case, xs, r, what, ctx):
    n = len(xs)
    ys = sorted(xs)
    nv, mn, mx, mean, total, pct, rank, ends, rends, back, txt = r
    need(nv == n, "%s num_vals: got %r, expected %d", what, nv, n)
    need(mn == ys[0] and mx == ys[-1], "%s min/max: got %r, expected %r", what, (mn, mx), (ys[0], ys[-1]))
    s = sum((F(x) for x in xs), F(0))
    t = F(1, 10**11) * sum((abs(F(x)) for x in xs), F(0))
    need_same(total, s, t, what + " total")
    need_same(mean, s / n, t / n + abs(s / n) * F(1, 10**14), what + " mean")
    need(ends == [ys[0], ys[-1]], "%s percentiles 0 and 1: got %r, expected the minimum and maximum %r", what, ends, [ys[0], ys[-1]])
    scale = max(abs(ys[0]), abs(ys[-1]))
    slack = 1e-12 * scale
    for a, b in zip(pct, pct[1:]):
        need(a <= b + slack, "%s approx_percentile is not monotone at %r: %r", what, case["q"], pct)
    for p in pct:
        need(ys[0] - slack <= p <= ys[-1] + slack, "%s approx_percentile outside [min,max]: %r not in %r", what, p, [ys[0], ys[-1]])
    for a, b in zip(rank, rank[1:]):
        need(a <= b + 1e-12, "%s approx_percentile_rank is not monotone at %r: %r", what, case["r"], rank)
    for x in rank + rends:
        need(0 <= x <= 1, "%s approx_percentile_rank outside [0,1]: %r", what, x)
    need(rends[0] <= 1.0 and rends[1] >= rends[0] - 1e-12, "%s ranks of min and max out of order: %r", what, rends)
    # up to half the size every value has its own centroid: within one value of the true rank
    single = n <= case["size"] / 2
    tolr = 1.0 / n + 1e-9 if single else 8.0 / case["size"] + 4.0 / n
    ctx.ev.label("one centroid per value", single)
    worst = 0
    for q, p in zip(case["q"], pct):
        d = rank_dist(ys, p, q)
        worst = max(worst, d / tolr)
        need(d <= tolr, "%s approx_percentile(%r) = %r, whose true rank is off by %.4f (allowed %.4f)", what, q, p, d, tolr)
    for v, g in zip(case["r"], rank):
        d = rank_dist(ys, v, g)
        worst = max(worst, d / tolr)
        need(d <= tolr, "%s approx_percentile_rank(%r) = %r, off by %.4f (allowed %.4f)", what, v, g, d, tolr)
    # both interpolate between the centroids the digest holds
    cs = [(float(m), int(w)) for m, w in re.findall(r"mean:([^,()]+),weight:(\d+)", txt)]
    need(sum(w for _, w in cs) == n and all(w > 0 for _, w in cs), "%s holds centroids of weight %r for %d values", what, [w for _, w in cs], n)
    need(all(a[0] <= b[0] + slack for a, b in zip(cs, cs[1:])), "%s holds centroids out of order: %r", what, cs)
    kr, kv = knots(cs, ys)
    for q, p in zip(case["q"], pct):
        lo, hi = curve(kr, kv, q * n - 1e-9 * n), curve(kr, kv, q * n + 1e-9 * n)
        if q <= 0.5 and q * n <= 1:
            lo = ys[0]
        need(lo - 2 * slack <= p <= hi + 2 * slack, "%s approx_percentile(%r) = %r, but interpolating between its centroids %r gives %r", what, q, p, cs, [lo, hi])
    for v, g in zip(case["r"], rank):
        if v < ys[0] or v > ys[-1]:
            need(g == (0 if v < ys[0] else 1), "%s approx_percentile_rank(%r) outside the data is %r", what, v, g)
            continue
        for b, side in ((g - 1e-9, 1), (g + 1e-9, -1)):
            x = curve(kr, kv, b * n)
            need((v - x) * side >= -2 * slack, "%s approx_percentile_rank(%r) = %r, but its centroids %r have %r there", what, v, g, cs, x)
    # rank and percentile are about inverse to each other
    for q, b, p in zip(case["q"], back, pct):
        need(abs(q - b) <= 2 * tolr + (rank_width(ys, p)), "%s rank(percentile(%r)) = %r", what, q, b)
    ctx.cache["worst"] = max(ctx.cache.get("worst", 0), worst)
    ctx.ev.nontrivial(n >= 5 and len(set(xs)) > 3)
    ctx.ev.label("more values than the digest's size", n > case["size"])


def knots(cs, ys):
    """the curve from ranks to values: minimum, middle of each centroid, weighted midpoints in between, maximum"""
    kr, kv, t = [0.0], [ys[0]], 0
    for i, (m, w) in enumerate(cs):
        kr.append(t + w / 2)
        kv.append(m)
        t += w
        if i + 1 < len(cs):
            m2, w2 = cs[i + 1]
            kr.append(float(t))
            kv.append(m + (m2 - m) * (w / (w + w2)))
    return kr + [float(t)], kv + [ys[-1]]


def curve(kr, kv, r):
    import bisect
    if r <= kr[0]:
        return kv[0]
    if r >= kr[-1]:
        return kv[-1]
    i = bisect.bisect_right(kr, r) - 1
    return kv[i] + (kv[i + 1] - kv[i]) * ((r - kr[i]) / (kr[i + 1] - kr[i]))


def rank_width(ys, v):
    import bisect
    w = 1e-3 * (ys[-1] - ys[0]) + 1e-9 * abs(v)
    return (bisect.bisect_right(ys, v + w) - bisect.bisect_left(ys, v - w)) / len(ys)


TDACC = "num_vals(s), min_val(s), max_val(s), mean(s), total(s), (SELECT array_agg(approx_percentile(q,s) ORDER BY o) FROM unnest($%d::float8[]) WITH ORDINALITY u(q,o)), (SELECT array_agg(approx_percentile_rank(q,s) ORDER BY o) FROM unnest($%d::float8[]) WITH ORDINALITY u(q,o)), ARRAY[approx_percentile(0,s), approx_percentile(1,s)], ARRAY[approx_percentile_rank(min_val(s),s), approx_percentile_rank(max_val(s),s)], (SELECT array_agg(approx_percentile_rank(approx_percentile(q,s),s) ORDER BY o) FROM unnest($%d::float8[]) WITH ORDINALITY u(q,o)), s::text"


def td_data(case):
    """repeat the pattern with small changes to get more values than were drawn"""
    if case["rep"] == 1:
        return case["v"], case["g"]
    vs = [x * (1 + k / 64.0) for k in range(case["rep"]) for x in case["v"]]
    if any(math.isinf(x) for x in vs):
        vs = [x for _ in range(case["rep"]) for x in case["v"]]
    gs = case["g"] * case["rep"]
    if case["perm"] % 2:
        # a fixed shuffle
        import random
        o = list(range(len(vs)))
        random.Random(case["perm"]).shuffle(o)
        vs, gs = [vs[i] for i in o], [gs[i] for i in o]
    return vs, gs


def f_td(ctx, case):
    xs, _ = td_data(case)
    r = ctx.db.row("SELECT %s FROM (SELECT tdigest(%d,v) s FROM unnest($1::float8[]) v) q" % (TDACC % (2, 3, 2), case["size"]), afl(xs), afl(case["q"]), afl(case["r"]))
    check_td(case, xs, r, "tdigest(%d)" % case["size"], ctx)


def f_td_roll(ctx, case):
    xs, gs = td_data(case)
    r = ctx.db.row("SELECT %s FROM %s q" % (TDACC % (3, 4, 3), grouped("tdigest(%d,v)" % case["size"], "float8")), afl(xs), arr(gs), afl(case["q"]), afl(case["r"]))
    check_td(case, xs, r, "rollup of tdigest(%d)" % case["size"], ctx)
    r = ctx.db.row("SELECT %s FROM (SELECT rollup(s) s FROM (SELECT rollup(s) s FROM (SELECT tdigest(%d,v) s, g FROM unnest($1::float8[],$2::int[]) u(v,g) GROUP BY g UNION ALL SELECT NULL, 1) a GROUP BY g%%2 UNION ALL SELECT NULL) b) q" % (TDACC % (3, 4, 3), case["size"]), afl(xs), arr(gs), afl(case["q"]), afl(case["r"]))
    check_td(case, xs, r, "two-level rollup of tdigest(%d)" % case["size"], ctx)
    ctx.ev.nt = ctx.ev.nt and len(set(gs)) > 1


# ---------------------------------------------------------------- hyperloglog
HTY = {
    "bigint": "(%s)::bigint", "int": "(%s)::int", "text": "('v' || (%s))::text", "float8": "((%s)::float8/4)",
    "numeric": "((%s)::numeric/8)", "timestamptz": "('2020-01-01Z'::timestamptz + (%s) * interval '1 second')",
    "date": "('2020-01-01'::date + (%s)::int)", "bytea": "decode(lpad(to_hex((%s)::int),8,'0'),'hex')",
    "uuid": "(lpad(to_hex((%s)::bigint),32,'0'))::uuid", "bool": "((%s)%%2=0)", "text[]": "ARRAY['a', (%s)::text]",
    "smallint": "((%s)%%32768)::smallint", "char": "((%s)::text)::varchar", "interval": "((%s) * interval '1 hour')"}


@st.composite
def hll_s(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(1, 400), st.integers(300, 1200)))
    return {"n": n, "size": draw(st.one_of(st.sampled_from([16, 32, 64, 128, 256, 512, 1024, 4096, 32768, 262144]), st.integers(16, 5000))),
            "def": draw(st.integers(0, 6)) == 0, "mul": draw(st.sampled_from([1, 3, 7919, -1, 1000003])), "off": draw(st.integers(-10**6, 10**6)),
            "ty": draw(st.sampled_from(sorted(HTY))), "dup": draw(st.integers(1, 3)), "lag": draw(st.integers(0, 50)),
            "g": draw(st.integers(1, 7)), "mode": draw(st.integers(0, 3))}


def hagg(case, x="x"):
    return "approx_count_distinct(%s)" % x if case["def"] else "hyperloglog(%d,%s)" % (case["size"], x)


def hsize(case):
    s = 32768 if case["def"] else case["size"]
    return 1 << (s - 1).bit_length()


def hsrc(case):
    e = case["mul"]
    if case["ty"] == "numeric":
        # numeric values that differ only in their sign are a known finding
        e = abs(e)
        return "(k*%d+%d)" % (e, abs(case["off"]))
    if case["ty"] in ("date", "int") and abs(e) > 8000:
        e = 3
    if case["ty"] in ("smallint",):
        e = 1
    if case["ty"] in ("bytea", "uuid"):
        e = abs(e)
        if e > 8000:
            e = 7919 // 7
        return "(k*%d+1000)" % e
    return "(k*%d+%d)" % (e, case["off"] if case["ty"] not in ("date", "int", "smallint") else abs(case["off"]) % 1000)


def f_hll(ctx, case):
    n = case["n"]
    x = HTY[case["ty"]] % hsrc(case)
    d = hagg(case)
    base = "WITH w AS MATERIALIZED (SELECT k, %s x FROM generate_series(1,%d) k)" % (x, n)
    mixed = "(SELECT x, k FROM w UNION ALL SELECT NULL, 0 UNION ALL SELECT x, k+%d FROM w, generate_series(1,%d) z WHERE k%%3<>1)" % (case["lag"], case["dup"] - 1)
    r = ctx.db.row(base + ", a AS (SELECT %s s FROM w), b AS (SELECT %s s FROM (SELECT x FROM %s m ORDER BY k) m), c AS (SELECT rollup(s) s FROM (SELECT %s s FROM %s m GROUP BY k%%%d) z), d AS (SELECT rollup(s) s FROM (SELECT rollup(s) s FROM (SELECT %s s, k/%d%%2 g FROM w GROUP BY k/%d) z GROUP BY g UNION ALL SELECT NULL) z), e AS (SELECT %s s FROM (SELECT x FROM w ORDER BY k DESC) m) "
                   "SELECT (SELECT count(DISTINCT x) FROM w), stderror(a.s), ARRAY[distinct_count(a.s), distinct_count(b.s), distinct_count(c.s), distinct_count(d.s), distinct_count(e.s)], ARRAY[stderror(b.s),stderror(c.s),stderror(d.s)] FROM a,b,c,d,e" % (
                       d, d, mixed, d, mixed, case["g"], d, n // case["g"] + 1, n // case["g"] + 1, d))
    true, se, cnt, ses = r
    need(len(set(cnt)) == 1, "%s of the same set of %s values gives different counts: one pass %d, repeated and reordered %d, rolled up %d, two levels %d, backwards %d", d, case["ty"], *cnt)
    m = hsize(case)
    need(relclose(se, 1.04 / math.sqrt(m), 1e-9) and all(x == se for x in ses), "%s stderror: got %r, expected %r", d, [se] + ses, 1.04 / math.sqrt(m))
    c = cnt[0]
    if m >= 4096 and true <= 200 or true <= 2:
        need(abs(c - true) <= 1, "%s counts %d distinct values for a true %d", d, c, true)
    # small sketches have a wide, skewed distribution
    lim = (6 if m >= 128 else 8) * se * true + 3
    need(abs(c - true) <= lim, "%s counts %d distinct values, true %d: off by more than %.1f", d, c, true, lim)
    ctx.ev.nontrivial(true >= 8)
    ctx.ev.label(case["ty"])
    ctx.ev.label("many more values than registers", true > m)
    ctx.ev.label("near the sparse limit", m * 0.1 < true < m * 0.6)


@st.composite
def hll_eq_s(draw):
    return {"k": draw(st.sampled_from(["numeric", "float", "text", "interval", "ci"])), "v": [draw(st.integers(-20, 20)) for _ in range(draw(st.integers(1, 30)))], "z": [draw(st.integers(0, 3)) for _ in range(30)], "size": draw(st.sampled_from([512, 1024, 32768]))}


def f_hll_eq(ctx, case):
    """values the type holds equal count once, whatever their spelling"""
    n = len(case["v"])
    if case["k"] == "numeric":
        lit = ["%s%d.%d%s" % ("-" if v < 0 else "", abs(v) // 4, abs(v) % 4, "0" * z) for v, z in zip(case["v"], case["z"])]
        ty = "numeric"
    elif case["k"] == "float":
        lit = ["-0" if v == 0 and z == 1 else ("NaN" if v == 7 else "%d%s" % (v, "" if z == 0 else "." + "0" * z)) for v, z in zip(case["v"], case["z"])]
        ty = "float8"
    elif case["k"] == "interval":
        lit = ["%d days" % v if z == 0 else "%d hours" % (24 * v) for v, z in zip(case["v"], case["z"])]
        ty = "interval"
    elif case["k"] == "ci":
        # a collation under which strings that differ are equal
        lit = ["é%dStraße" % abs(v) if z == 0 else ("É%dSTRAßE" % abs(v) if z == 1 else "e%dstraße" % abs(v)) for v, z in zip(case["v"], case["z"])]
        ty = "text COLLATE ci"
    else:
        lit = ["a" * abs(v) * (50 if z == 1 else 1) for v, z in zip(case["v"], case["z"])]
        ty = "text"
    if case["k"] == "ci":
        ctx.db.q("CREATE COLLATION IF NOT EXISTS ci (provider=icu, locale='und-u-ks-level2', deterministic=false)")
    c, t = ctx.db.row("SELECT distinct_count(hyperloglog(%d,x)), count(DISTINCT x) FROM unnest($1::text[]) l, LATERAL (SELECT (l::%s) x) y" % (case["size"], ty), arr(lit))
    if case["k"] == "numeric" and c < t:
        u = ctx.db.val("SELECT count(DISTINCT abs(l::numeric)) FROM unnest($1::text[]) l", arr(lit))
        if c == u:
            raise Violation("hyperloglog(%d) over numeric values %r counts values that differ only in their sign as one: %d for %d" % (case["size"], lit, c, t), sig="numeric-sign")
    need(abs(c - t) == 0, "hyperloglog(%d) over %s values %r counts %d distinct, the type's own equality counts %d", case["size"], ty, lit, c, t)
    ctx.ev.nontrivial(t < n and n > 3)
    ctx.ev.label(case["k"])


def f_hll_param(ctx, case):
    try:
        ctx.db.q("SELECT hyperloglog(%d, 1)" % case["size"])
    except PgError:
        need(not 16 <= case["size"] <= 262144, "hyperloglog(%d, ...) is rejected although the size is in range", case["size"])
        ctx.ev.nontrivial()
        return
    need(9 <= case["size"] <= 262144, "hyperloglog(%d, ...) is accepted although the size is out of range", case["size"])
    ctx.ev.nontrivial()


# ---------------------------------------------------------------- count-min sketch
@st.composite
def cms_s(draw):
    k = draw(st.integers(2, 40))
    items = ["i%d" % i if draw(st.booleans()) else draw(st.text(alphabet="ab€ '\\\"{},", max_size=4)) for i in range(k)]
    items = list(dict.fromkeys(items))
    return {"c": [[x, draw(st.integers(1, draw(st.sampled_from([3, 30, 300]))))] for x in items],
            "err": draw(st.sampled_from([0.5, 0.1, 0.05, 0.01, 0.001, 0.9])), "p": draw(st.sampled_from([0.5, 0.1, 0.01, 0.001, 0.9])),
            "absent": [draw(st.sampled_from(["zz%d" % j for j in range(20)])) for _ in range(4)], "g": draw(st.integers(1, 4))}


def f_cms(ctx, case):
    items = [x for x, _ in case["c"]]
    q = items + case["absent"]
    true = dict(map(tuple, case["c"]))
    r = ctx.db.row("WITH s AS MATERIALIZED (SELECT toolkit_experimental.count_min_sketch(x, $3, $4) s FROM (SELECT x FROM unnest($1::text[],$2::int[]) u(x,c), generate_series(1,c) UNION ALL SELECT NULL) z) "
                   "SELECT (SELECT array_agg(toolkit_experimental.approx_count(x, s) ORDER BY o) FROM unnest($5::text[]) WITH ORDINALITY u(x,o)) FROM s",
                   arr(items), arr([c for _, c in case["c"]]), case["err"], case["p"], arr(q))[0]
    n = sum(true.values())
    for x, c in zip(q, r):
        t = true.get(x, 0)
        need(t <= c <= n, "count_min_sketch(%r, %r): approx_count(%r) = %d, but it occurs %d times in %d rows", case["err"], case["p"], x, c, t, n)
    ctx.ev.nontrivial(len(items) >= 3)
    ctx.ev.label("some overestimate", any(c > true.get(x, 0) for x, c in zip(q, r)))


@st.composite
def cms_bound_s(draw):
    k = draw(st.integers(1, 4))
    return {"depth": k, "err": draw(st.sampled_from([0.2, 0.1, 0.05, 0.03, 0.01])), "salt": draw(st.integers(0, 10**9)), "fill": draw(st.floats(0.75, 0.97))}


def f_cms_bound(ctx, case):
    """heavy items just above the bound: an absent item is overestimated beyond it only if it meets one in every row"""
    eps = case["err"]
    delta = math.exp(-case["depth"]) * 1.01
    h = max(1, int(case["fill"] / eps))
    k = 2000
    over, n = ctx.db.row("WITH s AS MATERIALIZED (SELECT toolkit_experimental.count_min_sketch($3||'h'||x, $1, $2) s FROM generate_series(1,%d) x, generate_series(1,3)) "
                         "SELECT (SELECT count(*) FROM generate_series(1,%d) x WHERE toolkit_experimental.approx_count($3||'a'||x, s) > $1*%d), %d FROM s" % (h, k, 3 * h, 3 * h), eps, delta, "k%d" % case["salt"])
    # by the guarantee each of the k items exceeds with probability at most delta; what the rows share makes
    # the k items dependent, so allow for the variation of the rows' load as well
    lim = k * delta * (1 + 0.35 / math.sqrt(h)) + 6 * math.sqrt(k * delta) + 5
    need(over <= lim, "count_min_sketch(%r, %.4f): %d of %d absent items are overestimated by more than error*N (allowed %.0f)", eps, delta, over, k, lim)
    ctx.ev.nontrivial(h >= 3)
    ctx.ev.label("depth %d" % case["depth"])


# ---------------------------------------------------------------- frequency aggregates
@st.composite
def freq_s(draw):
    ty = draw(st.sampled_from(["bigint", "text", "raw_int", "raw_text", "raw_float", "raw_tstz", "raw_numeric"]))
    kind = draw(st.sampled_from(["freq", "mcv", "mcv_skew"]))
    n = draw(st.one_of(st.integers(1, 20), st.integers(1, 150)))
    d = draw(st.integers(1, 30))
    if draw(st.booleans()):
        xs = [draw(st.integers(0, d)) for _ in range(n)]
    else:
        # skewed
        xs = [draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2])) if draw(st.integers(0, 2)) else draw(st.integers(0, d)) for _ in range(n)]
    o = draw(st.integers(0, 2))
    if o == 1:
        xs.sort()
    g = draw(st.integers(1, 4))
    return {"ty": ty, "kind": kind, "x": xs, "freq": draw(st.sampled_from([0.05, 0.1, 0.2, 0.5, 0.9, 0.03, 0.34])),
            "n": draw(st.integers(1, 6)), "skew": draw(st.sampled_from([1.1, 1.5, 2.0, 3.0])), "g": [draw(st.integers(0, g - 1)) for _ in xs],
            "nulls": draw(st.booleans())}


FT = {"bigint": ("bigint", None, lambda k: str(k * 7 - 20)), "text": ("text", None, lambda k: "item %d" % k if k % 3 else "x" * (k + 1) * 40 + "é\\\"'"),
      "raw_int": ("int", "0::int", lambda k: str(k - 3)), "raw_text": ("text", "''::text", lambda k: "r'\\\"%d" % k),
      "raw_float": ("float8", "0::float8", lambda k: fl(k / 4.0 - 1)), "raw_tstz": ("timestamptz", "now()", lambda k: ts(k * DAY + k)),
      "raw_numeric": ("numeric", "0::numeric", lambda k: "%d.%d" % (k, k * k))}


def fagg(case, col="v"):
    raw = "raw_" if case["ty"].startswith("raw") else ""
    if case["kind"] == "freq":
        return "toolkit_experimental.%sfreq_agg(%r,%s)" % (raw, case["freq"], col)
    if case["kind"] == "mcv":
        return "%smcv_agg(%d,%s)" % (raw, case["n"], col)
    return "%smcv_agg(%d,%r,%s)" % (raw, case["n"], case["skew"], col)


def zeta_cdf(s, n):
    z = sum(k ** -s for k in range(1, 2000)) + 2000 ** (1 - s) / (s - 1)
    return sum(k ** -s for k in range(1, n + 1)) / z


def fcheck(ctx, case, src, params, what):
    ty, dummy, lit = FT[case["ty"]]
    d = "," + dummy if dummy else ""
    n = len(case["x"])
    lits = [lit(k) for k in case["x"]]
    true = Counter(lits)
    dom = [lit(k) for k in range(31)]
    r = ctx.db.row("WITH s AS MATERIALIZED (%s) SELECT (SELECT array_agg(min_frequency(s,v::%s) ORDER BY o) FROM unnest($1::text[]) WITH ORDINALITY u(v,o)), (SELECT array_agg(max_frequency(s,v::%s) ORDER BY o) FROM unnest($1::text[]) WITH ORDINALITY u(v,o)) FROM s" % (src, ty, ty), arr(dom), *params)
    lo, hi = dict(zip(dom, r[0])), dict(zip(dom, r[1]))
    rows = ctx.db.q("WITH s AS MATERIALIZED (%s) SELECT (SELECT l FROM unnest($1::text[]) l WHERE l::%s = value), min_freq, max_freq FROM s, into_values(s%s)" % (src, ty, d), arr(dom), *params)
    seen = {}
    for v, a, b in rows:
        need(v is not None and v not in seen, "%s into_values lists a value that is not in the data, or twice: %r", what, rows)
        seen[v] = (a, b)
    eps = 1e-12
    for v, (a, b) in seen.items():
        t = true[v] / n
        need(a <= t + eps and t <= b + eps, "%s into_values: %r has frequency %r, bounds [%r, %r]", what, v, t, a, b)
    for v in dom:
        e = seen.get(v, (0.0, 0.0))
        need((lo[v], hi[v]) == e, "%s min/max_frequency(%r) = %r, into_values says %r", what, v, (lo[v], hi[v]), e)
    if case["kind"] == "freq":
        for v, c in true.items():
            if c / n >= case["freq"] + eps:
                need(v in seen, "%s: %r has frequency %r, at or above the requested one, and is not tracked", what, v, c / n)
        cap = int(1 / case["freq"]) + 1
    else:
        cap = case["n"]
    distinct = len(true)
    if distinct < cap:
        for v in true:
            need(v in seen and abs(seen[v][0] - true[v] / n) < eps and abs(seen[v][1] - true[v] / n) < eps, "%s: only %d distinct values, but %r is reported as %r, true %r", what, distinct, v, seen.get(v), true[v] / n)
        ctx.ev.label("exact")
    # order of into_values and topn
    his = [b for _, _, b in rows]
    need(all(x >= y for x, y in zip(his, his[1:])), "%s into_values is not in descending order: %r", what, rows)
    want = case["n"]
    sql = "WITH s AS MATERIALIZED (%s) SELECT (SELECT l FROM unnest($1::text[]) l WHERE l::%s = value) FROM s, topn(s,%d%s) value" % (src, ty, want, d)
    try:
        top = [x[0] for x in ctx.db.q(sql, arr(dom), *params)]
    except PgError as e:
        need(case["kind"] != "freq" and "skewed enough" in e.msg, "%s topn(%d) failed: %s", what, want, e)
        sk = 1.1 if case["kind"] == "mcv" else case["skew"]
        tot = sum(round(b * n) for b in his[:want])
        need(tot < zeta_cdf(sk, want) * n + 1 + 1e-6 * n, "%s topn(%d) refused although the top values hold %d of %d rows", what, want, tot, n)
        ctx.ev.label("topn refused")
    else:
        if case["kind"] == "freq":
            # stops at the first value below the requested frequency; n limits it
            exp = [v for v, _, b in rows if b >= case["freq"] - eps][:want]
            alt = [v for v, _, b in rows if b > case["freq"] + eps][:want]
            need(top in (exp, alt) or len(top) >= len(alt) and top == exp[:len(top)], "%s topn(%d): got %r, expected %r", what, want, top, exp)
        else:
            need(top == [v for v, _, _ in rows][:want], "%s topn(%d): got %r, expected the first of %r", what, want, top, rows)
    ctx.ev.nontrivial(n >= 5 and distinct >= 2)
    ctx.ev.label("more distinct values than tracked", distinct > len(seen))
    ctx.ev.label(case["ty"])
    ctx.ev.label(case["kind"])


def f_freq(ctx, case):
    ty, _, lit = FT[case["ty"]]
    nul = " UNION ALL SELECT NULL" if case["nulls"] else ""
    fcheck(ctx, case, "SELECT %s s FROM (SELECT v FROM unnest($2::%s[]) v%s) z" % (fagg(case), ty, nul), [arr([lit(k) for k in case["x"]])], fagg(case))


def f_freq_roll(ctx, case):
    ty, _, lit = FT[case["ty"]]
    nul = " UNION ALL SELECT NULL" if case["nulls"] else ""
    fcheck(ctx, case, "SELECT rollup(s) s FROM (SELECT %s s FROM unnest($2::%s[],$3::int[]) u(v,g) GROUP BY g%s) z" % (fagg(case), ty, nul), [arr([lit(k) for k in case["x"]]), arr(case["g"])], "rollup of " + fagg(case))
    ctx.ev.nt = ctx.ev.nt and len(set(case["g"])) > 1


PROPS = {
    "C01": {"rule": "at least 4 values, more than 2 distinct; rolled: at least two groups", "subs": [
        Sub("sketch", udd_s(), f_udd, 3500), Sub("rolled", udd_s(), f_udd_roll, 1800)]},
    "C02": {"rule": "at least 5 values, more than 3 distinct; rolled: at least two groups", "subs": [
        Sub("digest", td_s(), f_td, 2500), Sub("rolled", td_s(), f_td_roll, 1500)]},
    "C03": {"probes": {"C03-numeric-sign": lambda ctx: ctx.db.val("SELECT distinct_count(hyperloglog(1024, x)) FROM unnest('{1.5,-1.5}'::numeric[]) x") != 2}, "rule": "set: at least 8 distinct values; equal: some values equal under the type's equality; size: every case", "subs": [
        Sub("set", hll_s(), f_hll, 1500), Sub("equal", hll_eq_s(), f_hll_eq, 800),
        Sub("size", st.fixed_dictionaries({"size": st.one_of(st.integers(-3, 40), st.integers(262100, 262200), st.sampled_from([2**31 - 1, -2**31, 2**20]))}), f_hll_param, 120)]},
    "C04": {"rule": "count: at least 3 distinct items; bound: at least 3 heavy items", "subs": [
        Sub("count", cms_s(), f_cms, 1500), Sub("bound", cms_bound_s(), f_cms_bound, 120)]},
    "C05": {"rule": "at least 5 rows with at least 2 distinct values; rolled: at least two groups", "subs": [
        Sub("plain", freq_s(), f_freq, 2000), Sub("rolled", freq_s(), f_freq_roll, 1500)]},
}
