"""D01 lttb / gp_lttb, D02 asap_smooth"""
import math

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, fl, iv, ts

# ------------------------------------------------------------------ LTTB oracle


def buckets(n, k):
    """index ranges of the k-2 inner buckets: as even as possible, end points excluded"""
    every = (n - 2) / (k - 2)
    cut = [int(i * every) + 1 for i in range(k)]
    return [(cut[i], min(cut[i + 1], n)) for i in range(k - 1)]


def area(a, b, c):
    return abs((a[0] - c[0]) * (b[1] - a[1]) - (a[0] - b[0]) * (c[1] - a[1])) * 0.5


def check_lttb(what, pts, k, out):
    """out must be a largest-triangle-three-buckets selection of k of pts (pts in time order, distinct times)"""
    n = len(pts)
    if k >= n:
        need(out == pts, "%s of %d points to %d must keep them all: %r", what, n, k, out)
        return
    need(len(out) == k, "%s of %d points to %d gave %d points: %r", what, n, k, len(out), out[:50])
    pos = {p[0]: i for i, p in enumerate(pts)}
    idx = []
    for p in out:
        i = pos.get(p[0])
        need(i is not None and pts[i] == p, "%s returned %r, which is not an input point", what, p)
        idx.append(i)
    need(idx[0] == 0 and idx[-1] == n - 1, "%s dropped an end point: %r", what, idx[:50])
    need(all(a < b for a, b in zip(idx, idx[1:])), "%s is not in time order: %r", what, idx[:50])
    if k == 2:
        return
    bs = buckets(n, k)
    for j in range(k - 2):
        lo, hi = bs[j]
        need(lo <= idx[j + 1] < hi, "%s: point %d is number %d of the input, outside its bucket [%d,%d)", what, j + 1, idx[j + 1], lo, hi)
        a = pts[idx[j]]
        nlo, nhi = bs[j + 1]
        nb = pts[nlo:nhi]
        c = (sum(p[0] for p in nb) // len(nb), math.fsum(p[1] for p in nb) / len(nb))
        best = max(area(a, p, c) for p in pts[lo:hi])
        got = area(a, pts[idx[j + 1]], c)
        scale = max(abs(p[1]) for p in pts[lo:hi] + nb + [a]) * (c[0] - a[0])
        span = max(abs(p[1] - a[1]) for p in pts[lo:hi])
        need(got >= best - 1e-9 * scale - 2 * span, "%s: bucket %d [%d,%d) yields the point of area %r (number %d) although there is one of area %r", what, j, lo, hi, got, idx[j + 1], best)


TV = "(SELECT timevector(t,v ORDER BY t) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v))"


@st.composite
def series_s(draw, lo=1, hi=60):
    n = draw(st.integers(lo, hi))
    base = draw(st.sampled_from(BASES))
    unit = draw(st.sampled_from([1, 1000, SEC, MIN, HOUR]))
    mode = draw(st.integers(0, 2))
    t, out = base, []
    for i in range(n):
        if i:
            t += unit * (1 if mode == 0 else draw(st.one_of(st.integers(1, 5), st.sampled_from([1, 1, 1, 20, 300]))))
        out.append(t)
    vs = [draw(st.one_of(small_ints, dyadic, mid)) for _ in range(n)]
    return [[a, float(b)] for a, b in zip(out, vs)]


@st.composite
def lttb_s(draw):
    pts = draw(series_s(1, 70))
    n = len(pts)
    k = draw(st.one_of(st.integers(3, 12), st.integers(3, n + 3), st.sampled_from([3, n - 1, n, n + 1, 1000]).map(lambda x: max(x, 3))))
    order = draw(st.permutations(range(n))) if n <= 12 else draw(st.sampled_from([None, "rev", "rot"]))
    return {"pts": pts, "k": k, "order": list(order) if isinstance(order, tuple) else order, "nulls": draw(st.integers(0, 2)), "tvk": draw(st.one_of(st.just(0), st.integers(2, 12)))}


def reorder(pts, o):
    if o is None:
        return pts
    if o == "rev":
        return pts[::-1]
    if o == "rot":
        return pts[len(pts) // 3:] + pts[:len(pts) // 3]
    return [pts[i] for i in o]


def UN(e):
    return "(SELECT array_agg(ARRAY[extract(epoch FROM time)::numeric*1000000,value::text::numeric]::text[]) FROM unnest(%s))" % e


def pts_of(ctx, sql, *a):
    return [[r[0], r[1]] for r in ctx.db.q(sql, *a)]


def f_lttb(ctx, case):
    pts, k = case["pts"], case["k"]
    n = len(pts)
    rows = reorder(pts, case["order"])
    feed = [list(r) for r in rows]
    for i in range(case["nulls"]):
        feed.insert((i * 7) % (len(feed) + 1), [pts[0][0] + i, None])
    out = pts_of(ctx, "SELECT time, value FROM unnest((SELECT lttb(t,v,$3) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)))", ats(r[0] for r in feed), afl(r[1] for r in feed), k)
    check_lttb("lttb", pts, k, out)
    A = (ats(r[0] for r in pts), afl(r[1] for r in pts))
    for kk in (k, case["tvk"]):
        f = pts_of(ctx, "SELECT time, value FROM unnest(lttb(" + TV + ",$3))", *A, kk)
        p = pts_of(ctx, "SELECT time, value FROM unnest(" + TV + " -> toolkit_experimental.lttb($3))", *A, kk)
        if kk == k:
            need(f == out, "lttb over a timevector: %r, as an aggregate: %r", f, out)
        need(p == f, "the lttb pipeline element: %r, the function: %r", p, f)
        check_lttb("lttb(timevector,%d)" % kk, pts, kk if kk else n, f)
    ctx.ev.nontrivial(n > k)
    ctx.ev.label("rows out of order", rows != pts and n > k)
    ctx.ev.label("resolution >= n", k >= n)
    ctx.ev.label("at most 2 points per bucket", k < n <= 2 * k)


@st.composite
def big_s(draw):
    return {"n": draw(st.sampled_from([20011, 35001, 60000, 100003])), "k": draw(st.sampled_from([3, 3, 4, 5, 7, 11])), "base": draw(st.sampled_from([BASES[0], 1704067200 * SEC, 4102444800 * SEC])), "mul": draw(st.sampled_from([7919, 104729, 1299709, 15485863])), "mod": draw(st.sampled_from([997, 5003, 99991])), "step": draw(st.sampled_from([SEC, 60 * SEC]))}


def f_big(ctx, case):
    n, k = case["n"], case["k"]
    pts = [[case["base"] + i * case["step"], float(i * case["mul"] % case["mod"])] for i in range(n)]
    src = "(SELECT $1::timestamptz + (i*$2::bigint)*interval '1us' t, (i::bigint*%d %% %d)::float8 v FROM generate_series(0,%d) i)" % (case["mul"], case["mod"], n - 1)
    a = (ts(case["base"]), case["step"])
    out = pts_of(ctx, "SELECT time, value FROM unnest((SELECT lttb(t,v,%d) FROM %s q))" % (k, src), *a)
    check_lttb("lttb", pts, k, out)
    f = pts_of(ctx, "SELECT time, value FROM unnest(lttb((SELECT timevector(t,v ORDER BY t) FROM %s q),%d))" % (src, k), *a)
    need(f == out, "lttb over a timevector: %r, as an aggregate: %r", f, out)
    ctx.ev.nontrivial()


# ------------------------------------------------------------------ gp_lttb

@st.composite
def gp_s(draw):
    base = draw(st.sampled_from(BASES))
    unit = draw(st.sampled_from([1000, SEC, MIN]))
    nr = draw(st.integers(1, 6))
    t, pts = base, []
    gap = draw(st.integers(2, 9))
    for r in range(nr):
        if r:
            t += unit * (gap + draw(st.sampled_from([0, 1, 1, 2, 5, 40])))
        for i in range(draw(st.one_of(st.integers(1, 3), st.integers(1, 25)))):
            if i:
                t += unit * draw(st.integers(1, max(1, gap - 1)))
            pts.append([t, float(draw(st.one_of(small_ints, dyadic)))])
        # next run starts from t
    n = len(pts)
    k = draw(st.one_of(st.integers(3, 12), st.integers(3, n + 4)))
    return {"pts": pts, "k": k, "gap": gap * unit if draw(st.integers(0, 3)) else None, "order": draw(st.sampled_from([None, "rev", "rot"]))}


def f_gp(ctx, case):
    pts, k = case["pts"], case["k"]
    rows = reorder(pts, case["order"])
    A = (ats(r[0] for r in rows), afl(r[1] for r in rows))
    if case["gap"] is None:
        out = pts_of(ctx, "SELECT time, value FROM unnest((SELECT toolkit_experimental.gp_lttb(t,v,$3) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)))", *A, k)
        gap = (pts[-1][0] - pts[0][0]) // k
    else:
        out = pts_of(ctx, "SELECT time, value FROM unnest((SELECT toolkit_experimental.gp_lttb(t,v,$4::interval,$3) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)))", *A, k, iv(case["gap"]))
        gap = case["gap"]
    runs = [[pts[0]]]
    for a, b in zip(pts, pts[1:]):
        if b[0] - a[0] > gap:
            runs.append([])
        runs[-1].append(b)
    ends = sum(min(2, len(r)) for r in runs)
    need(all(a[0] < b[0] for a, b in zip(out, out[1:])), "gp_lttb is not in time order: %r", out)
    need(len(out) <= max(k, ends), "gp_lttb to %d points over %d runs gave %d points", k, len(runs), len(out))
    total = 0
    for r in runs:
        o = [p for p in out if r[0][0] <= p[0] <= r[-1][0]]
        total += len(o)
        need(r[0] in o and r[-1] in o, "gp_lttb lost an end point of the run %r..%r: %r", r[0], r[-1], o)
        check_lttb("gp_lttb within a run of %d" % len(r), r, len(o), o)
    need(total == len(out), "gp_lttb returned points which are not in the input: %r", out)
    if len(runs) == 1:
        check_lttb("gp_lttb without a gap", pts, k, out)
    elif len(pts) > k >= ends:
        # the resolution is used up, but for the rounding of each run's share
        need(len(out) >= min(k, len(pts)) - len(runs) or any(len(r) == len([p for p in out if r[0][0] <= p[0] <= r[-1][0]]) for r in runs if len(r) > 2), "gp_lttb to %d points gave only %d of %d", k, len(out), len(pts))
    ctx.ev.nontrivial(len(runs) > 1 and len(pts) > len(out))
    ctx.ev.label("single-point run", any(len(r) == 1 for r in runs) and len(runs) > 1)
    ctx.ev.label("last run is one point", len(runs[-1]) == 1 and len(runs) > 1)
    ctx.ev.label("resolution below the number of end points", k < ends)
    ctx.ev.label("a gap of exactly the gap size", any(b[0] - a[0] == gap for a, b in zip(pts, pts[1:])))


def f_err(ctx, case):
    k, n = case
    A = (ats(BASES[0] + i * SEC for i in range(n)), afl([float(i % 3) for i in range(n)]))
    for sql in ("SELECT lttb(t,v,%d)", "SELECT toolkit_experimental.gp_lttb(t,v,%d)", "SELECT toolkit_experimental.gp_lttb(t,v,'1s',%d)", "SELECT asap_smooth(t,v,%d)"):
        try:
            ctx.db.q((sql + " FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)") % k, *A)
            ok = True
        except PgError as e:
            ok = False
        lim = 0 if "asap" in sql else 2
        need(ok == (k > lim), "%s accepted: %r", sql % k, ok)
    ctx.ev.nontrivial(k <= 2)


# ------------------------------------------------------------------ asap

def kurt(v):
    m = math.fsum(v) / len(v)
    s2 = math.fsum((x - m) ** 2 for x in v)
    if s2 == 0:
        return None
    return len(v) * math.fsum((x - m) ** 4 for x in v) / s2 ** 2


def rough(v):
    d = [b - a for a, b in zip(v, v[1:])]
    if not d:
        return 0.0
    m = math.fsum(d) / len(d)
    return math.sqrt(math.fsum((x - m) ** 2 for x in d) / len(d))


@st.composite
def asap_s(draw):
    base = draw(st.sampled_from(BASES))
    unit = draw(st.sampled_from([1000, SEC, MIN, HOUR]))
    n = draw(st.one_of(st.integers(1, 30), st.integers(20, 200)))
    kind = draw(st.integers(0, 3))
    irr = draw(st.booleans())
    if kind == 0:
        vs = [float(draw(small_ints)) for _ in range(n)]
    else:
        per = draw(st.integers(2, 40))
        amp = draw(st.sampled_from([1.0, 10.0, 0.25]))
        spike = draw(st.lists(st.integers(0, n - 1), max_size=3))
        noise = draw(st.lists(dyadic, min_size=1, max_size=17))
        vs = [round(amp * math.sin(2 * math.pi * i / per) * 64) / 64 + (noise[i % len(noise)] / 8 if kind > 1 else 0) + (25.0 if i in spike else 0) for i in range(n)]
    t, pts = base, []
    steps = draw(st.lists(st.integers(1, 9), min_size=1, max_size=9)) if irr else [1]
    for i in range(n):
        pts.append([t, vs[i]])
        t += unit * steps[i % len(steps)]
    res = draw(st.one_of(st.integers(1, 12), st.integers(1, 2 * n), st.sampled_from([max(1, (n - 1) // 2), max(1, n // 2), n, n + 1])))
    return {"pts": pts, "res": res, "order": draw(st.sampled_from([None, None, "rev", "rot"])), "nulls": draw(st.integers(0, 2))}


def f_asap(ctx, case):
    pts, res = case["pts"], case["res"]
    n = len(pts)
    rows = [list(r) for r in reorder(pts, case["order"])]
    feed = list(rows)
    for i in range(case["nulls"]):
        feed.insert((i * 5) % (len(feed) + 1), [pts[0][0] + i, None] if i == 0 else [None, 1e9])
    out = pts_of(ctx, "SELECT time, value FROM unnest((SELECT asap_smooth(t,v,$3) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)))", arr([r[0] for r in feed], lambda x: ts(x)) if all(r[0] is not None for r in feed) else "{" + ",".join("NULL" if r[0] is None else '"%s"' % ts(r[0]) for r in feed) + "}", "{" + ",".join("NULL" if r[1] is None else fl(r[1]) for r in feed) + "}", res)
    tv = pts_of(ctx, "SELECT time, value FROM unnest(asap_smooth((SELECT timevector(t,v ORDER BY i) FROM unnest($1::timestamptz[],$2::float8[]) WITH ORDINALITY u(t,v,i)),$3))", ats(r[0] for r in rows), afl(r[1] for r in rows), res)
    need(tv == out, "asap_smooth over a timevector: %r, as an aggregate: %r", tv[:20], out[:20])
    p = n // res if n > 2 * res else 1
    pre = [math.fsum(x[1] for x in pts[i * p:(i + 1) * p]) / p for i in range(n // p)]
    L, m = len(pre), len(out)
    w = L - m + 1
    need(1 <= m and 1 <= w <= L, "asap_smooth of %d points to %d gave %d points (%d after pre-aggregation)", n, res, m, L)
    need(m <= max(2 * res, 1), "asap_smooth to resolution %d gave %d points", res, m)
    need(all(a[0] <= b[0] for a, b in zip(out, out[1:])), "asap_smooth output is not in time order")
    scale = max(abs(x[1]) for x in pts)
    tol = 1e-9 * (scale + 1e-300)
    for i, (t, v) in enumerate(out):
        e = math.fsum(pre[i:i + w]) / w
        need(abs(v - e) <= tol, "asap_smooth: value %d is %r, the mean of its window of %d is %r", i, v, w, e)
        src = pts[min((i + w // 2) * p, n - 1)]
        need(t == src[0], "asap_smooth: point %d is stamped %r, the middle of its window is %r", i, t, src[0])
    vals = [v for _, v in out]
    r0, r1 = rough(pre), rough(vals)
    need(r1 <= r0 + 1e-7 * (scale + r0) or w == 1, "asap_smooth made the series rougher: %r -> %r (window %d)", r0, r1, w)
    if w > 1:
        k0, k1 = kurt(pre), kurt(vals)
        # a smoothed series that has become constant has no kurtosis to speak of
        if k0 is not None and k1 is not None and r1 > 1e-6 * scale:
            need(k1 >= k0 * (1 - 1e-6), "asap_smooth lost the series' kurtosis: %r -> %r (window %d)", k0, k1, w)
    ctx.ev.nontrivial(w > 1 or p > 1)
    ctx.ev.label("smoothed", w > 1)
    ctx.ev.label("pre-aggregated", p > 1)
    ctx.ev.label("rows out of order", rows != pts)


PROPS = {
    "D01": {
        "rule": "the series has more points than the output (a choice was made); for gp_lttb also at least one gap",
        "subs": [Sub("lttb", lttb_s(), f_lttb, 2400), Sub("gp_lttb", gp_s(), f_gp, 2400), Sub("big", big_s(), f_big, 24, 240), Sub("rejects", st.tuples(st.integers(-3, 5), st.integers(1, 8)), f_err, 60, 300)],
        "note": "bucket bounds and the largest-triangle rule are re-derived from the definition of LTTB; ties and areas within 1e-9 of each other are accepted either way",
    },
    "D02": {
        "rule": "the output was smoothed (window > 1) or pre-aggregated",
        "subs": [Sub("asap", asap_s(), f_asap, 3200)],
    },
}
