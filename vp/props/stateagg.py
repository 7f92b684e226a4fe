"""B09 state_agg, B10 interpolated state_agg"""
from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, arr, ats, interval_us, iv, ts

# substrings of each other, empty, multi-byte, quotes, very long
TEXTS = ["a", "b", "ab", "ba", "abc", "", "c", "A", " a", "é", "éa", "日本", "ok", "o", "k", "OK", "a'b", 'q"x', "\\", "{}", "NULL", "x" * 300, "xx"]
INTS = [0, 1, 2, -1, 10, 11, 2**31, -2**31, 2**63 - 1, -2**63, 97, 512]


@st.composite
def states(draw, n, is_int):
    pool = draw(st.lists(st.sampled_from(INTS if is_int else TEXTS), min_size=1, max_size=5, unique=True))
    return [draw(st.sampled_from(pool)) for _ in range(n)]


def timeline(pts):
    """[[state, start, end]] of time-ordered points"""
    out = []
    for t, s in pts:
        if out and out[-1][0] == s:
            continue
        if out:
            out[-1][2] = t
        out.append([s, t, None])
    out[-1][2] = pts[-1][0]
    return out


def durations(tl):
    d = {}
    for s, a, b in tl:
        d[s] = d.get(s, 0) + b - a
    return d


def T(is_int):
    return "bigint" if is_int else "text"


def lit(s):
    return str(s)


def agg_sql(is_int, where="", name="state_agg"):
    return "(SELECT %s(t,v) FROM unnest($1::timestamptz[],$2::%s[]) u(t,v) %s)" % (name, T(is_int), where)


def tl_of(ctx, is_int, expr, *params, args=""):
    """timeline through SQL; expr refers to q.s"""


def tlsel(is_int, src):
    return "ARRAY(SELECT state FROM %s), ARRAY(SELECT start_time FROM %s), ARRAY(SELECT end_time FROM %s)" % (src, src, src)


def zip3(a, b, c):
    return [list(x) for x in zip(a, b, c)]


@st.composite
def basic_case(draw):
    is_int = draw(st.booleans())
    n = draw(st.integers(1, 24))
    tms = draw(times(n, n))
    ss = draw(states(n, is_int))
    rows = [[t, s] for t, s in zip(tms, ss)]
    extra = []
    for _ in range(draw(st.integers(0, 2))):
        extra.append(draw(st.sampled_from([[tms[0] - 1, None], [tms[-1] + 5, None], [tms[n // 2], None]])))
    for _ in range(draw(st.integers(0, 2))):
        extra.append(list(draw(st.sampled_from(rows))))  # same time, same state
    allr = rows + extra
    o = draw(st.integers(0, 2))
    allr = allr if o == 0 else allr[::-1] if o == 1 else draw(st.permutations(allr))
    a, b = draw(st.integers(tms[0] - 10, tms[-1] + 10)), draw(st.integers(0, (tms[-1] - tms[0]) + 10))
    probe = draw(st.sampled_from([tms[0], tms[-1], tms[0] - 1, tms[-1] + 1, tms[n // 2], (tms[0] + tms[-1]) // 2, a]))
    return {"int": is_int, "rows": [list(r) for r in allr], "q": draw(st.sampled_from(ss + (INTS if is_int else TEXTS))), "a": a, "len": b, "at": probe}


def f_basic(ctx, case):
    I = case["int"]
    rows = case["rows"]
    pts = sorted({(r[0], r[1]) for r in rows if r[1] is not None}, key=lambda r: r[0])
    tl = timeline(pts)
    dur = durations(tl)
    q = case["q"]
    stl = "state_int_timeline" if I else "state_timeline"
    ivs = "into_int_values" if I else "into_values"
    sat = "state_at_int" if I else "state_at"
    ty = T(I)
    r = ctx.db.row(
        "SELECT " + tlsel(I, stl + "(s)") + ", duration_in(s,$3::" + ty + "), duration_in(s,$3::" + ty + ",$4::timestamptz,$5::interval), duration_in(s,$3::" + ty + ",$4::timestamptz),"
        + sat + "(s,$6::timestamptz), ARRAY(SELECT start_time FROM state_periods(s,$3::" + ty + ")), ARRAY(SELECT end_time FROM state_periods(s,$3::" + ty + ")),"
        "ARRAY(SELECT state FROM " + ivs + "(s)), ARRAY(SELECT duration FROM " + ivs + "(s)), toolkit_experimental.duration_in(c,$3::" + ty + "),"
        "ARRAY(SELECT state FROM toolkit_experimental." + ivs + "(c)), ARRAY(SELECT duration FROM toolkit_experimental." + ivs + "(c)) "
        "FROM (SELECT state_agg(t,v) s, toolkit_experimental.compact_state_agg(t,v) c FROM unnest($1::timestamptz[],$2::" + ty + "[]) u(t,v)) q",
        ats([x[0] for x in rows]), arr([x[1] for x in rows], lit), lit(q), ts(case["a"]), iv(case["len"]), ts(case["at"]))
    got = zip3(*r[0:3])
    need(got == tl, "state timeline: got %r, expected %r", got, tl)
    need(interval_us(r[3]) == dur.get(q, 0), "duration_in(%r): got %r, expected %r us", q, r[3], dur.get(q, 0))
    a, e = case["a"], case["a"] + case["len"]

    def clip(e):
        return sum(max(0, min(y, e) - max(x, a)) for s, x, y in tl if s == q)
    need(interval_us(r[4]) == clip(e), "duration_in(%r) within [start, start+interval): got %r, expected %r us", q, r[4], clip(e))
    need(interval_us(r[5]) == clip(10**20), "duration_in(%r) from start: got %r, expected %r us", q, r[5], clip(10**20))
    exp = None
    for t, s in pts:
        if t <= case["at"]:
            exp = s
    need(r[6] == exp, "state_at: got %r, expected %r", r[6], exp)
    need(zip3(r[7], r[8], r[8]) == [[x, y, y] for s, x, y in tl if s == q], "state_periods(%r): got %r, timeline %r", q, list(zip(r[7], r[8])), tl)
    exp = sorted((s, d) for s, d in dur.items())
    need(sorted((s, interval_us(d)) for s, d in zip(r[9], r[10])) == exp, "into_values: got %r, expected %r", list(zip(r[9], r[10])), exp)
    need(interval_us(r[11]) == dur.get(q, 0), "compact duration_in(%r): got %r, expected %r us", q, r[11], dur.get(q, 0))
    need(sorted((s, interval_us(d)) for s, d in zip(r[12], r[13])) == exp, "compact into_values: got %r, expected %r", list(zip(r[12], r[13])), exp)
    ctx.ev.nontrivial(len(tl) >= 3)
    ctx.ev.label("state recurs", len({s for s, _, _ in tl}) < len(tl))
    ctx.ev.label("int", I)
    ctx.ev.label("merged", len(tl) < len(pts))


@st.composite
def roll_case(draw):
    is_int = draw(st.booleans())
    n = draw(st.integers(2, 20))
    tms = draw(times(n, n))
    ss = draw(states(n, is_int))
    g = draw(cuts(n, 6))
    k = max(g) + 1
    return {"int": is_int, "t": tms, "s": ss, "g": g, "order": draw(st.permutations(range(k))), "at": draw(st.integers(tms[0] - 1, tms[-1] + 1)), "null": draw(st.booleans()), "q": draw(st.sampled_from(ss))}


def f_rolled(ctx, case):
    I, tms, ss = case["int"], case["t"], case["s"]
    ty = T(I)
    tl = timeline(list(zip(tms, ss)))
    dur = durations(tl)
    stl = "state_int_timeline" if I else "state_timeline"
    ivs = "into_int_values" if I else "into_values"
    sat = "state_at_int" if I else "state_at"
    pos = {x: i for i, x in enumerate(case["order"])}
    r = ctx.db.row(
        "SELECT " + tlsel(I, stl + "(s)") + ", ARRAY(SELECT state FROM " + ivs + "(s)), ARRAY(SELECT duration FROM " + ivs + "(s)), " + sat + "(s,$4::timestamptz), duration_in(s,$5::" + ty + "),"
        "ARRAY(SELECT state FROM toolkit_experimental." + ivs + "(c)), ARRAY(SELECT duration FROM toolkit_experimental." + ivs + "(c)) "
        "FROM (SELECT rollup(s ORDER BY o) s, toolkit_experimental.rollup(c ORDER BY o) c FROM (SELECT o, state_agg(t,v) s, toolkit_experimental.compact_state_agg(t,v) c FROM unnest($1::timestamptz[],$2::" + ty + "[],$3::int[]) u(t,v,o) GROUP BY o"
        + (" UNION ALL SELECT 0, NULL, NULL" if case["null"] else "") + ") i) q",
        ats(tms), arr(ss, lit), arr([pos[x] for x in case["g"]]), ts(case["at"]), lit(case["q"]))
    got = zip3(*r[0:3])
    need(got == tl, "timeline of rollup: got %r, expected %r", got, tl)
    exp = sorted(dur.items())
    need(sorted((s, interval_us(d)) for s, d in zip(r[3], r[4])) == exp, "into_values of rollup: got %r, expected %r", list(zip(r[3], r[4])), exp)
    e = None
    for t, s in zip(tms, ss):
        if t <= case["at"]:
            e = s
    need(r[5] == e, "state_at of rollup: got %r, expected %r", r[5], e)
    need(interval_us(r[6]) == dur[case["q"]], "duration_in of rollup: got %r, expected %r us", r[6], dur[case["q"]])
    need(sorted((s, interval_us(d)) for s, d in zip(r[7], r[8])) == exp, "into_values of compact rollup: got %r, expected %r", list(zip(r[7], r[8])), exp)
    ctx.ev.nontrivial(len(set(case["g"])) > 1 and len(tl) > 2)
    ctx.ev.label("out of order", list(case["order"]) != sorted(case["order"]))


@st.composite
def clash_case(draw):
    is_int = draw(st.booleans())
    n = draw(st.integers(1, 8))
    tms = draw(times(n, n))
    pool = INTS if is_int else TEXTS
    ss = [draw(st.sampled_from(pool)) for _ in range(n)]
    i = draw(st.integers(0, n - 1))
    other = draw(st.sampled_from([x for x in pool if x != ss[i]]))
    rows = [[t, s] for t, s in zip(tms, ss)] + [[tms[i], other]]
    return {"int": is_int, "rows": draw(st.permutations(rows))}


def f_clash(ctx, case):
    """two states at the same instant are refused, never silently chosen between"""
    try:
        r = ctx.db.row("SELECT state_agg(t,v)::text FROM unnest($1::timestamptz[],$2::" + T(case["int"]) + "[]) u(t,v)",
                       ats([x[0] for x in case["rows"]]), arr([x[1] for x in case["rows"]], lit))
    except PgError as e:
        need("state cannot be both" in e.msg, "unexpected error: %s", e.msg)
        ctx.ev.nontrivial()
        return
    raise Violation("state_agg accepted two different states at one time: %r" % (r,))


# ---------------- interpolation ----------------
@st.composite
def interp_case(draw):
    is_int = draw(st.booleans())
    n = draw(st.integers(1, 18))
    tms = draw(times(n, n))
    ss = draw(states(n, is_int))
    a = draw(st.one_of(st.sampled_from(tms), st.integers(tms[0] - 10**7, tms[-1])))
    b = draw(st.one_of(st.sampled_from(tms), st.integers(tms[0], tms[-1] + 10**7)))
    if a > b:
        a, b = b, a
    if a == b:
        b += 1 + draw(st.integers(0, 10**6))
    return {"int": is_int, "t": tms, "s": ss, "a": a, "b": b, "prev": draw(st.integers(0, 3)), "q": draw(st.sampled_from(ss)), "arrow": draw(st.booleans())}


def interp_expected(A, B, a, b):
    """history over the bucket [a, b) with rows B, previous rows A (or empty)"""
    pts = list(B)
    if A and B[0][0] > a:
        pts.insert(0, (a, A[-1][1]))
    tl = timeline(pts)
    tl[-1][2] = b
    return tl


def f_interp(ctx, case):
    I, a, b = case["int"], case["a"], case["b"]
    ty = T(I)
    pts = list(zip(case["t"], case["s"]))
    A = [p for p in pts if p[0] < a]
    B = [p for p in pts if a <= p[0] < b]
    if not B:
        raise Skip()
    use = bool(A) and case["prev"] > 0
    tl = interp_expected(A if use else [], B, a, b)
    dur = durations(tl)
    q = case["q"]
    stl = "interpolated_state_int_timeline" if I else "interpolated_state_timeline"
    X = "toolkit_experimental."
    sa = agg_sql(I, "WHERE t < $3::timestamptz") if use else "NULL"
    sb = agg_sql(I, "WHERE t >= $3::timestamptz AND t < $4::timestamptz")
    ca = agg_sql(I, "WHERE t < $3::timestamptz", X + "compact_state_agg") if use else "NULL"
    cb = agg_sql(I, "WHERE t >= $3::timestamptz AND t < $4::timestamptz", X + "compact_state_agg")
    if case["arrow"]:
        src = "(SELECT ((s -> %s($3::timestamptz,$5::interval,p))).*) z" % stl
        per = "(SELECT ((s -> interpolated_state_periods($6::%s,$3::timestamptz,$5::interval,p))).*) z" % ty
        din = "s -> interpolated_duration_in($6::%s,$3::timestamptz,$5::interval,p)" % ty
    else:
        src = "%s(s,$3::timestamptz,$5::interval,p)" % stl
        per = "interpolated_state_periods(s,$6::%s,$3::timestamptz,$5::interval,p)" % ty
        din = "interpolated_duration_in(s,$6::%s,$3::timestamptz,$5::interval,p)" % ty
    r = ctx.db.row(
        "SELECT " + tlsel(I, src) + ", " + din + ", ARRAY(SELECT start_time FROM " + per + "), ARRAY(SELECT end_time FROM " + per + "),"
        + X + "interpolated_duration_in(c,$6::" + ty + ",$3::timestamptz,$5::interval,cp) "
        "FROM (SELECT " + sb + " s, " + sa + "::stateagg p, " + cb + " c, " + ca + "::" + X + "compactstateagg cp, $4::timestamptz) q",
        ats(case["t"]), arr(case["s"], lit), ts(a), ts(b), iv(b - a), lit(q))
    got = zip3(*r[0:3])
    need(got == tl, "interpolated timeline: got %r, expected %r", got, tl)
    need(interval_us(r[3]) == dur.get(q, 0), "interpolated_duration_in(%r): got %r, expected %r us", q, r[3], dur.get(q, 0))
    need([list(x) for x in zip(r[4], r[5])] == [[x, y] for s, x, y in tl if s == q], "interpolated_state_periods(%r): got %r, timeline %r", q, list(zip(r[4], r[5])), tl)
    need(interval_us(r[6]) == dur.get(q, 0), "compact interpolated_duration_in(%r): got %r, expected %r us", q, r[6], dur.get(q, 0))
    need(sum(dur.values()) == tl[-1][2] - tl[0][1], "model")
    ctx.ev.nontrivial(use and B[0][0] > a)
    ctx.ev.label("new state from prev", use and B[0][0] > a and A[-1][1] not in {p[1] for p in B})
    ctx.ev.label("prev state same as first", use and B[0][0] > a and A[-1][1] == B[0][1])
    ctx.ev.label("prev unused, first at start", use and B[0][0] == a)
    ctx.ev.label("arrow", case["arrow"])


@st.composite
def chain_case(draw):
    is_int = draw(st.booleans())
    n = draw(st.integers(3, 20))
    tms = draw(times(n, n))
    ss = draw(states(n, is_int))
    span = tms[-1] - tms[0]
    w = max(draw(st.integers(1, max(1, span // 2))), span // 7 + 1)
    return {"int": is_int, "t": tms, "s": ss, "w": w, "off": draw(st.integers(0, w - 1))}


def f_chain(ctx, case):
    """per-state time over contiguous buckets adds up to the whole history"""
    I, tms, ss, w = case["int"], case["t"], case["s"], case["w"]
    start = tms[0] - case["off"]
    ks = sorted({(t - start) // w for t in tms})
    if ks != list(range(ks[-1] + 1)):
        raise Skip()
    end = start + w * (ks[-1] + 1)
    tl = timeline(list(zip(tms, ss)))
    tl[-1][2] = end
    dur = durations(tl)
    qs = sorted(dur)
    rows = ctx.db.q(
        "WITH b AS MATERIALIZED (SELECT g, state_agg(t,v) s FROM unnest($1::timestamptz[],$2::" + T(I) + "[],$3::int[]) u(t,v,g) GROUP BY g), "
        "w AS MATERIALIZED (SELECT s, b0, lag(s) OVER (ORDER BY g) p FROM b JOIN (SELECT i-1 g, b0 FROM unnest($4::timestamptz[]) WITH ORDINALITY z(b0,i)) z USING (g)) "
        "SELECT x, sum(interpolated_duration_in(s,x,b0,$5::interval,p)) FROM w, unnest($6::" + T(I) + "[]) x GROUP BY x",
        ats(tms), arr(ss, lit), arr([(t - start) // w for t in tms]), ats([start + w * k for k in ks]), iv(w), arr(qs, lit))
    got = sorted((r[0], interval_us(r[1])) for r in rows)
    need(got == sorted(dur.items()), "per-state time summed over buckets: got %r, expected %r", got, sorted(dur.items()))
    ctx.ev.nontrivial(len(ks) >= 2 and len(dur) >= 2)


@st.composite
def month_case(draw):
    y, m, nm = draw(st.integers(2019, 2024)), draw(st.integers(1, 12)), draw(st.integers(1, 3))
    from ..pg import PG_EPOCH_DAYS, days_from_civil
    a = (days_from_civil(y, m, 1) - PG_EPOCH_DAYS) * DAY
    m2 = m + nm
    b = (days_from_civil(y + (m2 - 1) // 12, (m2 - 1) % 12 + 1, 1) - PG_EPOCH_DAYS) * DAY
    ds = sorted(draw(st.lists(st.integers(0, (b - a) // HOUR - 1), min_size=1, max_size=6, unique=True)))
    tms = [a + d * HOUR for d in ds]
    return {"a": a, "b": b, "nm": nm, "t": tms, "s": draw(states(len(tms), False))}


def f_month(ctx, case):
    tl = timeline(list(zip(case["t"], case["s"])))
    tl[-1][2] = case["b"]
    q = case["s"][-1]
    r = ctx.db.row("SELECT " + tlsel(False, "interpolated_state_timeline(s,$3::timestamptz,$4::interval,NULL)") + ", interpolated_duration_in(s,$5::text,$3::timestamptz,$4::interval,NULL), duration_in(s,$5::text,$3::timestamptz,$4::interval) "
                   "FROM (SELECT state_agg(t,v) s FROM unnest($1::timestamptz[],$2::text[]) u(t,v)) q", ats(case["t"]), arr(case["s"]), ts(case["a"]), "%d months" % case["nm"], q)
    need(zip3(*r[0:3]) == tl, "timeline over %d calendar months: got %r, expected %r", case["nm"], zip3(*r[0:3]), tl)
    need(interval_us(r[3]) == durations(tl)[q], "interpolated_duration_in over months: got %r, expected %r", r[3], durations(tl)[q])
    e = durations(timeline(list(zip(case["t"], case["s"])))).get(q, 0)
    need(interval_us(r[4]) == e, "duration_in over months: got %r, expected %r", r[4], e)
    ctx.ev.nontrivial(len(tl) > 1)


PROPS = {
    "B09": {"rule": "basic: at least three distinct timeline periods; rolled: at least two groups and three periods; clash: the conflicting rows were refused", "subs": [
        Sub("basic", basic_case(), f_basic, 3000),
        Sub("rolled", roll_case(), f_rolled, 2000),
        Sub("clash", clash_case(), f_clash, 400)]},
    "B10": {"rule": "interp: the previous summary's last state was carried into the bucket; chain: at least two buckets and two states; month: more than one period", "subs": [
        Sub("interp", interp_case(), f_interp, 3600),
        Sub("chain", chain_case(), f_chain, 1600),
        Sub("month", month_case(), f_month, 600)]},
}
