"""B11 heartbeat_agg"""
from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, arr, ats, interval_us, iv, ts


def union(beats, L, lo, hi):
    out = []
    for b in sorted(set(beats)):
        s, e = max(b, lo), min(b + L, hi)
        if e <= s:
            continue
        if out and s <= out[-1][1]:
            out[-1][1] = max(out[-1][1], e)
        else:
            out.append([s, e])
    return out


def clip(live, lo, hi):
    return [[max(a, lo), min(b, hi)] for a, b in live if b > lo and a < hi]


def complement(live, lo, hi):
    out, t = [], lo
    for a, b in live:
        if a > t:
            out.append([t, a])
        t = b
    if t < hi:
        out.append([t, hi])
    return out


def total(rs):
    return sum(b - a for a, b in rs)


def add(live, lo, hi):
    """live ranges plus [lo, hi)"""
    xs = sorted([list(r) for r in live] + ([[lo, hi]] if hi > lo else []))
    out = []
    for a, b in xs:
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


SEL = ("ARRAY(SELECT start FROM live_ranges(s)), ARRAY(SELECT \"end\" FROM live_ranges(s)), ARRAY(SELECT start FROM dead_ranges(s)), ARRAY(SELECT \"end\" FROM dead_ranges(s)),"
       " uptime(s), downtime(s), num_live_ranges(s), num_gaps(s)")


def at_sql(n):
    return ", ARRAY(SELECT live_at(s,x) FROM unnest($%d::timestamptz[]) WITH ORDINALITY z(x,i) ORDER BY i)" % n


def check(r, live, lo, hi, what, probes=None):
    got = [list(x) for x in zip(r[0], r[1])]
    need(got == live, "%s live_ranges: got %r, expected %r (covered %r)", what, got, live, [lo, hi])
    dead = complement(live, lo, hi)
    got = [list(x) for x in zip(r[2], r[3])]
    need(got == dead, "%s dead_ranges: got %r, expected %r (covered %r)", what, got, dead, [lo, hi])
    need(interval_us(r[4]) == total(live), "%s uptime: got %r, expected %r us", what, r[4], total(live))
    need(interval_us(r[5]) == total(dead), "%s downtime: got %r, expected %r us", what, r[5], total(dead))
    need(r[6] == len(live), "%s num_live_ranges: got %r, expected %r", what, r[6], len(live))
    need(r[7] == len(dead), "%s num_gaps: got %r, expected %r", what, r[7], len(dead))
    if probes is not None:
        for p, g in zip(probes, r[8]):
            e = any(a <= p < b for a, b in live)
            need(g == e, "%s live_at(%r): got %r, expected %r (live %r)", what, p, g, e, live)


@st.composite
def hist(draw, maxn=30):
    """unit, liveness, covered span in units; beats in units"""
    u = draw(st.sampled_from([1, 1000, SEC, MIN, HOUR]))
    base = draw(st.sampled_from(BASES))
    L = draw(st.integers(1, 12))
    D = draw(st.integers(L + 1, 120))
    n = draw(st.integers(1, maxn))
    mode = draw(st.integers(0, 2))
    beats = []
    if mode == 0:
        beats = [draw(st.integers(0, D - 1)) for _ in range(n)]
    else:
        t = draw(st.integers(0, D - 1))
        for _ in range(n):
            beats.append(t)
            t = (t + draw(st.sampled_from([L - 1, L, L + 1, 1, 2 * L, 0]))) % D
    return {"u": u, "base": base, "L": L, "D": D, "beats": draw(st.permutations(beats))}


def unpack(c):
    u = c["u"]
    lo = c["base"]
    return lo, lo + c["D"] * u, c["L"] * u, [lo + b * u for b in c["beats"]]


def probes_of(live, lo, hi):
    ps = {lo, hi, (lo + hi) // 2}
    for a, b in live:
        ps |= {a, a - 1, b, b - 1, b + 1}
    return sorted(p for p in ps if lo <= p <= hi)[:40]


def f_basic(ctx, case):
    lo, hi, L, beats = unpack(case)
    live = union(beats, L, lo, hi)
    ps = probes_of(live, lo, hi)
    r = ctx.db.row("SELECT " + SEL + at_sql(5) + " FROM (SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) s FROM unnest($1::timestamptz[]) t) q",
                   ats(beats), ts(lo), iv(hi - lo), iv(L), ats(ps))
    check(r, live, lo, hi, "heartbeat_agg", ps)
    ctx.ev.nontrivial(len(live) >= 2)
    ctx.ev.label("live at end", live[-1][1] == hi)
    ctx.ev.label("live at start", live[0][0] == lo)
    ctx.ev.label("never dead", live == [[lo, hi]])


@st.composite
def big_case(draw):
    """more beats than the aggregate buffers between consolidations"""
    L = draw(st.integers(1, 9))
    D = draw(st.integers(2000, 20000))
    return {"L": L, "D": D, "n": draw(st.integers(1000, 3300)), "seed": draw(st.integers(0, 10**6)), "mode": draw(st.integers(0, 3))}


def big_beats(case):
    x = case["seed"] * 2 + 1
    out = []
    D = case["D"]
    for i in range(case["n"]):
        x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        out.append((x >> 33) % D)
    if case["mode"] == 1:
        out.sort()
    elif case["mode"] == 2:
        out.sort(reverse=True)
    elif case["mode"] == 3:
        # clusters: each batch covers its own part, later ones overlapping earlier
        out = [(v % (D // 3)) + (i // 700 % 3) * (D // 4) for i, v in enumerate(out)]
    return out


def f_big(ctx, case):
    bs = [b * SEC for b in big_beats(case)]
    lo, hi, L = 0, case["D"] * SEC, case["L"] * SEC
    live = union(bs, L, lo, hi)
    ps = probes_of(live, lo, hi)
    r = ctx.db.row("SELECT " + SEL + at_sql(5) + " FROM (SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) s FROM unnest($1::timestamptz[]) t) q",
                   ats(bs), ts(lo), iv(hi - lo), iv(L), ats(ps))
    check(r, live, lo, hi, "heartbeat_agg of %d beats" % len(bs), ps)
    ctx.ev.nontrivial(len(live) >= 10)


@st.composite
def roll_case(draw):
    """several summaries over their own covered intervals: adjacent, apart or overlapping"""
    u = draw(st.sampled_from([1, SEC, MIN]))
    base = draw(st.sampled_from(BASES))
    L = draw(st.integers(1, 10))
    k = draw(st.integers(1, 5))
    t = 0
    parts = []
    for _ in range(k):
        D = draw(st.integers(L + 1, 40))
        mode = draw(st.sampled_from([0, 0, 1, -1]))
        s = t + (draw(st.integers(1, 30)) if mode == 1 else -draw(st.integers(1, 30)) if mode == -1 else 0)
        beats = draw(st.lists(st.one_of(st.integers(0, D - 1), st.integers(max(0, D - L), D - 1)), min_size=1, max_size=8))
        parts.append([s, D, [s + b for b in beats]])
        t = max(t, s + D)
    return {"u": u, "base": base, "L": L, "parts": parts, "order": draw(st.permutations(range(k))), "null": draw(st.booleans())}


def f_rolled(ctx, case):
    u, base, L = case["u"], case["base"], case["L"] * case["u"]
    parts = [case["parts"][i] for i in case["order"]]
    lo = min(p[0] for p in parts) * u + base
    hi = max(p[0] + p[1] for p in parts) * u + base
    beats = [b * u + base for p in parts for b in p[2]]
    live = union(beats, L, lo, hi)
    ps = probes_of(live, lo, hi)
    r = ctx.db.row("SELECT " + SEL + at_sql(6) + " FROM (SELECT rollup(s ORDER BY o) s FROM (SELECT o, heartbeat_agg(t,b,d,$5::interval) s FROM unnest($1::timestamptz[],$2::timestamptz[],$3::interval[],$4::int[]) u(t,b,d,o) GROUP BY o"
                   + (" UNION ALL SELECT 1, NULL" if case["null"] else "") + ") i) q",
                   ats(beats), ats([p[0] * u + base for p in parts for _ in p[2]]), arr([p[1] * u for p in parts for _ in p[2]], iv),
                   arr([i for i, p in enumerate(parts) for _ in p[2]]), iv(L), ats(ps))
    check(r, live, lo, hi, "rollup of heartbeat_agg", ps)
    ctx.ev.nontrivial(len(parts) > 1)
    ctx.ev.label("overlapping covers", any(a[0] < b[0] + b[1] and b[0] < a[0] + a[1] for i, a in enumerate(parts) for b in parts[i + 1:]))


@st.composite
def interp_case(draw):
    h = draw(hist(12))
    # the previous bucket ends where this one starts, or earlier
    gap = draw(st.sampled_from([0, 0, 0, 1, 3, 20]))
    D2 = draw(st.integers(h["L"] + 1, 60))
    pb = draw(st.lists(st.one_of(st.integers(max(0, D2 - h["L"]), D2 - 1), st.integers(0, D2 - 1)), min_size=1, max_size=6))
    h.update({"gap": gap, "D2": D2, "pb": pb, "null": draw(st.integers(0, 9)) == 0, "arrow": draw(st.booleans())})
    return h


def f_interp(ctx, case):
    lo, hi, L, beats = unpack(case)
    u = case["u"]
    plo = lo - (case["gap"] + case["D2"]) * u
    pb = [plo + b * u for b in case["pb"]]
    live = union(beats, L, lo, hi)
    if not case["null"]:
        live = add(live, lo, min(max(pb) + L, hi))
    ps = probes_of(live, lo, hi)
    pred = "NULL::heartbeatagg" if case["null"] else "(SELECT heartbeat_agg(t,$6::timestamptz,$7::interval,$4::interval) FROM unnest($8::timestamptz[]) t)"
    ie = "a -> interpolate(p)" if case["arrow"] else "interpolate(a,p)"
    uu = "a -> interpolated_uptime(p), a -> interpolated_downtime(p)" if case["arrow"] else "interpolated_uptime(a,p), interpolated_downtime(a,p)"
    r = ctx.db.row("SELECT " + SEL + at_sql(5) + ", u, d FROM (SELECT " + ie + " s, " + uu + " FROM (SELECT (SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) FROM unnest($1::timestamptz[]) t) a, "
                   + pred + " p, $6::timestamptz, $7::interval, $8::timestamptz[] OFFSET 0) z OFFSET 0) q(s,u,d)",
                   ats(beats), ts(lo), iv(hi - lo), iv(L), ats(ps), ts(plo), iv(case["D2"] * u), ats(pb))
    check(r, live, lo, hi, "interpolate", ps)
    need(interval_us(r[9]) == total(live), "interpolated_uptime: got %r, expected %r us", r[9], total(live))
    need(interval_us(r[10]) == hi - lo - total(live), "interpolated_downtime: got %r, expected %r us", r[10], hi - lo - total(live))
    ctx.ev.nontrivial(not case["null"] and max(pb) + L > lo)
    ctx.ev.label("merges into first range", not case["null"] and lo < max(pb) + L and min(beats) <= max(pb) + L)


@st.composite
def trim_case(draw):
    h = draw(hist(24))
    a = draw(st.integers(0, h["D"]))
    b = draw(st.integers(0, h["D"]))
    h.update({"a": min(a, b), "b": max(a, b), "fa": draw(st.sampled_from([0, 0, 1, -1])), "mode": draw(st.integers(0, 5))})
    return h


def f_trim(ctx, case):
    lo, hi, L, beats = unpack(case)
    u = case["u"]
    a = min(max(lo + case["a"] * u + case["fa"] * (u // 3), lo), hi)
    b = max(lo + case["b"] * u, a)
    m = case["mode"]
    if (hi if m in (1, 3) else b) <= (lo if m == 0 else a):
        raise Skip()  # an empty interval has no ranges to speak of
    if m == 0:  # only a duration
        e, a = "trim_to(a, duration => $6::interval)", lo
        prm = [None, iv(b - a)]
    elif m == 1:  # only a start
        e, b = "trim_to(a, $5::timestamptz)", hi
        prm = [ts(a), None]
    elif m == 2:
        e = "a -> trim_to($5::timestamptz,$6::interval)"
        prm = [ts(a), iv(b - a)]
    elif m == 3:
        e, b = "a -> trim_to($5::timestamptz)", hi
        prm = [ts(a), None]
    else:
        e = "trim_to(a,$5::timestamptz,$6::interval)"
        prm = [ts(a), iv(b - a)]
    live = clip(union(beats, L, lo, hi), a, b)
    ps = probes_of(live, a, b)
    r = ctx.db.row("SELECT " + SEL + at_sql(7) + " FROM (SELECT " + e + " s FROM (SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) a, $5::timestamptz, $6::interval FROM unnest($1::timestamptz[]) t) z OFFSET 0) q",
                   ats(beats), ts(lo), iv(hi - lo), iv(L), *prm, ats(ps))
    check(r, live, a, b, "trim_to", ps)
    ctx.ev.nontrivial(bool(live) and (a > lo or b < hi))
    ctx.ev.label("nothing live left", not live)
    ctx.ev.label("cuts a live range at start", bool(live) and a > lo and live[0][0] == a)
    ctx.ev.label("cuts a live range at end", bool(live) and b < hi and live[-1][1] == b)


@st.composite
def tile_case(draw):
    h = draw(hist(16))
    k = draw(st.integers(1, 4))
    cs = sorted({draw(st.integers(1, h["D"] - 1)) for _ in range(k)})
    h.update({"cuts": cs, "order": draw(st.permutations(range(len(cs) + 1)))})
    return h


def f_tile(ctx, case):
    """cutting a summary into adjacent pieces and rolling them up, or
    interpolating each from the one before, restores the history"""
    lo, hi, L, beats = unpack(case)
    u = case["u"]
    es = [lo] + [lo + c * u for c in case["cuts"]] + [hi]
    pieces = list(zip(es, es[1:]))
    live = union(beats, L, lo, hi)
    ps = probes_of(live, lo, hi)
    pos = {x: i for i, x in enumerate(case["order"])}
    base = ("WITH h AS MATERIALIZED (SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) a FROM unnest($1::timestamptz[]) t), "
            "p AS MATERIALIZED (SELECT i, o, trim_to(a,b,d) s FROM h, unnest($5::timestamptz[],$6::interval[],$7::int[]) WITH ORDINALITY u(b,d,o,i)) ")
    prm = [ats(beats), ts(lo), iv(hi - lo), iv(L), ats([a for a, _ in pieces]), arr([b - a for a, b in pieces], iv), arr([pos[i] for i in range(len(pieces))])]
    r = ctx.db.row(base + "SELECT " + SEL + at_sql(8) + " FROM (SELECT rollup(s ORDER BY o) s FROM p) q", *prm, ats(ps))
    check(r, live, lo, hi, "rollup of adjacent trimmed pieces", ps)
    rows = ctx.db.q(base + "SELECT " + SEL + " FROM (SELECT i, interpolate(s, lag(s) OVER (ORDER BY i)) s FROM p) q ORDER BY i", *prm)
    for (a, b), r in zip(pieces, rows):
        check(r, clip(live, a, b), a, b, "piece interpolated from the piece before")
    ctx.ev.nontrivial(len(live) >= 2)
    ctx.ev.label("piece without live range", any(not clip(live, a, b) for a, b in pieces))


@st.composite
def reject_case(draw):
    h = draw(hist(6))
    h["bad"] = draw(st.sampled_from([-1, h["D"], h["D"] + 1, -h["D"]]))
    h["what"] = draw(st.integers(0, 3))
    return h


def f_reject(ctx, case):
    lo, hi, L, beats = unpack(case)
    u = case["u"]
    w = case["what"]
    agg = "(SELECT heartbeat_agg(t,$2::timestamptz,$3::interval,$4::interval) FROM unnest($1::timestamptz[]) t)"
    bad = lo + case["bad"] * u
    try:
        if w == 0:
            ctx.db.row("SELECT " + agg + "::text", ats(beats + [bad]), ts(lo), iv(hi - lo), iv(L))
        elif w == 1:
            bad = bad if bad != hi else hi + 1
            ctx.db.row("SELECT live_at(" + agg + ",$5::timestamptz)", ats(beats), ts(lo), iv(hi - lo), iv(L), ts(bad))
        elif w == 2:
            ctx.db.row("SELECT uptime(trim_to(" + agg + ",$5::timestamptz,$6::interval))", ats(beats), ts(lo), iv(hi - lo), iv(L), ts(min(bad, lo)), iv(hi - min(bad, lo) + u))
        else:
            ctx.db.row("SELECT uptime(interpolate(a,a)) FROM (SELECT " + agg + " a) q", ats(beats), ts(lo), iv(hi - lo), iv(L))
    except PgError:
        ctx.ev.nontrivial()
        return
    raise Violation("accepted: %s" % ["a beat outside the covered interval", "live_at outside the covered interval", "trim_to beyond the covered interval", "interpolating from an overlapping summary"][w])


PROPS = {
    "B11": {"rule": "basic: at least two live ranges; rolled: at least two summaries; interp: the previous liveness reaches into this interval; trim: something live was cut; tile: at least two live ranges; big: over 1000 beats (the internal batch size)", "subs": [
        Sub("basic", hist(), f_basic, 1600),
        Sub("rolled", roll_case(), f_rolled, 1400),
        Sub("interp", interp_case(), f_interp, 1400),
        Sub("trim", trim_case(), f_trim, 1600),
        Sub("tile", tile_case(), f_tile, 800),
        Sub("reject", reject_case(), f_reject, 300),
        Sub("big", big_case(), f_big, 100)]},
}
