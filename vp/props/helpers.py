"""E03 saturating arithmetic, calendar helpers, duration units, generated series"""
import calendar
import math

from hypothesis import strategies as st

from ..core import Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, fl, iv, ts

TE = "toolkit_experimental."
I32MAX, I32MIN = 2**31 - 1, -2**31
i32 = st.one_of(st.integers(-20, 20), st.integers(I32MIN, I32MAX),
                st.sampled_from([I32MAX, I32MIN, I32MAX - 1, I32MIN + 1, 65536, -65536, 46340, 46341, -46341]),
                st.integers(0, 31).map(lambda k: 2**k - 1), st.integers(0, 31).map(lambda k: -(2**k)))


@st.composite
def sat_s(draw):
    n = draw(st.integers(1, 12))
    out = []
    for _ in range(n):
        x = draw(i32)
        y = draw(i32)
        k = draw(st.integers(0, 7))
        if k == 0:      # near the upper / lower bound of a sum or difference
            y = I32MAX - x + draw(st.integers(-2, 2))
        elif k == 1:
            y = I32MIN - x + draw(st.integers(-2, 2))
        elif k == 2:
            y = x - I32MAX + draw(st.integers(-2, 2))
        elif k == 3:
            y = x + draw(st.integers(-2, 2))
        elif k == 4 and x:
            y = int(I32MAX / x) + draw(st.integers(-1, 1))
        out.append([x, max(I32MIN, min(I32MAX, y))])
    return {"p": out}


def clamp(v, lo=I32MIN):
    return max(lo, min(I32MAX, v))


SAT = [("saturating_add", lambda x, y: clamp(x + y)), ("saturating_add_pos", lambda x, y: clamp(x + y, 0)),
       ("saturating_sub", lambda x, y: clamp(x - y)), ("saturating_sub_pos", lambda x, y: clamp(x - y, 0)),
       ("saturating_mul", lambda x, y: clamp(x * y))]


def f_sat(ctx, case):
    rows = ctx.db.q("SELECT " + ",".join(TE + n + "(x,y)" for n, _ in SAT) + " FROM unnest($1::int[],$2::int[]) WITH ORDINALITY u(x,y,i) ORDER BY i",
                    arr([p[0] for p in case["p"]]), arr([p[1] for p in case["p"]]))
    hit = False
    for (x, y), r in zip(case["p"], rows):
        for (n, f), g in zip(SAT, r):
            need(g == f(x, y), "%s(%d, %d) is %r, expected %d", n, x, y, g, f(x, y))
        hit = hit or r[0] != x + y or r[2] != x - y or r[4] != x * y
    ctx.ev.nontrivial(hit)


ZONES = ["UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "America/Sao_Paulo", "Asia/Amman",
         "Pacific/Kiritimati", "Pacific/Apia", "Africa/Casablanca", "Antarctica/Troll", "America/Santiago", "Asia/Tehran"]


@st.composite
def cal_s(draw):
    k = draw(st.integers(0, 2))
    if k == 0:
        t = draw(st.integers(-10**15, 3 * 10**15))
    else:
        # around the start or end of a month
        y = draw(st.integers(1900, 2150))
        m = draw(st.integers(1, 12))
        d = draw(st.sampled_from([1, 15, calendar.monthrange(y, m)[1], draw(st.integers(1, calendar.monthrange(y, m)[1]))]))
        import datetime
        dd = datetime.date(y, m, d).toordinal() - datetime.date(2000, 1, 1).toordinal()
        t = dd * DAY + draw(st.sampled_from([0, -1, 1, 86400 * SEC - 1, 5 * HOUR, 23 * HOUR, draw(st.integers(0, DAY))]))
    return {"t": t, "z": draw(st.sampled_from(ZONES)), "v": draw(vals), "d": draw(st.one_of(st.none(), st.sampled_from([30.0, 31.0, 28.0, 30.5, 1.0])))}


def f_cal(ctx, case):
    t = case["t"]
    ctx.db.q("SET timezone='%s'" % case["z"])
    try:
        y, m, days, norm, ep = ctx.db.row(
            "SELECT extract(year from $1::timestamptz)::int, extract(month from $1::timestamptz)::int, days_in_month($1::timestamptz), "
            + ("month_normalize($2,$1::timestamptz)" if case["d"] is None else "month_normalize($2,$1::timestamptz,%s)" % fl(case["d"])) + ", to_epoch($1::timestamptz)",
            ts(t), fl(case["v"]))
    finally:
        ctx.db.q("SET timezone='UTC'")
    e = calendar.monthrange(y, m)[1]
    need(days == e, "days_in_month(%s) in time zone %s is %r, month %d of %d has %d days", ts(t), case["z"], days, m, y, e)
    d = F(case["d"]) if case["d"] is not None else F(36525, 1200)
    ex = F(case["v"]) * d / e
    need_same(norm, ex, abs(ex) * F(1, 10**14), "month_normalize(%r, %s, %r) in time zone %s" % (case["v"], ts(t), case["d"], case["z"]))
    want = float(F(t, SEC) + 946684800)
    need(ep == want, "to_epoch(%s) is %r, expected %r", ts(t), ep, want)
    ctx.ev.nontrivial(days != 30 or case["z"] != "UTC")
    ctx.ev.label(case["z"])


UNIT = {1: "usecond microsecond microseconds microsecon us usec useconds usecs", 1000: "msecond millisecond milliseconds millisecon ms msec mseconds msecs",
        SEC: "second s sec seconds secs", MIN: "minute m min mins minutes", HOUR: "hour hours h hr hrs"}
ALIAS = {a: u for u, s in UNIT.items() for a in s.split()}
NOTUNIT = ["", "day", "days", "week", "month", "mon", "y", "d", "sec ", " s", "seconds ago", "1s", "hou", "minutess", "µs", "mss", "us.", "hh", "msecs2", "S S"]


@st.composite
def unit_s(draw):
    good = draw(st.integers(0, 3)) > 0
    a = draw(st.sampled_from(sorted(ALIAS) if good else NOTUNIT))
    if good:
        up = draw(st.lists(st.booleans(), min_size=len(a), max_size=len(a)))
        a = "".join(c.upper() if b else c for c, b in zip(a, up))
    return {"u": a, "t": [x * draw(st.sampled_from([1, SEC])) for x in draw(st.lists(st.integers(0, 10**4), min_size=2, max_size=6, unique=True))], "m": draw(st.sampled_from(["LOCF", "linear"])), "hb": draw(st.booleans())}


def f_unit(ctx, case):
    u = ALIAS.get(case["u"].lower())
    tt = sorted(case["t"])
    tt = [t for i, t in enumerate(tt) if i == 0 or t > tt[i - 1]]
    if len(tt) < 2:
        tt.append(tt[0] + 1)
    src = "FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)"
    fv = afl([float(i) for i in range(len(tt))])
    for form in ("integral(time_weight('%s',t,v), $3)", "time_weight('%s',t,v) -> integral($3)"):
        sql = "SELECT " + form % case["m"] + ", integral(time_weight('%s',t,v),'microseconds') " % case["m"] + src
        try:
            g, us = ctx.db.row(sql, ats(tt), fv, case["u"])
        except PgError as e:
            need(u is None, "integral refuses the unit %r: %s", case["u"], e)
            continue
        need(u is not None, "integral takes %r for a unit and returns %r", case["u"], g)
        need_same(g, F(us) / u, abs(F(us)) / u / 10**13, "integral in %r against microseconds" % case["u"])
    ctx.ev.nontrivial(True)
    ctx.ev.label("a unit" if u else "not a unit")


@st.composite
def series_s(draw):
    step = draw(st.sampled_from([1, 7, 1000, SEC, 600 * SEC, HOUR]))
    n = draw(st.integers(0, 60))
    ln = n * step + draw(st.integers(-1, 1)) if draw(st.booleans()) else n * step
    return {"start": draw(st.sampled_from(BASES)), "len": ln, "step": step, "base": draw(st.one_of(vals, st.sampled_from([0.0, 1000.0]))),
            "period": step * draw(st.integers(1, 24)), "mag": draw(st.one_of(st.just(0.0), posvals)), "sd": draw(st.one_of(st.just(0.0), posvals)),
            "seed": draw(st.one_of(st.integers(0, 9), st.integers(-2**63, 2**63 - 1))), "null": draw(st.integers(0, 30)) == 0}


GS = TE + "generate_periodic_normal_series"


def f_series(ctx, case):
    c = case
    q = "SELECT time, value FROM " + GS + "($1::timestamptz,$2::bigint,$3::bigint,$4,$5::bigint,$6,$7,$8::bigint)"

    def gen(base=c["base"], mag=c["mag"], sd=c["sd"], seed=c["seed"]):
        return ctx.db.q(q, ts(c["start"]), c["len"], c["step"], fl(base), c["period"], fl(mag), fl(sd), seed)
    r = gen()
    times = [c["start"] + k for k in range(0, max(0, c["len"]), c["step"])]
    need([x[0] for x in r] == times, "generated times %r, expected %d points every %d us from %s over %d us", [x[0] for x in r][:20], len(times), c["step"], ts(c["start"]), c["len"])
    need(repr(r) == repr(gen()), "the same seed %d gave two different series", c["seed"])
    n = len(times)
    quiet = [x[1] for x in gen(sd=0.0)]
    lim = abs(c["base"]) + c["mag"]
    if n and c["sd"] > 0:
        noise = [F(x[1]) - F(y) for x, y in zip(r, quiet)]
        twice = [F(x[1]) - F(y) for x, y in zip(gen(sd=2 * c["sd"]), quiet)]
        tol = F(1, 10**11) * F(lim + 20 * c["sd"])
        for a, b in zip(noise, twice):
            need(abs(2 * a - b) <= tol, "doubling the standard deviation took a deviation of %.17g to %.17g", float(a), float(b))
        need(all(abs(a) < 12 * F(c["sd"]) for a in noise), "a deviation of more than 12 standard deviations (%r): %r", c["sd"], [float(a) for a in noise])
        if n >= 40:
            s2 = sum(a * a for a in noise) / n
            need(F(1, 9) * F(c["sd"])**2 < s2 < 9 * F(c["sd"])**2, "standard deviation %r asked for, %d points show %r", c["sd"], n, math.sqrt(float(s2)))
        if n >= 3:
            other = gen(seed=c["seed"] ^ 1)
            need([x[1] for x in other] != [x[1] for x in r], "seeds %d and %d gave the same series", c["seed"], c["seed"] ^ 1)
    if c["null"]:
        a = ctx.db.row("SELECT count(*), md5(string_agg(time||'/'||value,',' ORDER BY time)), min(time), max(time) FROM " + GS + "($1::timestamptz,$2::bigint)", ts(c["start"]), c["seed"])
        b = ctx.db.row("SELECT count(*), md5(string_agg(time||'/'||value,',' ORDER BY time)), min(time), max(time) FROM " + GS + "($1::timestamptz,$3::bigint,$4::bigint,1000,$5::bigint,100,100,$2::bigint)", ts(c["start"]), c["seed"], 28 * DAY, 600 * SEC, DAY)
        need(a == b and a[0] == 4032, "series with default parameters %r, with the defaults spelled out %r", a, b)
        ctx.ev.label("defaults")
    ctx.ev.nontrivial(n >= 2 and (c["mag"] > 0 or c["sd"] > 0))
    # last, because a known finding ends the case
    known = None
    for k, v in enumerate(quiet):
        a = (times[k] - c["start"]) / c["period"]
        good = c["base"] + c["mag"] * math.sin(2 * math.pi * a)
        asis = c["base"] + c["mag"] * math.sin((times[k] - c["start"]) / (2 * math.pi * c["period"]))
        if abs(v - good) > 1e-9 * (lim + 1e-300):
            msg = "generated series (no noise) is %r at %.3f periods from the start, expected %r" % (v, a, good)
            need(abs(v - asis) <= 1e-9 * (lim + 1e-300), "%s", msg)
            known = known or msg
    if known:
        raise Violation(known + ": the wave's period is 4*pi^2 times the one asked for", sig="series-period")


# the function calls timescaledb's time_bucket, which is not installed here: a stand-in made from date_bin
def bucket_setup(ctx):
    ctx.db.q("CREATE OR REPLACE FUNCTION public.time_bucket(interval,timestamptz) RETURNS timestamptz LANGUAGE sql IMMUTABLE AS $$SELECT date_bin($1,$2,'2000-01-03Z')$$")


@st.composite
def bucket_s(draw):
    w = draw(st.sampled_from([1, 1000, SEC, 15 * MIN, HOUR, DAY, 7 * DAY, 7 * MIN + 1]))
    k = draw(st.integers(-10**6, 10**6))
    return {"w": w, "t": max(-10**17, min(10**17, 2 * DAY + k * w + draw(st.sampled_from([0, -1, 1, w - 1, draw(st.integers(0, w))]))))}


def f_bucket(ctx, case):
    w, t = case["w"], case["t"]
    lo = 2 * DAY + (t - 2 * DAY) // w * w
    r = ctx.db.row("SELECT lower(r), upper(r), lower_inc(r), upper_inc(r) FROM (SELECT " + TE + "time_bucket_range($1::interval,$2::timestamptz) r) q", iv(w), ts(t))
    need(r == [lo, lo + w, True, False], "time_bucket_range(%s, %s) is %r, expected [%r, %r)", iv(w), ts(t), r, lo, lo + w)
    ctx.ev.nontrivial((t - 2 * DAY) % w != 0)


PROPS = {
    "E03": {"rule": "saturating: a pair that clamps; calendar: a month that is not 30 days long or a zone other than UTC; units: all; series: two or more points and a wave or noise; bucket: a time inside its bucket",
            "note": "time_bucket_range runs against a stand-in for timescaledb's time_bucket made from date_bin (timescaledb is not installed here).",
            "subs": [
                Sub("saturating", sat_s(), f_sat, 3000),
                Sub("calendar", cal_s(), f_cal, 3000),
                Sub("units", unit_s(), f_unit, 1600),
                Sub("series", series_s(), f_series, 1600),
                Sub("bucket", bucket_s(), f_bucket, 800, setup=bucket_setup)]},
}
