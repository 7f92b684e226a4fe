"""Registry of every aggregate: how to call it, on what rows, and its accessors.
Used by the cross-cutting properties (props/cross.py)."""
import re

from hypothesis import strategies as st

from .gen import *
from .pg import arr, ats, afl, fl, iv, ts

TE = "toolkit_experimental."


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def enc(ty, xs):
    f = {"timestamptz": lambda x: '"%s"' % ts(x), "float8": fl, "bigint": str, "text": quote}[ty]
    return "{" + ",".join("NULL" if x is None else f(x) for x in xs) + "}"


def lit(s):
    return "'" + s.replace("'", "''") + "'" if "\\" not in s else "E'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


def tlit(us):
    return "'%s'::timestamptz" % ts(us)


def ilit(us):
    return "'%s'::interval" % iv(us)


STATES = ["a", "b", "c", "", "a b", "ünïcødé", 'q"u,o(te)', "back\\slash", "it's", "x" * 40, "NULL", "start", "b\n"]
ISTATES = [0, 1, 2, -1, 7, 2**63 - 1, -2**63, 10**6]
sumvals = st.one_of(small_ints, st.integers(-256, 256).map(lambda k: k / 8.0))
posv = st.one_of(st.integers(0, 20).map(float), st.integers(0, 256).map(lambda k: k / 8.0))


class Agg:
    def __init__(self, name, cols, agg, acc, rows, ty, params=None, rollup=None, fn="rollup", order="any", par=None, nulls=(), rounding=False, bulk=None, rnames=None):
        self.name, self.cols, self.agg, self.acc, self.rows, self.ty = name, cols, agg, acc, rows, ty
        self.params = params or (lambda rows: st.just({}))
        self.rollup, self.fn, self.order, self.par, self.nulls = rollup, fn, order, par, tuple(nulls)
        self.rounding = rounding

    def names(self):
        return [c[0] for c in self.cols]

    def args(self, rows):
        return [enc(c[1], [r[k] for r in rows]) for k, c in enumerate(self.cols)]

    def src(self, extra=()):
        """unnest of the row arrays ($1...), then the extra int columns"""
        n = len(self.cols)
        a = ["$%d::%s[]" % (k + 1, c[1]) for k, c in enumerate(self.cols)] + ["$%d::int[]" % (n + k + 1) for k in range(len(extra))]
        return "unnest(%s) WITH ORDINALITY u(%s)" % (",".join(a), ",".join(self.names() + list(extra) + ["i"]))

    def call(self, p, order=None):
        return self.agg.format(o=(" ORDER BY " + order) if order else "", **p)

    def expr(self, a, s, p):
        return a[0].format(s=s, **p)

    def sel(self, s, p, accs=None):
        return ", ".join("ARRAY(SELECT (%s)::text WHERE %s IS NOT NULL)" % (self.expr(a, s, p), s) for a in (accs or self.acc))


# ------------------------------------------------------------------ rows

@st.composite
def tvrows(draw, v=sumvals, lo=1, hi=14, extra=None):
    t = draw(times(lo, hi))
    return [[x, draw(v)] + ([draw(extra)] if extra is not None else []) for x in t]


@st.composite
def ohlc(draw):
    """ticks with distinct prices, so that the times of the high and low are settled"""
    t = draw(times(1, 14))
    pr = draw(st.lists(sumvals, min_size=len(t), max_size=len(t), unique=True))
    return [[x, p, draw(posv)] for x, p in zip(t, pr)]


@st.composite
def lists(draw, *cols, lo=1, hi=16):
    n = draw(st.integers(lo, hi))
    return [[draw(c) for c in cols] for _ in range(n)]


def tpar(rows, extra=None):
    """two query times around the rows and a duration"""
    @st.composite
    def s(draw):
        t0, t1 = rows[0][0], rows[-1][0]
        span = max(t1 - t0, 8)
        a = t0 - draw(st.sampled_from([0, 0, 0, span // 4 + 1, SEC]))
        b = t1 + draw(st.sampled_from([1, 1, span // 4 + 1, SEC]))
        q = t0 + draw(st.integers(0, span))
        d = {"a": tlit(a), "b": tlit(b), "ab": ilit(b - a), "q": tlit(q), "qd": ilit(draw(st.integers(1, span + 1))), "rng": "tstzrange(%s,%s)" % (tlit(a), tlit(b)), "t0": tlit(t0)}
        if extra:
            d.update({k: draw(f) for k, f in extra.items()})
        return d
    return s()


def par(**kw):
    def f(rows):
        return st.fixed_dictionaries(kw)
    return f


M2 = ["sample", "pop"]
STATS1 = [("num_vals({s})", "e"), ("sum({s})", "n"), ("average({s})", "n")] + [("%s({s},'%s')" % (f, m), k) for m in M2 for f, k in (("variance", "d"), ("stddev", "d"), ("skewness", "c"), ("kurtosis", "c"))] + [("stddev({s})", "d"), ("kurtosis({s})", "c")]
STATS2 = [("num_vals({s})", "e")] + [(f + "({s})", "n") for f in ("sum_x", "sum_y", "average_x", "average_y")] + [("%s_%s({s},'%s')" % (f, xy, m), k) for m in M2 for xy in "xy" for f, k in (("variance", "d"), ("stddev", "d"), ("skewness", "c"), ("kurtosis", "c"))] + [("covariance({s},'%s')" % m, "d") for m in M2] + [(f + "({s})", "c") for f in ("slope", "intercept", "x_intercept", "corr", "determination_coeff")]
COUNTER = [(f + "({s})", "e") for f in ("num_elements", "num_resets", "num_changes", "first_time", "last_time", "first_val", "last_val")] + [(f + "({s})", "n") for f in ("delta", "rate", "time_delta", "idelta_left", "idelta_right", "irate_left", "irate_right")] + [(f + "({s})", "x") for f in ("slope", "intercept", "counter_zero_time")] + [("corr({s})", "x"), ("with_bounds({s},{rng})", "x"), ("extrapolated_delta(with_bounds({s},{rng}),'prometheus')", "n", "with_bounds({rng}) -> extrapolated_delta('prometheus')"), ("extrapolated_rate(with_bounds({s},{rng}),'prometheus')", "n", "with_bounds({rng}) -> extrapolated_rate('prometheus')"), ("interpolated_delta({s},{a},{ab},NULL,NULL)", "n", False), ("interpolated_rate({s},{a},{ab},NULL,NULL)", "n", False)]
GAUGE = [(f + "({s})", "e") for f in ("num_elements", "num_changes")] + [(f + "({s})", "n") for f in ("delta", "rate", "time_delta", "idelta_left", "idelta_right", "irate_left", "irate_right")] + [(f + "({s})", "x") for f in ("slope", "intercept", "corr")] + [("gauge_zero_time({s})", "x", "counter_zero_time()"), ("with_bounds({s},{rng})", "x"), ("extrapolated_delta(with_bounds({s},{rng}))", "n", "with_bounds({rng}) -> extrapolated_delta('prometheus')"), ("extrapolated_rate(with_bounds({s},{rng}))", "n", "with_bounds({rng}) -> extrapolated_rate('prometheus')"), ("interpolated_delta({s},{a},{ab},NULL,NULL)", "n", False), ("interpolated_rate({s},{a},{ab},NULL,NULL)", "n", False)]
TW = [("average({s})", "n"), ("integral({s},'second')", "n"), ("integral({s},'hour')", "n"), ("integral({s})", "n")] + [(f + "({s})", "e") for f in ("first_val", "last_val", "first_time", "last_time")] + [("interpolated_average({s},{a},{ab},NULL,NULL)", "n"), ("interpolated_integral({s},{a},{ab},NULL,NULL,'hour')", "n")]
STATE = [("duration_in({s},{k})", "e"), ("duration_in({s},{k},{q})", "e"), ("duration_in({s},{k},{q},{qd})", "e"), ("interpolated_duration_in({s},{k},{a},{ab},NULL)", "e"), ("state_periods({s},{k})", "e"), ("interpolated_state_periods({s},{k},{a},{ab},NULL)", "e")]
STATET = STATE + [("into_values({s})", "s"), ("state_timeline({s})", "e"), ("state_at({s},{q})", "e"), ("interpolated_state_timeline({s},{a},{ab},NULL)", "e")]
STATEI = STATE + [("into_int_values({s})", "s"), ("state_int_timeline({s})", "e"), ("state_at_int({s},{q})", "e"), ("interpolated_state_int_timeline({s},{a},{ab},NULL)", "e")]
COMPACT = [(TE + "duration_in({s},{k})", "e", False), (TE + "interpolated_duration_in({s},{k},{a},{ab},NULL)", "e", False)]
HEART = [(f + "({s})", "e") for f in ("live_ranges", "dead_ranges", "uptime", "downtime", "num_live_ranges", "num_gaps")] + [("live_at({s},{q})", "e"), ("trim_to({s},{q},{qd})", "e"), ("interpolate({s},NULL)", "e", False), ("interpolated_uptime({s},NULL)", "e", False), ("interpolated_downtime({s},NULL)", "e", False)]
CANDLE = [(f + "({s})", "e") for f in ("open", "high", "low", "close", "open_time", "high_time", "low_time", "close_time")] + [("volume({s})", "n", False), ("vwap({s})", "n", False)]
NMOST = [("into_array({s})", "e"), ("into_values({s})", "e")]
NBY = [("into_values({s},NULL::bigint)", "e", False)]
HLL = [("distinct_count({s})", "e"), ("stderror({s})", "e")]
PCT = [("approx_percentile({p},{s})", "a"), ("approx_percentile_rank({r},{s})", "a"), ("mean({s})", "n"), ("num_vals({s})", "n")]
UDD = PCT + [("error({s})", "a"), ("approx_percentile_array(ARRAY[0.0,{p},1.0],{s})", "a", "approx_percentiles(ARRAY[0.0,{p},1.0])"), ("total({s})", "n", False)]
TDI = PCT + [("min_val({s})", "e"), ("max_val({s})", "e"), ("total({s})", "n", False)]
FREQT = [("into_values({s})", "a"), ("min_frequency({s},{k})", "a", False), ("max_frequency({s},{k})", "a", False), ("topn({s},2)", "E"), ("topn({s})", "E")]
FREQI = FREQT[:1] + [("min_frequency({s},{k})", "a"), ("max_frequency({s},{k})", "a")] + FREQT[3:]
FREQR = [("into_values({s},NULL::text)", "a", False), ("min_frequency({s},{k}::text)", "a", False), ("max_frequency({s},{k}::text)", "a", False), ("topn({s},2,NULL::text)", "E", False), ("topn({s},NULL::text)", "E", False)]
TV = [("unnest({s})", "e")]

TVC = [("t", "timestamptz"), ("v", "float8")]
states = st.sampled_from(STATES + ["a", "b", "a", "b"])
istates = st.sampled_from(ISTATES + [0, 1, 0, 1])
klit = st.sampled_from(STATES[:6]).map(lambda s: lit(s) + "::text")
kint = st.sampled_from(ISTATES).map(lambda k: "'%d'::bigint" % k)
pp = st.sampled_from(["0.0", "0.25", "0.5", "0.9", "1.0"])
rr = st.sampled_from(["-3.0", "0.0", "1.5", "7.0"])
cnt = st.sampled_from(["1", "2", "3", "5"])
AGGS = []


def A(*a, **k):
    AGGS.append(Agg(*a, **k))


for nm in ("stats_agg", "stats_agg_no_inv", TE + "stats_agg_tf"):
    sfx = nm.replace(TE, "")[9:]
    A("stats1" + sfx, [("v", "float8")], nm + "(v{o})", STATS1, lists(sumvals), "statssummary1d", rollup="any", par="safe" if sfx != "_tf" else None, nulls="v", rounding=True)
    A("stats2" + sfx, [("y", "float8"), ("x", "float8")], nm + "(y,x{o})", STATS2, lists(sumvals, sumvals), "statssummary2d", rollup="any", par="safe" if sfx != "_tf" else None, nulls="yx", rounding=True)
A("stats1_int", [("v", "bigint")], "stats_agg(v{o})", STATS1, lists(st.integers(-1000, 1000)), "statssummary1d", rollup="any", par="safe", nulls="v", rounding=True)
A("counter", TVC, "counter_agg(t,v{o})", COUNTER, tvrows(posv), "countersummary", lambda r: tpar(r), "disjoint", par="combine", nulls="tv", rounding=True)
A("counter_bounds", TVC, "counter_agg(t,v,{rng}{o})", [a for a in COUNTER if "with_bounds" not in a[0]] + [("extrapolated_delta({s},'prometheus')", "n"), ("extrapolated_rate({s},'prometheus')", "n")], tvrows(posv), "countersummary", lambda r: tpar(r), "disjoint", par="combine", nulls="tv", rounding=True)
A("gauge", TVC, "gauge_agg(t,v{o})", GAUGE, tvrows(), "gaugesummary", lambda r: tpar(r), "disjoint", par="combine", nulls="tv", rounding=True)
A("gauge_bounds", TVC, "gauge_agg(t,v,{rng}{o})", [a for a in GAUGE if "with_bounds" not in a[0]] + [("extrapolated_delta({s})", "n", "extrapolated_delta('prometheus')"), ("extrapolated_rate({s})", "n", "extrapolated_rate('prometheus')")], tvrows(), "gaugesummary", lambda r: tpar(r), "disjoint", par="combine", nulls="tv", rounding=True)
for m in ("Linear", "LOCF"):
    A("time_weight_" + m.lower(), TVC, "time_weight('%s',t,v{o})" % m, TW, tvrows(), "timeweightsummary", lambda r: tpar(r), "disjoint", par="combine", nulls="tv", rounding=True)
A("state_text", [("t", "timestamptz"), ("st", "text")], "state_agg(t,st{o})", STATET, tvrows(states), "stateagg", lambda r: tpar(r, {"k": klit}), "disjoint", par="safe", nulls=("st",))
A("state_int", [("t", "timestamptz"), ("st", "bigint")], "state_agg(t,st{o})", STATEI, tvrows(istates), "stateagg", lambda r: tpar(r, {"k": kint}), "disjoint", par="safe", nulls=("st",))
A("compact_text", [("t", "timestamptz"), ("st", "text")], TE + "compact_state_agg(t,st{o})", COMPACT + [(TE + "into_values({s})", "s", False)], tvrows(states), TE + "compactstateagg", lambda r: tpar(r, {"k": klit}), "disjoint", fn=TE + "rollup", par="safe", nulls=("st",))
A("compact_int", [("t", "timestamptz"), ("st", "bigint")], TE + "compact_state_agg(t,st{o})", COMPACT + [(TE + "into_int_values({s})", "s", False)], tvrows(istates), TE + "compactstateagg", lambda r: tpar(r, {"k": kint}), "disjoint", fn=TE + "rollup", par="safe", nulls=("st",))


def heart_par(rows):
    @st.composite
    def s(draw):
        t0, t1 = rows[0][0], rows[-1][0]
        span = t1 - t0 + 1
        L = draw(st.sampled_from([1, span // 8 + 1, span // 3 + 1, span]))
        D = span + draw(st.sampled_from([0, 1, span // 2, L])) + L
        q = draw(st.integers(0, D - 1))
        return {"s0": tlit(t0), "D": ilit(D), "L": ilit(L), "q": tlit(t0 + q), "qd": ilit(draw(st.integers(1, D - q)))}
    return s()


A("heartbeat", [("t", "timestamptz")], "heartbeat_agg(t,{s0},{D},{L}{o})", HEART, times(1, 14).map(lambda x: [[t] for t in x]), "heartbeatagg", heart_par, "any")
A("candle", [("t", "timestamptz"), ("p", "float8"), ("vol", "float8")], "candlestick_agg(t,p,vol{o})", CANDLE, ohlc(), "candlestick", rollup="any", par="safe", nulls="tp", rounding=True)
NT = {"float8": ("floats", st.one_of(sumvals, st.sampled_from([1e308, -1e308, 5e-324]))), "bigint": ("ints", st.one_of(st.integers(-9, 9), st.sampled_from(ISTATES))), "timestamptz": ("times", st.integers(0, 40).map(lambda k: Y2020 + k * HOUR))}
for ty, (sfx, s) in NT.items():
    for mm in ("max", "min"):
        A("%s_n_%s" % (mm, sfx), [("v", ty)], mm + "_n(v,{n}{o})", NMOST, lists(s), mm + sfx, par(n=cnt), "any", par="safe")
        A("%s_n_by_%s" % (mm, sfx), [("v", ty), ("d", "bigint")], mm + "_n_by(v,d,{n}{o})", NBY, st.lists(s, min_size=1, max_size=16, unique=True).map(lambda x: [[v, i] for i, v in enumerate(x)]), mm + "by" + sfx, par(n=cnt), "any")
        A("%s_n_bytext_%s" % (mm, sfx), [("v", ty), ("d", "text")], mm + "_n_by(v,d,{n}{o})", [("into_values({s},NULL::text)", "e", False)], st.lists(s, min_size=1, max_size=16, unique=True).map(lambda x: [[v, STATES[i % len(STATES)]] for i, v in enumerate(x)]), mm + "by" + sfx, par(n=cnt), "any")
for ty, s in (("text", st.one_of(states, st.integers(0, 200).map(str))), ("bigint", st.integers(0, 300)), ("float8", sumvals), ("timestamptz", NT["timestamptz"][1])):
    A("hll_" + ty, [("v", ty)], "hyperloglog({n},v{o})", HLL, lists(s, hi=40), "hyperloglog", par(n=st.sampled_from(["16", "32", "64", "1024"])), "any", par="safe", nulls="v")
A("approx_count_distinct", [("v", "bigint")], "approx_count_distinct(v{o})", HLL, lists(st.integers(0, 300), hi=30), "hyperloglog", rollup="any", par="safe", nulls="v")
A("uddsketch", [("v", "float8")], "uddsketch({n},{e},v{o})", UDD, lists(sumvals), "uddsketch", par(n=st.sampled_from(["8", "20", "200"]), e=st.sampled_from(["0.001", "0.01", "0.1"]), p=pp, r=rr), "approx", par="approx", nulls="v", rounding=True)
A("percentile_agg", [("v", "float8")], "percentile_agg(v{o})", UDD, lists(sumvals), "uddsketch", par(p=pp, r=rr), "approx", par="approx", nulls="v", rounding=True)
A("tdigest", [("v", "float8")], "tdigest({n},v{o})", TDI, lists(sumvals), "tdigest", par(n=st.sampled_from(["10", "100"]), p=pp, r=rr), "approx", par="approx", nulls="v", rounding=True)
for ty, k, FR, s in (("text", klit, FREQT, states), ("bigint", kint, FREQI, istates)):
    A("mcv_" + ty, [("v", ty)], "mcv_agg({n},v{o})", FR, lists(s), "spacesaving%saggregate" % ty, par(n=cnt, k=k), "approx", par="approx", nulls="v")
    A("mcv_skew_" + ty, [("v", ty)], "mcv_agg({n},{sk},v{o})", FR, lists(s), "spacesaving%saggregate" % ty, par(n=cnt, k=k, sk=st.sampled_from(["1.1", "1.5", "2.0"])), "approx", par="approx", nulls="v")
    A("freq_" + ty, [("v", ty)], TE + "freq_agg({f},v{o})", FR, lists(s), "spacesaving%saggregate" % ty, par(f=st.sampled_from(["0.1", "0.3", "0.5"]), k=k), "approx", par="approx", nulls="v")
A("raw_mcv", [("v", "text")], "raw_mcv_agg({n},v{o})", FREQR, lists(states), "spacesavingaggregate", par(n=cnt, k=klit), "approx", par="approx", nulls="v")
A("raw_freq", [("v", "text")], TE + "raw_freq_agg({f},v{o})", FREQR, lists(states), "spacesavingaggregate", par(f=st.sampled_from(["0.1", "0.3", "0.5"]), k=klit), "approx", par="approx", nulls="v")
TYPED = {"uuid": ["00000000-0000-0000-0000-00000000000%d" % k for k in range(4)], "interval": ["1 day", "24:00:00", "1 mon -1 days", "00:00:00.000001"],
         "smallint": ["0", "1", "-1", "32767"], "boolean": ["true", "false"], "timetz": ["10:00:00+00", "11:00:00+01", "23:59:59.999999-12"], "numeric": ["0", "1.5", "-1e40", "NaN", "1.50"],
         "float4": ["0", "1.5", "-1e30"], "date": ["2020-01-01", "infinity", "0001-01-01 BC"], "bytea": ["\\x", "\\x00ff", "\\x" + "ab" * 200], "int4[]": ["{}", "{1,2}", "{NULL,3}"], "name": ["a", "pg_class"], "macaddr": ["08:00:2b:01:02:03"], "text": ["a" * 3000, "q\"'", "\n\t"]}
for ty, vs in TYPED.items():
    sfx = re.sub(r"\W", "_", ty)
    if ty not in ("int4[]",):
        A("raw_mcv_" + sfx, [("v", "text")], "raw_mcv_agg({n},v::%s{o})" % ty, [("into_values({s},NULL::%s)" % ty, "e", False), ("topn({s},1,NULL::%s)" % ty, "E", False)], lists(st.sampled_from(vs)), "spacesavingaggregate", par(n=cnt), None, par=None, nulls="v")
    A("max_n_by_" + sfx, [("v", "bigint"), ("d", "text")], "max_n_by(v,d::%s,{n}{o})" % ty, [("into_values({s},NULL::%s)" % ty, "e", False)], st.tuples(st.lists(st.integers(-9, 9), min_size=1, max_size=8, unique=True), st.permutations(vs)).map(lambda x: [[v, x[1][i % len(x[1])]] for i, v in enumerate(x[0])]), "maxbyints", par(n=cnt), "any")
    A("min_n_by_" + sfx, [("v", "float8"), ("d", "text")], "min_n_by(v,d::%s,{n}{o})" % ty, [("into_values({s},NULL::%s)" % ty, "e", False)], st.tuples(st.lists(sumvals, min_size=1, max_size=8, unique=True), st.permutations(vs)).map(lambda x: [[v, x[1][i % len(x[1])]] for i, v in enumerate(x[0])]), "minbyfloats", par(n=cnt), "any")
A("count_min", [("v", "text")], TE + "count_min_sketch(v,{e},{p}{o})", [(TE + "approx_count({k},{s})", "e", False)], lists(states), TE + "countminsketch", par(e=st.sampled_from(["0.01", "0.1"]), p=st.sampled_from(["0.01", "0.2"]), k=klit), None, par="safe", nulls="v")
A("timevector", TVC, "timevector(t,v{o})", TV, tvrows(), "timevector_tstz_f64", rollup="ordered", order="time", par="set", nulls="t")
A("lttb", TVC, "lttb(t,v,{n}{o})", TV, tvrows(lo=1), "timevector_tstz_f64", par(n=st.sampled_from(["3", "4", "5", "20"])), nulls="v")
A("gp_lttb", TVC, TE + "gp_lttb(t,v,{n}{o})", TV, tvrows(lo=1), "timevector_tstz_f64", par(n=st.sampled_from(["3", "5", "20"])), nulls="v")
A("gp_lttb_gap", TVC, TE + "gp_lttb(t,v,{g},{n}{o})", TV, tvrows(lo=1), "timevector_tstz_f64", par(n=st.sampled_from(["3", "5", "20"]), g=st.sampled_from(["'1 min'::interval", "'1 day'::interval", "'3 us'::interval"])), nulls="v")
A("asap_smooth", TVC, "asap_smooth(t,v,{n}{o})", TV, tvrows(lo=1, hi=24), "timevector_tstz_f64", par(n=st.sampled_from(["3", "5", "20"])), nulls="tv", rounding=True)
BY = {a.name: a for a in AGGS}


def arrow(a):
    """the arrow right-hand side of an accessor, or None"""
    if len(a) > 2:
        return a[2] or None
    x = re.sub(r"\{s\},?", "", a[0])
    return re.sub(r",\)$", ")", x)


# ------------------------------------------------------------------ comparing answers

def toks(x):
    return re.split(r'([(){},"])', x)


def close(a, b, rel, ab):
    """two accessor texts, equal up to rounding in the numbers they hold"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    p, q = toks(a), toks(b)
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x == y:
            continue
        try:
            u, v = float(x), float(y)
        except ValueError:
            return False
        if isnan(u) and isnan(v):
            continue
        if not abs(u - v) <= rel * max(abs(u), abs(v)) + ab:
            return False
    return True


def parse_texts(x):
    """text[] from a query -> list"""
    return x


def agree(acc, got, exp, scale, degenerate=False, what="", sig=None):
    """compare two rows of accessor answers (lists of text) under each accessor's kind"""
    for a, g, e in zip(acc, got, exp):
        k = a[1]
        if k in ("x", "a", "E") or (k == "c" and degenerate):
            continue
        if k == "s":
            ok = sorted(g, key=repr) == sorted(e, key=repr)
        elif k == "e":
            ok = g == e
        else:
            rel, ab = {"n": (1e-10, 1e-12 * scale), "d": (1e-7, 1e-7 * scale * scale), "c": (1e-5, 1e-6 * max(1, scale))}[k]
            ok = len(g) == len(e) and all(close(x, y, rel, ab) for x, y in zip(g, e))
        need(ok, "%s: %s is %r, expected %r", what, a[0], g, e, sig=sig)
