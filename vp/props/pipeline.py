"""D03 timevector and pipeline elements, D05 composition, D06 as-of join"""
import json
import math

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, fl, iv, parse_ts, ts
from . import lambdas as L
from .lttb import check_lttb

TE = "toolkit_experimental."
TV = "(SELECT timevector(t,v ORDER BY i) FROM unnest($1::timestamptz[],$2::float8[]) WITH ORDINALITY u(t,v,i))"
NAN = float("nan")


def A(rows):
    return ("{" + ",".join("NULL" if r[0] is None else '"%s"' % ts(r[0]) for r in rows) + "}",
            "{" + ",".join("NULL" if r[1] is None else fl(r[1]) for r in rows) + "}")


finite = st.one_of(small_ints, dyadic, mid)
anyval = st.one_of(small_ints, dyadic, st.sampled_from([0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.0, -0.0, 1e308, -1e308, 5e-324, 4503599627370497.5]), special)


@st.composite
def rows_s(draw, lo=0, hi=24, v=finite, nulls=True, order=None, null_times=True, dup=True):
    n = draw(st.integers(lo, hi))
    base = draw(st.sampled_from(BASES))
    unit = draw(st.sampled_from([1, SEC, MIN, HOUR, DAY]))
    t, out = base, []
    nul = nulls and draw(st.integers(0, 2)) == 0
    nt = null_times and draw(st.integers(0, 7)) == 0
    for i in range(n):
        if i:
            t += unit * draw(st.one_of(st.integers(0 if dup else 1, 4), st.sampled_from([1, 1, 1, 1, 1, 7, 23])))
        val = draw(v)
        if nul and draw(st.integers(0, 3)) == 0:
            val = None
        out.append([None if nt and draw(st.integers(0, 4)) == 0 else t, val])
    o = draw(st.sampled_from(["up", "up", "up", "down", "mix"])) if order is None else order
    if o == "down":
        out.reverse()
    elif o == "mix" and n > 1:
        k = draw(st.integers(1, n - 1))
        out = out[k:] + out[:k]
    return out


def kept(rows):
    return [r for r in rows if r[0] is not None]


def vv(x):
    return NAN if x is None else x


def eqv(a, b, rel=0.0, err=0.0):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + err


def need_rows(got, exp, what, rel=0.0, err=0.0):
    need(len(got) == len(exp), "%s: %d rows, expected %d: %r, expected %r", what, len(got), len(exp), got[:40], exp[:40])
    for i, (g, e) in enumerate(zip(got, exp)):
        need(g[0] == e[0] and eqv(g[1], vv(e[1]), rel, err), "%s: row %d is %r, expected %r", what, i, g, e)


def is_sorted(rows):
    return all(a[0] <= b[0] for a, b in zip(rows, rows[1:]))


# ---------------------------------------------------------------- plain timevectors

@st.composite
def plain_s(draw):
    rows = draw(rows_s(0, 40, v=st.one_of(finite, anyval)))
    return {"rows": rows, "g": draw(cuts(len(rows), 4))}


def plotly(db, sql, args, rows, what):
    """the finite values and nulls as to_plotly and to_text present them"""
    j = json.loads(db.val("SELECT %sto_plotly(%s)" % (TE, sql), *args))
    need([parse_ts(t) for t in j["times"]] == [r[0] for r in rows], "%s: to_plotly times %r, expected %r", what, j["times"], rows)
    vs = [None if x == "null" else float(x) for x in j["vals"]]
    need(len(vs) == len(rows) and all(g == r[1] for g, r in zip(vs, rows)), "%s: to_plotly values %r, expected %r", what, vs, rows)
    j = json.loads(db.val("SELECT %sto_text(%s,'{{TIMEVALS | safe}}')" % (TE, sql), *args))
    need([[parse_ts(x["time"]), None if x["val"] is None else float(x["val"])] for x in j] == rows, "%s: to_text pairs %r, expected %r", what, j, rows)


def f_plain(ctx, case):
    rows, db = case["rows"], ctx.db
    exp = kept(rows)
    a = A(rows)
    if not exp:
        need(db.val("SELECT " + TV + "::text", *a) is None, "timevector over no times is not NULL")
        return
    need_rows(db.q("SELECT time, value FROM unnest(" + TV + ")", *a), exp, "unnest(timevector)")
    need_rows(db.q("SELECT (x).time, (x).value FROM (SELECT " + TV + " -> unnest() x) q" if False else "SELECT time, value FROM (SELECT (" + TV + " -> unnest())::text x) q, LATERAL (SELECT split_part(trim(both '()' from replace(x,'\"','')),',',1)::timestamptz \"time\", split_part(trim(both '()' from x),',',2)::float8 \"value\") z", *a), exp, "timevector -> unnest()")
    if all(r[1] is None or math.isfinite(r[1]) for r in exp):
        plotly(db, TV, a, exp, "timevector")
    # rollup in time-ordered groups concatenates
    gs = split_groups(rows, case["g"])
    gno = [g for g in case["g"]]
    R = "(SELECT rollup(s ORDER BY g) FROM (SELECT g, timevector(t,v ORDER BY i) s FROM unnest($1::timestamptz[],$2::float8[],$3::int[]) WITH ORDINALITY u(t,v,g,i) GROUP BY g) q)"
    got = db.q("SELECT time, value FROM unnest(" + R + ")", *a, arr(gno))
    need_rows(got, exp, "unnest(rollup(timevector)) over %d groups" % len(gs))
    if all(r[1] is None or math.isfinite(r[1]) for r in exp):
        plotly(db, R, a + (arr(gno),), exp, "rollup(timevector)")
    # what the rollup knows about order and NULLs agrees: elements which need either behave alike
    for el in ("delta()", TE + "fill_to('1 day','locf')", TE + "sort()"):
        x = outcome(db, "SELECT time, value FROM unnest(" + TV + " -> " + el + ")", a)
        y = outcome(db, "SELECT time, value FROM unnest(" + R + " -> " + el + ")", a + (arr(gno),))
        need((x is None) == (y is None), "%s over a rolled up timevector %s, over the same rows directly it %s", el, "fails" if y is None else "works", "fails" if x is None else "works")
        if x is not None:
            need_rows(y, x, el + " over the rollup")
    ctx.ev.nontrivial(len(exp) > 2)
    ctx.ev.label("several groups", len(gs) > 1)
    ctx.ev.label("has NULL values", any(r[1] is None for r in exp))
    ctx.ev.label("not in time order", not is_sorted(exp))


def outcome(db, sql, a):
    try:
        return db.q(sql, *a)
    except PgError as e:
        if e.state not in ("XX000", "22008", "22003"):
            raise
        return None


# ---------------------------------------------------------------- single elements

BINOPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "power": "^", "logn": "log"}
UNOPS = ["abs", "cbrt", "ceil", "floor", "ln", "log10", "round", "sign", "sqrt", "trunc"]
DATA_FNS = {"vp_lin": lambda x: x * 2 + 1, "vp_neg": lambda x: -x, "vp_half": lambda x: x / 2}
SERIES_FNS = ["vp_rev", "vp_same", "vp_first"]


def setup(ctx):
    if ctx.cache.get("fns"):
        return
    db = ctx.db
    db.q("CREATE OR REPLACE FUNCTION vp_lin(float8) RETURNS float8 LANGUAGE plpgsql IMMUTABLE AS 'BEGIN RETURN $1*2+1; END'")
    db.q("CREATE OR REPLACE FUNCTION vp_neg(float8) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT -$1'")
    db.q("CREATE OR REPLACE FUNCTION vp_half(float8) RETURNS float8 LANGUAGE plpgsql AS 'BEGIN RETURN $1/2; END'")
    db.q("CREATE OR REPLACE FUNCTION vp_rev(timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql AS 'SELECT timevector(time,value ORDER BY i DESC) FROM (SELECT u.time, u.value, row_number() OVER () i FROM unnest($1) u) q'")
    db.q("CREATE OR REPLACE FUNCTION vp_same(timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE plpgsql AS 'BEGIN RETURN $1; END'")
    db.q("CREATE OR REPLACE FUNCTION vp_first(timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql AS 'SELECT timevector(time,value ORDER BY i) FROM (SELECT u.time, u.value, row_number() OVER () i FROM unnest($1) u) q WHERE i<=3'")
    ctx.cache["fns"] = True


METHODS = ["locf", "interpolate", "linear", "nearest", "LOCF", "Linear"]


@st.composite
def element_s(draw, kinds=None):
    k = draw(st.sampled_from(kinds or ["sort", "delta", "fill_to", "fill_to", "lttb", "bin", "bin", "un", "un", "map", "filter", "map_data", "map_series"]))
    if k == "fill_to":
        return [k, draw(st.sampled_from([1, 2, 3])) * draw(st.sampled_from([1, SEC, MIN, HOUR, DAY])), draw(st.sampled_from(METHODS))]
    if k == "lttb":
        return [k, draw(st.one_of(st.integers(2, 12), st.sampled_from([0, 100])))]
    if k == "bin":
        op = draw(st.sampled_from(sorted(BINOPS) + ["mod"]))
        return [op, draw(st.one_of(small_ints, dyadic, st.sampled_from([0.0, -0.0, 2.0, 10.0, 0.5, -1.0, 3.0]), special))]
    if k == "un":
        return [draw(st.sampled_from(UNOPS))]
    if k in ("map", "filter"):
        return [k, draw(L.expr("d" if k == "map" else "b", draw(st.integers(1, 2)), {}))]
    if k == "map_data":
        return [k, draw(st.sampled_from(sorted(DATA_FNS)))]
    if k == "map_series":
        return [k, draw(st.sampled_from(SERIES_FNS))]
    return [k]


def el_sql(e):
    k = e[0]
    if k == "delta":
        return "delta()"
    if k == "fill_to":
        return TE + "fill_to('%d us'::interval, '%s')" % (e[1], e[2]) if e[1] < HOUR else TE + "fill_to('%d minutes'::interval, '%s')" % (e[1] // MIN, e[2])
    if k == "lttb":
        return TE + "lttb(%d)" % e[1]
    if k in ("map", "filter"):
        return TE + k + "($$%s$$)" % L.show(e[1], " ")
    if k in ("map_data", "map_series"):
        return TE + k + "('%s')" % e[1]
    if len(e) == 2:
        return TE + k + "('%s'::float8)" % fl(e[1])
    return TE + k + "()"


def fmod(a, b):
    if isnan(a) or isnan(b) or math.isinf(a) or b == 0:
        return NAN
    return math.fmod(a, b)


def timesensitive(e):
    return isinstance(e, list) and (e[:1] in (["t"], ["T"], ["I"]) or any(timesensitive(x) for x in e))


def model(rows, e):
    """expected rows, or None where the element must refuse. Third form: (rows, rel, err)"""
    k = e[0]
    nulls = any(r[1] is None for r in rows)
    srt = is_sorted(rows)
    if k == "sort":
        return sorted(rows, key=lambda r: r[0]), 0, 0
    if k == "delta":
        if not srt or nulls:
            return None
        return [[b[0], b[1] - a[1]] for a, b in zip(rows, rows[1:])], 0, 0
    if k == "fill_to":
        if not srt or nulls:
            return None
        out, step, m = [], e[1], e[2].lower()
        for i, r in enumerate(rows):
            out.append(r)
            if i + 1 < len(rows):
                n = rows[i + 1]
                if (n[0] - r[0]) // step > 400:
                    raise Skip()
                t = r[0] + step
                while t < n[0]:
                    w = Fraction(t - r[0], n[0] - r[0])
                    if m == "locf":
                        v = r[1]
                    elif m == "nearest":
                        v = r[1] if t - r[0] <= n[0] - t else n[1]
                    else:
                        if not (math.isfinite(r[1]) and math.isfinite(n[1])) or max(abs(r[1]), abs(n[1])) > 1e300:
                            raise Skip()
                        v = float(Fraction(r[1]) * (1 - w) + Fraction(n[1]) * w)
                    out.append([t, v])
                    t += step
        big = max([abs(r[1]) for r in rows if math.isfinite(r[1])] or [0])
        return out, 1e-9, (1e-12 * big if m in ("linear", "interpolate") else 0)
    if k == "lttb":
        return "lttb"
    if k == "map":
        if any(timesensitive(e[1]) for _ in (0,)):
            raise Skip()
        vals = [L.Ev(vv(r[1]), r[0]).go(e[1], {}) for r in rows]
        return [[r[0], x.v] for r, x in zip(rows, vals)], 0, max([x.e for x in vals] or [0])
    if k == "filter":
        if timesensitive(e[1]):
            raise Skip()
        return [r for r in rows if L.Ev(vv(r[1]), r[0]).go(e[1], {})], 0, 0
    if k == "map_data":
        try:
            return [[r[0], DATA_FNS[e[1]](vv(r[1]))] for r in rows], 0, 0
        except OverflowError:
            raise Skip()
    if k == "map_series":
        if e[1] == "vp_same":
            return rows, 0, 0
        if e[1] == "vp_rev":
            return rows[::-1], 0, 0
        return rows[:3], 0, 0
    if k == "mod":
        return [[r[0], fmod(vv(r[1]), e[1])] for r in rows], 0, 0
    if k in BINOPS:
        f = L.FN[BINOPS[k]]
        return [[r[0], f(vv(r[1]), e[1])] for r in rows], (0 if k in ("add", "sub", "mul", "div") else 1e-13), (1e-14 if k == "logn" else 0)
    f = L.FN[k]
    return [[r[0], f(vv(r[1]))] for r in rows], (0 if k in L.EXACT else 1e-13), 0


@st.composite
def elem_case(draw):
    e = draw(element_s())
    safe = e[0] in ("delta", "fill_to", "lttb")
    rows = draw(rows_s(1, 30, v=finite if e[0] in ("lttb", "map_data") or draw(st.booleans()) else anyval, order="up" if safe and draw(st.integers(0, 3)) else None, nulls=not safe or draw(st.integers(0, 4)) == 0, null_times=False))
    if e[0] == "fill_to":
        u = max(1, max((b[0] - a[0] for a, b in zip(rows, rows[1:])), default=1) // draw(st.sampled_from([1, 2, 3, 10, 40])))
        if draw(st.booleans()):
            e[1] = max(1, u) if u < HOUR else max(1, u // MIN) * MIN
    return {"rows": rows, "e": e}


def f_elem(ctx, case):
    rows, e = case["rows"], case["e"]
    db = ctx.db
    setup(ctx)
    m = model(rows, e)
    sql = "SELECT time, value FROM unnest(" + TV + " -> " + el_sql(e) + ")"
    if m == "lttb":
        if not all(r[1] is not None for r in rows):
            raise Skip()
        got = outcome(db, sql, A(rows))
        need((got is None) == (not is_sorted(rows)), "lttb(%d) of %r: %r", e[1], rows, got)
        if got is not None and all(a[0] < b[0] for a, b in zip(rows, rows[1:])):
            check_lttb("lttb element", rows, e[1] if e[1] else len(rows), got)
        return
    got = outcome(db, sql, A(rows))
    ctx.ev.label(e[0])
    if m is None:
        need(got is None, "%s of a series which is not in order or has NULLs was accepted: %r -> %r", el_sql(e), rows, got)
        ctx.ev.label("refused")
        return
    need(got is not None, "%s of %r failed", el_sql(e), rows)
    if e[0] == "map_data" and any(r[1] is not None and abs(r[1]) > 1e300 for r in rows):
        raise Skip()
    need_rows(got, m[0], "%s of %r" % (el_sql(e), rows), m[1], m[2])
    if e[0] in ("sort", "filter") and all(r[1] is None or math.isfinite(r[1]) for r in rows) and m[0]:
        plotly(db, TV + " -> " + el_sql(e), A(rows), m[0], el_sql(e))
    ctx.ev.nontrivial(len(rows) > 2 and (got != rows))


# ---------------------------------------------------------------- terminal elements

@st.composite
def term_s(draw):
    return {"rows": draw(rows_s(1, 30, v=finite, order=draw(st.sampled_from(["up", "up", None])), nulls=draw(st.integers(0, 4)) == 0, null_times=False, dup=False)), "e": draw(st.one_of(st.none(), element_s(["sort", "bin", "un", "filter"]))), "size": draw(st.sampled_from([16, 64, 512])), "p": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0]))}


def f_term(ctx, case):
    rows, e = case["rows"], case["e"]
    db = ctx.db
    setup(ctx)
    pipe = (" -> " + el_sql(e)) if e else ""
    nulls = any(r[1] is None for r in rows)
    a = A(rows)
    try:
        out = db.q("SELECT time, value FROM unnest(" + TV + pipe + ")", *a)
    except PgError:
        raise Skip()
    if e and e[0] == "filter":
        nulls = any(isnan(r[1]) for r in out)
    if any(not math.isfinite(r[1]) for r in out) and not nulls or any(math.isfinite(r[1]) and abs(r[1]) > 1e100 for r in out):
        raise Skip()
    X = TV + pipe
    o = A(out)
    U = "unnest($1::timestamptz[],$2::float8[]) u(t,v)"
    need(db.val("SELECT " + X + " -> num_vals()", *a) == len(out), "num_vals() of %r%s", rows, pipe)
    if nulls:
        for tname in ("sum()", "average()", TE + "stats_agg()"):
            need(outcome(db, "SELECT (" + X + " -> " + tname + ")::text", a) is None, "%s over a series with NULLs was accepted", tname)
        ctx.ev.label("nulls refused")
        return
    vals = [r[1] for r in out]
    scale = max([abs(x) for x in vals] or [0])
    s, avg, n, st1, sk = db.row("SELECT " + X + " -> sum(), " + X + " -> average(), num_vals(s), stddev(s), variance(s,'pop') FROM (SELECT " + X + " -> " + TE + "stats_agg() s) q", *a)
    need(n == len(out), "stats_agg() element counts %r of %d", n, len(out))
    r = db.row("SELECT sum(s), average(s), stddev(s), variance(s,'pop') FROM (SELECT stats_agg(v) s FROM " + U + ") q", *o)
    if vals:
        need_same(s, math.fsum(vals), 1e-12 * scale * len(vals), "-> sum()")
        need_same(avg, math.fsum(vals) / len(vals), 1e-12 * scale, "-> average()")
        need(relclose(st1, r[2], 1e-9, scale) and relclose(sk, r[3], 1e-9, scale * scale), "-> stats_agg(): %r, over the rows: %r", (st1, sk), r[2:])
    else:
        need(s is None and avg is None, "sum and average of an empty series: %r", (s, avg))
    # hyperloglog and percentile summaries are the very ones the aggregates make
    h = db.row("SELECT distinct_count(s), stderror(s), s::text FROM (SELECT " + X + " -> " + TE + "hyperloglog(%d) s) q" % case["size"], *a)
    h2 = db.row("SELECT distinct_count(s), stderror(s), s::text FROM (SELECT hyperloglog(%d,v) s FROM " % case["size"] + U + ") q", *o)
    if vals:
        need(h[:2] == h2[:2], "-> hyperloglog(%d): %r, over the rows: %r", case["size"], h, h2)
    else:
        need(h[0] == 0, "-> hyperloglog() of an empty series counts %r", h[0])
    if vals:
        p = db.row("SELECT approx_percentile($3,s), num_vals(s), mean(s), error(s) FROM (SELECT " + X + " -> " + TE + "percentile_agg() s) q", *a, case["p"])
        p2 = db.row("SELECT approx_percentile($3,s), num_vals(s), mean(s), error(s) FROM (SELECT percentile_agg(v) s FROM " + U + ") q", *o, case["p"])
        need(relclose(p, p2, 1e-12), "-> percentile_agg(): %r, over the rows: %r", p, p2)
    c = outcome(db, "SELECT delta(s), num_resets(s), num_changes(s), rate(s) FROM (SELECT " + X + " -> " + TE + "counter_agg() s) q", a)
    if is_sorted(out):
        need(c is not None, "-> counter_agg() over an ordered series failed")
        c2 = db.q("SELECT delta(s), num_resets(s), num_changes(s), rate(s) FROM (SELECT counter_agg(t,v) s FROM " + U + ") q", *o)
        need(relclose(c, c2, 1e-12) or not out and c == [[None] * 4], "-> counter_agg(): %r, over the rows: %r", c, c2)
    need_rows(unrec(db, "SELECT (" + X + " -> " + TE + "unnest())::text", a), out, "-> unnest()")
    need_rows(db.q("SELECT time, value FROM unnest(" + X + " -> " + TE + "materialize())", *a), out, "-> materialize()")
    ctx.ev.nontrivial(len(out) > 2)


def unrec(db, sql, a):
    rows = []
    for (x,) in db.q(sql, *a):
        t, v = x.strip("()").replace('"', "").split(",")
        rows.append([parse_ts(t), float(v)])
    return rows


# ---------------------------------------------------------------- D05

FAST = ["sort", "delta", "fill_to", "lttb", "bin", "un", "un", "bin", "map", "filter", "map_data", "map_series"]
TERMS = [None, None, None, "sum()", "average()", "num_vals()", TE + "stats_agg()", TE + "counter_agg()", TE + "hyperloglog(32)", TE + "percentile_agg()", TE + "unnest()", TE + "materialize()"]


@st.composite
def chain_s(draw):
    rows = draw(rows_s(1, 16, v=finite, order=draw(st.sampled_from(["up", "up", None])), nulls=draw(st.integers(0, 6)) == 0, null_times=False))
    es = [draw(element_s(FAST)) for _ in range(draw(st.integers(2, 5)))]
    if draw(st.integers(0, 1)):
        es.insert(0, ["sort"])
    for e in es:
        if e[0] == "fill_to":
            e[1] = draw(st.sampled_from([SEC, MIN, HOUR, DAY, 7 * DAY]))
    return {"rows": rows, "es": es, "term": draw(st.sampled_from(TERMS)), "cut": draw(st.integers(1, len(es))), "cut2": draw(st.integers(0, len(es)))}


def tree(parts, cut, cut2):
    """some grouping of e1 -> e2 -> ..., as an expression of the pipeline type"""
    if len(parts) == 1:
        return parts[0]
    c = min(max(1, cut), len(parts) - 1)
    return "(%s -> %s)" % (tree(parts[:c], cut2, cut), tree(parts[c:], cut2, cut))


GROUPED = ("sum()", "average()", "num_vals()", TE + "unnest()", TE + "materialize()")


def with_term(parts, term, cut, cut2):
    """the elements and the terminal element, combined before they meet the series"""
    if term is None or term in GROUPED:
        return tree(parts + ([term] if term else []), cut, cut2)
    return "%sfinalize_with_%s(%s, %s)" % (TE, term[len(TE):term.index("(")], tree(parts, cut, cut2), term)


def f_chain(ctx, case):
    rows, es, term = case["rows"], case["es"], case["term"]
    db = ctx.db
    setup(ctx)
    rng = max(r[0] for r in rows) - min(r[0] for r in rows)
    if any(e[0] == "fill_to" and rng // e[1] > 3000 for e in es):
        raise Skip()
    a = A(rows)
    el = [el_sql(e) for e in es]
    tail = " -> " + term if term else ""
    setret = term == TE + "unnest()"
    # reference: one element at a time, each over the stored result of the one before
    cte = "WITH s0 AS MATERIALIZED (SELECT " + TV + " s)"
    for i, e in enumerate(el):
        cte += ", s%d AS MATERIALIZED (SELECT s -> %s s FROM s%d)" % (i + 1, e, i)
    fin = lambda x: "SELECT (%s%s)::text" % (x, tail)
    ref = outcome(db, cte + " " + fin("s") + " FROM s%d" % len(el), a)
    base = "WITH s0 AS MATERIALIZED (SELECT " + TV + " s) "
    k = case["cut"]
    alltail = el + ([term] if term else [])
    forms = {
        "written as one chain": base + fin("s" + "".join(" -> " + e for e in el)) + " FROM s0",
        "grouped first": base + "SELECT (s -> %s)::text FROM s0" % with_term(el, term, case["cut"], case["cut2"]),
        "grouped, then the rest": base + fin("s -> %s%s" % (tree(el[:k], case["cut2"], case["cut"]), "".join(" -> " + e for e in el[k:]))) + " FROM s0",
        "passed as text": base + fin("s -> %s::text::%sUnstableTimevectorPipeline" % (tree(el, case["cut"], case["cut2"]), TE)) + " FROM s0",
        "computed at run time": base + ", p AS MATERIALIZED (SELECT %s p) " % tree(el, case["cut2"], case["cut"]) + fin("s -> p") + " FROM s0, p",
        "grouped over an inlined series": "SELECT (%s -> %s)::text" % (TV, with_term(el, term, case["cut2"], case["cut"])),
    }
    if not setret:
        forms["over a constant series"] = None
    if all(r[1] is None or math.isfinite(r[1]) for r in rows):
        lit = db.val("SELECT " + TV + "::text", *a)
        if not setret:
            forms["over a constant series"] = ("SELECT ('%s'::timevector_tstz_f64%s%s)::text" % (lit, "".join(" -> " + e for e in el), tail), ())
    for what, sql in forms.items():
        if sql is None:
            continue
        if isinstance(sql, tuple):
            got = outcome(db, *sql)
        else:
            got = outcome(db, sql, a)
        need((got is None) == (ref is None), "%s: the pipeline %s, one element at a time it %s: %r over %r", what, "fails" if got is None else "works", "fails" if ref is None else "works", alltail, rows)
        need(got == ref, "%s: %r, one element at a time: %r; pipeline %r over %r", what, got, ref, alltail, rows)
    # the series is still what it was
    u = db.row(base + "SELECT s::text, (SELECT count(*) FROM (SELECT s%s) z), s::text FROM s0" % "".join(" -> " + e for e in el[:k]), *a) if ref is not None else None
    if u:
        need(u[0] == u[2] == db.val("SELECT " + TV + "::text", *a), "running a pipeline changed its input series")
    ctx.ev.nontrivial(ref is not None)
    ctx.ev.label("refused", ref is None)
    ctx.ev.label("with a terminal element", term is not None and ref is not None)


@st.composite
def stored_s(draw):
    rows = draw(rows_s(1, 12, order="up", nulls=False, null_times=False))
    return {"series": [rows] + [draw(rows_s(1, 12, order="up", nulls=False, null_times=False)) for _ in range(draw(st.integers(0, 2)))], "pipes": [[draw(element_s(["bin", "un", "sort", "map", "filter", "delta"])) for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(1, 3)))]}


def f_stored(ctx, case):
    """series and pipelines kept in tables: every pair gives what the literal pipeline gives"""
    db = ctx.db
    setup(ctx)
    if not ctx.cache.get("tab"):
        db.q("CREATE TEMP TABLE IF NOT EXISTS vp_s(i int, s timevector_tstz_f64)")
        db.q("CREATE TEMP TABLE IF NOT EXISTS vp_p(j int, p %sUnstableTimevectorPipeline)" % TE)
        ctx.cache["tab"] = True
    db.q("TRUNCATE vp_s, vp_p")
    for i, rows in enumerate(case["series"]):
        db.q("INSERT INTO vp_s SELECT %d, %s" % (i, TV), *A(rows))
    ps = []
    for j, es in enumerate(case["pipes"]):
        p = " -> ".join(el_sql(e) for e in es)
        ps.append(p)
        db.q("INSERT INTO vp_p SELECT %d, %s" % (j, p))
    got = outcome(db, "SELECT i, j, (s -> p)::text, (s -> p -> num_vals()), (s -> p -> %ssort())::text FROM vp_s, vp_p ORDER BY i, j" % TE, ())
    exp = []
    for j, p in enumerate(ps):
        r = outcome(db, "SELECT i, %d, (s -> %s)::text, (s -> %s -> num_vals()), (s -> %s -> %ssort())::text FROM vp_s ORDER BY i" % (j, p, p, p, TE), ())
        if r is None:
            exp = None
            break
        exp += r
    need((got is None) == (exp is None), "a stored pipeline %s, the same literal one does not; %r", "fails" if got is None else "works", ps)
    if exp is not None:
        exp.sort(key=lambda r: (r[0], r[1]))
        need(got == exp, "stored pipelines %r give %r, literal ones %r", ps, got, exp)
    ctx.ev.nontrivial(exp is not None and len(case["series"]) * len(case["pipes"]) > 1)


# ---------------------------------------------------------------- D06

@st.composite
def asof_s(draw):
    n, m = draw(st.integers(1, 20)), draw(st.integers(1, 20))
    base = draw(st.sampled_from(BASES))
    unit = draw(st.sampled_from([1, SEC, HOUR]))
    span = draw(st.integers(1, 40))
    f = sorted(draw(st.integers(0, span)) for _ in range(n))
    g = sorted(draw(st.integers(-5, span + 5)) for _ in range(m))
    v = st.one_of(finite, special, st.none()) if draw(st.integers(0, 3)) == 0 else finite
    return {"from": [[base + x * unit, draw(v)] for x in f], "into": [[base + x * unit, draw(v)] for x in g]}


def f_asof(ctx, case):
    fr, into = case["from"], case["into"]
    db = ctx.db
    T2 = TV.replace("$1", "$3").replace("$2", "$4")
    got = db.q("SELECT value1, value2, time FROM (SELECT (%s -> %sasof(%s))::text x) q, LATERAL (SELECT nullif(split_part(trim(both '()' from replace(x,'\"','')),',',1),'')::float8 value1, split_part(trim(both '()' from replace(x,'\"','')),',',2)::float8 value2, split_part(trim(both '()' from replace(x,'\"','')),',',3)::timestamptz AS time) z" % (TV, TE, T2), *A(fr), *A(into))
    exp = []
    for t, v in into:
        c = [p[1] for p in fr if p[0] <= t]
        exp.append([vv(c[-1]) if c else None, vv(v), t])
    need(len(got) == len(exp), "asof gave %d rows for %d into points", len(got), len(exp))
    for g, e in zip(got, exp):
        need(g[2] == e[2] and eqv(g[1], e[1]) and ((g[0] is None) == (e[0] is None)) and (e[0] is None or eqv(g[0], e[0])), "asof row %r, expected %r (from %r)", g, e, fr)
    ctx.ev.nontrivial(len(fr) > 1 and len(into) > 1)
    ctx.ev.label("into starts before from", into[0][0] < fr[0][0])
    ctx.ev.label("a tie", bool({p[0] for p in fr} & {p[0] for p in into}))
    ctx.ev.label("repeated times", len({p[0] for p in fr}) < len(fr))


PROPS = {
    "D03": {
        "rule": "more than two points, and (for elements) the element changed the series",
        "subs": [Sub("plain", plain_s(), f_plain, 1200), Sub("element", elem_case(), f_elem, 4000, setup=setup), Sub("terminal", term_s(), f_term, 800, setup=setup)],
    },
    "D05": {
        "rule": "the pipeline of at least two elements runs without being refused",
        "subs": [Sub("forms", chain_s(), f_chain, 1600, setup=setup), Sub("stored", stored_s(), f_stored, 480, setup=setup)],
    },
    "D06": {
        "rule": "both series have more than one point",
        "subs": [Sub("asof", asof_s(), f_asof, 2400)],
    },
}
