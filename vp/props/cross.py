"""Cross-cutting properties over the registry of all aggregates (vp/aggs.py):
A01 rollups, A02 arrival order, A03 partial plans, A04 running windows,
A05 text forms, A06 storage, E01 arrow forms, E02 NULL rows"""
from hypothesis import strategies as st

from ..aggs import AGGS, BY, TE, agree, arrow, lit, parse_texts
from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, arr


def scale_of(case):
    a = BY[case["agg"]]
    m = 1.0
    for k, c in enumerate(a.cols):
        if c[1] == "float8" or (c[1] == "bigint" and a.rounding):
            m = max([m] + [abs(r[k]) for r in case["rows"] if r[k] is not None])
    return m


def degenerate(case):
    """all of some numeric column's values are equal: ratios of moments mean nothing"""
    a = BY[case["agg"]]
    return any(c[1] != "timestamptz" and len({r[k] for r in case["rows"] if None not in r}) < 2 for k, c in enumerate(a.cols))


@st.composite
def base(draw, filt=lambda a: True, nulls=True):
    a = BY[draw(st.sampled_from([x.name for x in AGGS if filt(x)]))]
    rows = draw(a.rows)
    p = draw(a.params(rows))
    if nulls and a.nulls and draw(st.integers(0, 3)) == 0:
        rows = draw(withnulls(a, rows))
    return {"agg": a.name, "rows": rows, "p": p}


@st.composite
def withnulls(draw, a, rows, k=3):
    """rows the aggregate ignores, put in between"""
    out = list(rows)
    for _ in range(draw(st.integers(1, k))):
        r = list(draw(st.sampled_from(rows)))
        hit = [c for c in a.nulls if draw(st.booleans())] or [draw(st.sampled_from(a.nulls))]
        r = [None if n in hit else x for n, x in zip(a.names(), r)]
        out.insert(draw(st.integers(0, len(out))), r)
    return out


def uw(a, extra=()):
    return "WITH u AS MATERIALIZED (SELECT * FROM %s)" % a.src(extra)


def texts(row):
    return [parse_texts(x) for x in row]


# ---------------------------------------------------------------- A01

@st.composite
def rolled_s(draw):
    c = draw(base(lambda a: a.rollup in ("any", "disjoint", "ordered")))
    a = BY[c["agg"]]
    n = len(c["rows"])
    if a.rollup == "any":
        k = draw(st.integers(1, 5))
        g = [draw(st.integers(0, k)) for _ in range(n)]
    else:
        g = draw(cuts(n, 5))
    c["g"] = g
    ids = sorted(set(g))
    perm = draw(st.permutations(ids)) if a.rollup != "ordered" else ids
    c["o"] = [perm[ids.index(x)] for x in g]
    c["null"] = draw(st.booleans()) and not c["agg"].startswith(("max_n", "min_n"))  # these reject NULLs
    c["tree"] = draw(st.integers(1, 3))
    return c


def f_rolled(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    o = "i" if a.rollup == "ordered" else None
    nul = " UNION ALL SELECT %d, %d, NULL" % (c["g"][0], c["o"][0]) if c["null"] else ""
    sql = (uw(a, ("g", "o")) + ", d AS MATERIALIZED (SELECT %s s FROM u)" % a.call(p, "i")
           + ", p AS MATERIALIZED (SELECT g, o, %s s FROM u GROUP BY g, o%s)" % (a.call(p, "i"), nul)
           + ", r AS MATERIALIZED (SELECT %s(s ORDER BY o) s FROM p)" % a.fn
           + ", r2 AS MATERIALIZED (SELECT %s(s ORDER BY h) s FROM (SELECT g/%d h, %s(s ORDER BY g) s FROM p GROUP BY 1) z)" % (a.fn, c["tree"] + 1, a.fn)
           + ", one AS MATERIALIZED (SELECT %s(s) s FROM d)" % a.fn)
    args = a.args(c["rows"]) + [arr(c["g"]), arr(c["o"])]
    q = "".join(" UNION ALL SELECT %d, %s FROM %s" % (k, a.sel("s", p), t) for k, t in enumerate(["d", "r", "r2", "one"]))
    rows = sorted(ctx.db.q(sql + " " + q[11:], *args), key=lambda r: r[0])
    exp = texts(rows[0][1:])
    deg = degenerate(c)
    for r, w in zip(rows[1:], ["rollup of partial summaries", "rollup of rollups", "rollup of the one summary"]):
        agree(a.acc, texts(r[1:]), exp, scale_of(c), deg, "%s, %s (groups %r, params %r)" % (a.name, w, c["g"], p))
    ctx.ev.nontrivial(len(set(c["g"])) > 1)
    ctx.ev.label(a.name)


# ---------------------------------------------------------------- A02

def order_free(a):
    return a.order == "any" and a.par != "approx"


@st.composite
def order_s(draw):
    c = draw(base(order_free))
    n = len(c["rows"])
    c["perm"] = draw(st.one_of(st.permutations(range(n)), st.just(list(range(n))[::-1])))
    return c


def f_order(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    sql = uw(a, ("w",)) + ", d AS MATERIALIZED (SELECT %s s FROM u), e AS MATERIALIZED (SELECT %s s FROM u)" % (a.call(p, "i"), a.call(p, "w"))
    r = ctx.db.q(sql + " SELECT 0, %s FROM d UNION ALL SELECT 1, %s FROM e ORDER BY 1" % (a.sel("s", p), a.sel("s", p)), *a.args(c["rows"]), arr(c["perm"]))
    agree(a.acc, texts(r[1][1:]), texts(r[0][1:]), scale_of(c), degenerate(c), "%s over reordered rows (order %r, params %r)" % (a.name, c["perm"], p))
    ctx.ev.nontrivial(len(c["rows"]) > 1 and c["perm"] != sorted(c["perm"]))
    ctx.ev.label(a.name)


# ---------------------------------------------------------------- A03

def par_setup(ctx):
    if ctx.cache.get("par"):
        return
    ctx.cache["par"] = set()
    ctx.db.q("SET max_parallel_workers_per_gather=3")
    ctx.db.q("SET parallel_setup_cost=0")
    ctx.db.q("SET parallel_tuple_cost=0")
    ctx.db.q("SET min_parallel_table_scan_size=0")


def par_table(ctx, key, coldef):
    t = "vp_par_" + key
    if t not in ctx.cache["par"]:
        ctx.db.q("DROP TABLE IF EXISTS %s" % t)
        ctx.db.q("CREATE UNLOGGED TABLE %s(%s, g int, i int) PARTITION BY LIST (g)" % (t, coldef))
        for k in range(4):
            ctx.db.q("CREATE UNLOGGED TABLE %s_%d PARTITION OF %s FOR VALUES IN (%d)" % (t, k, t, k))
        ctx.cache["par"].add(t)
    else:
        ctx.db.q("TRUNCATE %s" % t)
    return t


def plans(ctx, a, c, t, call, what, safe):
    """serial, partial per partition in one process, and partial per partition in workers"""
    db, p = ctx.db, c["p"]
    sel = a.sel("s", p)
    if a.par == "set":
        sel = "ARRAY(SELECT x::text FROM (SELECT %s x) z ORDER BY 1)" % a.acc[0][0].format(s="s")
    if a.par == "approx":
        sel = exactly(a, p)
    stmt = "SELECT %s FROM (SELECT %s s FROM %s OFFSET 0) q" % (sel, call, t)
    out = {}
    modes = [("serial", "off", 0, "off"), ("partial per partition", "on", 0, "off")]
    if safe:
        modes += [("in parallel workers", "on", 3, "on"), ("in parallel workers without the leader", "on", 3, "off")]
    for name, pw, w, leader in modes:
        db.q("SET enable_partitionwise_aggregate=%s" % pw)
        db.q("SET max_parallel_workers_per_gather=%d" % w)
        db.q("SET parallel_leader_participation=%s" % leader)
        if name != "serial":
            plan = "\n".join(x[0] for x in db.q("EXPLAIN (COSTS OFF) " + stmt))
            ctx.ev.label(name + ": partial plan", "Partial Aggregate" in plan)
            ctx.ev.label(name + ": gather", "Gather" in plan)
            if "Partial Aggregate" not in plan:
                ctx.ev.label("no partial plan for " + a.name)
                continue
        out[name] = texts(db.row(stmt))
    exp = out.pop("serial")
    for name, got in out.items():
        if a.par in ("set", "approx"):
            if a.par == "approx":
                same_counts(a, got, exp, "%s %s, %s" % (what, a.name, name), c)
            else:
                need(got == exp, "%s %s %s gives %r, serially %r", what, a.name, name, got, exp)
        else:
            agree(a.acc, got, exp, scale_of(c), degenerate(c), "%s %s %s (groups %r, params %r)" % (what, a.name, name, c["g"], p))
    return bool(out)


def exactly(a, p):
    """what an approximate sketch must keep exactly whatever the plan"""
    if a.name in ("uddsketch", "percentile_agg"):
        return "ARRAY[num_vals(s)::text], ARRAY[error(s)::text], ARRAY[approx_percentile(0.0,s)::text], ARRAY[approx_percentile(1.0,s)::text], ARRAY[mean(s)::text]"
    if a.name == "tdigest":
        return "ARRAY[num_vals(s)::text], ARRAY[min_val(s)::text], ARRAY[max_val(s)::text], ARRAY[mean(s)::text]"
    return a.sel("s", p, a.acc[:1])


def same_counts(a, got, exp, what, c):
    from ..aggs import close
    if a.name == "tdigest":
        for k, (g, e) in enumerate(zip(got, exp)):
            need(close(g[0], e[0], 1e-10, 1e-12 * scale_of(c)), "%s: num_vals, min_val, max_val, mean are %r, serially %r", what, got, exp)
        return
    if a.name in ("uddsketch", "percentile_agg"):
        need(close(got[0][0], exp[0][0], 0, 0) and close(got[4][0], exp[4][0], 1e-10, 1e-12 * scale_of(c)), "%s: num_vals and mean are %r, serially %r", what, got, exp)
        if got[0][0] is None:
            return
        e = max(float(got[1][0]), float(exp[1][0]))
        xs = sorted(r[0] for r in c["rows"] if r[0] is not None)
        if e < 0.99:
            for k, x in ((2, xs[0]), (3, xs[-1])):
                need(abs(float(got[k][0]) - x) <= e * abs(x) * (1 + 1e-9) + 1e-12, "%s: extreme percentile %r for %r with stated error %r", what, got[k][0], x, e)
        return
    # frequency sketches: every listed range must hold the item's true frequency
    n = sum(1 for r in c["rows"] if r[0] is not None)
    cnt = {}
    for r in c["rows"]:
        if r[0] is not None:
            cnt[str(r[0])] = cnt.get(str(r[0]), 0) + 1
    seen = set()
    for x in got[0]:
        if x is None:
            continue
        body, lo, hi = x[1:-1].rsplit(",", 2)
        if body[:1] == '"':
            body = body[1:-1].replace('""', '"').replace("\\\\", "\\")
        need(body in cnt and body not in seen, "%s lists %r, rows hold %r", what, body, cnt)
        seen.add(body)
        need(float(lo) <= cnt[body] / n * (1 + 1e-12) and cnt[body] / n <= float(hi) * (1 + 1e-12), "%s: %r has frequency %d/%d outside [%s,%s]", what, body, cnt[body], n, lo, hi)


@st.composite
def part_s(draw):
    c = draw(base(lambda a: a.par is not None))
    a = BY[c["agg"]]
    n = len(c["rows"])
    if a.par == "combine":
        c["g"] = draw(cuts(n, 4))
    else:
        k = draw(st.integers(1, 3))
        c["g"] = [draw(st.integers(0, k)) for _ in range(n)]
    return c


def f_part(ctx, c):
    a = BY[c["agg"]]
    par_setup(ctx)
    t = par_table(ctx, a.name, ", ".join("%s %s" % x for x in a.cols))
    ctx.db.q("INSERT INTO %s SELECT %s, g, i FROM %s" % (t, ",".join(a.names()), a.src(("g",))), *a.args(c["rows"]), arr(c["g"]))
    ok = plans(ctx, a, c, t, a.call(c["p"]), "partial plan:", a.par != "combine")
    ctx.ev.nontrivial(ok and len(set(c["g"])) > 1)
    ctx.ev.label(a.name)


ROLL_SAFE = ["candle", "hll_text", "hll_bigint", "stats1", "stats2", "timevector", "max_n_ints", "min_n_ints", "max_n_floats", "min_n_floats", "max_n_times", "min_n_times", "uddsketch", "tdigest", "mcv_text", "mcv_bigint", "raw_mcv"]
ROLL_COMB = ["counter", "counter_bounds", "gauge", "time_weight_linear", "time_weight_locf", "state_text", "state_int", "compact_text", "compact_int"]


@st.composite
def partroll_s(draw):
    c = draw(base(lambda a: a.name in ROLL_SAFE or a.name in ROLL_COMB))
    a = BY[c["agg"]]
    n = len(c["rows"])
    c["g"] = draw(cuts(n, 6)) if a.rollup in ("disjoint", "ordered") else [draw(st.integers(0, 5)) for _ in range(n)]
    return c


def f_partroll(ctx, c):
    """rollup itself, over a table of stored partial summaries"""
    a = BY[c["agg"]]
    par_setup(ctx)
    t = par_table(ctx, "r_" + a.name, "s %s" % a.ty)
    # the summaries of disjoint groups keep their order over the partitions
    ctx.db.q("INSERT INTO %s SELECT %s, %s, g FROM %s GROUP BY g ORDER BY g" % (t, a.call(c["p"], "i"), "g/2" if a.rollup in ("disjoint", "ordered") else "g%4", a.src(("g",))), *a.args(c["rows"]), arr(c["g"]))
    ok = plans(ctx, a, c, t, "%s(s)" % a.fn, "partial plan of rollup:", a.name in ROLL_SAFE)
    ctx.ev.nontrivial(ok and len(set(c["g"])) > 1)
    ctx.ev.label(a.name)


# ---------------------------------------------------------------- A04

@st.composite
def window_s(draw):
    c = draw(base())
    c["frame"] = draw(st.sampled_from(["ROWS UNBOUNDED PRECEDING", "ROWS UNBOUNDED PRECEDING", "ROWS BETWEEN UNBOUNDED PRECEDING AND 1 FOLLOWING", "ROWS BETWEEN 2 PRECEDING AND CURRENT ROW", "ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING"]))
    a = BY[c["agg"]]
    if a.order == "any" and draw(st.integers(0, 2)) == 0:
        c["rows"] = draw(st.permutations(c["rows"]))
    return c


FR = {"ROWS UNBOUNDED PRECEDING": "b.i <= a.i", "ROWS BETWEEN UNBOUNDED PRECEDING AND 1 FOLLOWING": "b.i <= a.i + 1", "ROWS BETWEEN 2 PRECEDING AND CURRENT ROW": "b.i BETWEEN a.i - 2 AND a.i", "ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING": "b.i >= a.i"}


def f_window(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    v = View(a, [x for x in a.acc if x[1] != "E"])
    moving = a.name.startswith("stats")
    fr = c["frame"]
    sub = a.call(p, "b.i")
    for n in a.names():
        sub = sub.replace("(%s," % n, "(b.%s," % n).replace("(%s " % n, "(b.%s " % n).replace(",%s," % n, ",b.%s," % n).replace(",%s " % n, ",b.%s " % n)
    win = uw(a) + ", w AS MATERIALIZED (SELECT i, %s OVER (ORDER BY i %s) s FROM u)" % (a.call(p), fr)
    each = ", e AS MATERIALIZED (SELECT a.i, (SELECT %s FROM u b WHERE %s) s FROM u a)" % (sub, FR[fr])
    sel = v.sel("s", p)
    got = ctx.db.q(win + " SELECT i, s::text, %s, s::text, %s FROM w ORDER BY i" % (sel, sel), *a.args(c["rows"]))
    exp = ctx.db.q(uw(a) + each + " SELECT i, %s FROM e ORDER BY i" % sel, *a.args(c["rows"]))
    n = len(v.acc)
    sc, deg = scale_of(c), degenerate(c)
    for g, e in zip(got, exp):
        w = "%s over %s at row %d (params %r)" % (a.name, fr, g[0], p)
        x, y, z = texts(g[2:2 + n]), texts(g[3 + n:]), texts(e[1:])
        need(repr(x) == repr(y) and g[1] == g[2 + n], "%s: reading the summary changed it: %r then %r", w, g[:2 + n], g[2 + n:])
        if moving and "UNBOUNDED PRECEDING" not in fr:
            # rows leave by subtraction: held to its own tolerance in B08
            need(x[0] == z[0], "%s: num_vals %r, over the frame's rows %r", w, x[0], z[0])
        elif a.rounding or moving:
            agree(v.acc, x, z, sc, deg, w)
            for q, r, s in zip(v.acc, x, z):
                if q[1] in ("a",):
                    need(r == s, "%s: %s is %r, over the frame's rows %r", w, q[0], r, s)
        else:
            for q, r, s in zip(v.acc, x, z):
                if q[1] == "s":
                    r, s = sorted(r, key=repr), sorted(s, key=repr)
                need(r == s, "%s: %s is %r, over the frame's rows %r", w, q[0], r, s)
    ctx.ev.nontrivial(len(c["rows"]) > 2)
    ctx.ev.label(a.name)


# ---------------------------------------------------------------- A05

@st.composite
def text_s(draw):
    c = draw(base())
    return c


def all_texts(ctx, a, p, cte, args, names):
    q = " UNION ALL ".join("SELECT %d, s::text, %s FROM %s" % (k, a.sel("s", p), t) for k, t in enumerate(names))
    return sorted(ctx.db.q(cte + " " + q, *args), key=lambda r: r[0])


def usable(ctx, a, p, cte, args):
    """leave out accessors which answer with an error for this summary (E kind)"""
    return [x for x in a.acc if x[1] != "E"]


class View:
    def __init__(self, a, acc):
        self.a, self.acc = a, acc

    def sel(self, s, p):
        return self.a.sel(s, p, self.acc)


def f_text(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    v = View(a, [x for x in a.acc if x[1] != "E"])
    cte = uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u), r AS MATERIALIZED (SELECT s::text::%s s FROM d), r2 AS MATERIALIZED (SELECT s::text::%s s FROM r)" % (a.call(p, "i"), a.ty, a.ty)
    rows = all_texts(ctx, v, p, cte, a.args(c["rows"]), ["d", "r", "r2"])
    for r in rows[1:]:
        need(r[1] == rows[0][1], "%s: text form %r reads back as %r", a.name, rows[0][1], r[1])
        for x, g, e in zip(v.acc, r[2:], rows[0][2:]):
            if x[1] == "s":
                g, e = sorted(g, key=repr), sorted(e, key=repr)
            need(repr(g) == repr(e), "%s: %s of the value read back from text is %r, of the original %r", a.name, x[0], g, e)
    # rolling the read-back value up is like rolling the original up
    if a.rollup:
        rows = all_texts(ctx, v, p, cte + ", x AS MATERIALIZED (SELECT %s(s) s FROM d), y AS MATERIALIZED (SELECT %s(s) s FROM r)" % (a.fn, a.fn), a.args(c["rows"]), ["x", "y"])
        for x, g, e in zip(v.acc, rows[1][2:], rows[0][2:]):
            if x[1] == "s":
                g, e = sorted(g, key=repr), sorted(e, key=repr)
            need(repr(g) == repr(e), "%s: %s of the rollup of the value read back is %r, of the original %r", a.name, x[0], g, e)
    ctx.ev.nontrivial(len(c["rows"]) > 1 and rows[0][1] is not None)
    ctx.ev.label(a.name)


ZONES = ["UTC", "America/New_York", "Asia/Kathmandu", "Australia/Lord_Howe", "-11:30", "Europe/Dublin", "Pacific/Apia"]
ISOS = ["ISO, MDY", "ISO, DMY", "ISO, YMD"]
ORDS = ["SQL, MDY", "SQL, DMY", "Postgres, MDY", "Postgres, DMY", "German"]
IVS = ["postgres", "postgres_verbose", "iso_8601"]
MOODS = ["glad", "sad", "so so", 'q"t']


def settings_s(styles):
    return st.tuples(st.sampled_from(styles), st.sampled_from(ZONES), st.sampled_from(IVS))


def set_all(db, s):
    # abbreviated zone names are ambiguous, so the other styles are used with UTC
    db.q("SELECT set_config('datestyle',$1,false), set_config('timezone',$2,false), set_config('intervalstyle',$3,false)", s[0], s[1] if s[0][:3] == "ISO" else "UTC", s[2])


PLAIN = ("ISO, MDY", "UTC", "postgres")


@st.composite
def settext_s(draw):
    c = draw(base())
    c["s"] = draw(settings_s(ISOS + ORDS))
    return c


def f_settext(ctx, c):
    """whatever the session's settings, what it writes it reads"""
    a, p = BY[c["agg"]], c["p"]
    args = a.args(c["rows"])
    d = "d AS MATERIALIZED (SELECT %s s FROM u)" % a.call(p, "i")
    set_all(ctx.db, PLAIN)
    try:
        set_all(ctx.db, c["s"])
        rows = ctx.db.q(uw(a) + ", %s, r AS MATERIALIZED (SELECT s::text::%s s FROM d) SELECT d.s::text, r.s::text FROM d, r" % (d, a.ty), *args)
    finally:
        set_all(ctx.db, PLAIN)
    need(rows[0][0] == rows[0][1], "%s: with settings %r, text form %r reads back as %r", a.name, c["s"], *rows[0])
    ctx.ev.nontrivial(len(c["rows"]) > 1 and rows[0][0] is not None)
    ctx.ev.label(a.name)


def else_setup(ctx):
    """a second database, with another default collation and other object ids"""
    if not ctx.db.q("SELECT 1 FROM pg_database WHERE datname='elsewhere'"):
        ctx.db.q("CREATE DATABASE elsewhere TEMPLATE template0 LOCALE_PROVIDER icu ICU_LOCALE 'und'")
        ctx.db.q("CREATE TYPE mood AS ENUM (%s)" % ",".join(map(lit, MOODS)))
        db = ctx.server.connect("elsewhere")
        db.q("CREATE EXTENSION timescaledb_toolkit")
        db.q("CREATE TYPE mood AS ENUM (%s)" % ",".join(map(lit, MOODS)))
        db.close()
    ctx.cache["elsewhere"] = ctx.server.connect("elsewhere")


@st.composite
def else_s(draw):
    if draw(st.integers(0, 9)) == 0:
        c = {"agg": "mood", "fn": draw(st.sampled_from(["max_n_by", "min_n_by"])), "rows": [[draw(st.integers(-5, 5)), draw(st.sampled_from(MOODS))] for _ in range(draw(st.integers(1, 6)))]}
    else:
        c = draw(base())
    c["s"], c["t"] = draw(settings_s(ISOS)), draw(settings_s(ISOS))
    return c


def f_else(ctx, c):
    """written by one database, read by another: what a dump and restore does"""
    other = ctx.cache["elsewhere"]
    if c["agg"] == "mood":
        cte = "WITH d AS MATERIALIZED (SELECT %s(k, m, 3) s FROM unnest($1::bigint[], $2::mood[]) u(k, m))" % c["fn"]
        args = [arr([r[0] for r in c["rows"]]), "{" + ",".join('"%s"' % r[1].replace('"', '\\"') for r in c["rows"]) + "}"]
        ty = ctx.db.val(cte + " SELECT pg_typeof(s)::text FROM d", *args)
    else:
        a, p = BY[c["agg"]], c["p"]
        cte = uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u)" % a.call(p, "i")
        args, ty = a.args(c["rows"]), a.ty
    try:
        set_all(ctx.db, c["s"])
        text = ctx.db.val(cte + " SELECT s::text FROM d", *args)
        # the states of some summaries come in no order, so compare with the same text read at home
        set_all(ctx.db, PLAIN)
        home = ctx.db.val("SELECT $1::%s::text" % ty, text)
        set_all(other, c["t"])
        try:
            other.q("DROP TABLE IF EXISTS pg_temp.t")
            other.q("CREATE TEMP TABLE t(s %s)" % ty)
            other.q("INSERT INTO t VALUES ($1::%s)" % ty, text)
            set_all(other, PLAIN)
            away = other.val("SELECT s::text FROM t")
        except PgError as e:
            if "invalid collation" in e.msg and ('("pg_catalog","c")' in text or '("pg_catalog","i")' in text):
                raise Violation("%s: %r cannot be read by a database with another default collation provider: %s" % (c["agg"], text, e.msg), sig="default-collation")
            if c["agg"] == "mood" and "data:[%s," % ctx.db.val("SELECT 'mood'::regtype::oid::int8") in text:
                raise Violation("%s over an enum: %r names the type by its object id, and another database reads it as another type: %s" % (c["fn"], text, e.msg), sig="type-oid")
            raise Violation("%s: %r cannot be read by another database: %s" % (c["agg"], text, e.msg))
    finally:
        set_all(ctx.db, PLAIN)
        set_all(other, PLAIN)
    if c["agg"] == "mood" and home != away:
        raise Violation("%s over an enum: %r reads elsewhere as %r" % (c["fn"], home, away), sig="type-oid")
    need(home == away, "%s: %r (settings %r) reads in another database (settings %r) as %r, not %r", c["agg"], text, c["s"], c["t"], away, home)
    ctx.ev.nontrivial(len(c["rows"]) > 1 and text is not None)
    ctx.ev.label(c["agg"])


def probe_hll(ctx):
    else_setup(ctx)
    text = ctx.db.val("SELECT hyperloglog(32, 'x'::text)::text")
    try:
        ctx.cache["elsewhere"].q("SELECT $1::hyperloglog", text)
    except PgError:
        return True
    return False


def probe_else(agg_case):
    def f(ctx):
        else_setup(ctx)
        try:
            f_else(ctx, agg_case)
        except Violation:
            return True
        return False
    return f



# ---------------------------------------------------------------- E01 (and accessor objects of A05)

@st.composite
def arrow_s(draw):
    c = draw(base(lambda a: any(arrow(x) for x in a.acc)))
    a = BY[c["agg"]]
    k = [i for i, x in enumerate(a.acc) if arrow(x)]
    c["k"] = draw(st.lists(st.sampled_from(k), min_size=1, max_size=4, unique=True))
    return c


def outcome(db, sql, args):
    try:
        return ["ok"] + [r[0] for r in db.q(sql, *args)]
    except PgError as e:
        if e.state[:2] in ("53", "58", "57"):
            raise
        return ["error"]


def f_arrow(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    cte = uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u) " % a.call(p, "i")
    args = a.args(c["rows"])
    for k in c["k"]:
        x = a.acc[k]
        f = outcome(ctx.db, cte + "SELECT (%s)::text FROM d" % a.expr(x, "s", p), args)
        r = outcome(ctx.db, cte + "SELECT (s -> %s)::text FROM d" % arrow(x).format(**p), args)
        if x[1] == "s":
            f, r = sorted(f, key=repr), sorted(r, key=repr)
        need(f == r, "%s: s -> %s is %r, %s is %r (params %r)", a.name, arrow(x), r, x[0], f, p)
        ctx.ev.label("error on both sides", f == ["error"])
        ctx.ev.nontrivial(f != ["error"] and f != ["ok", None])
        ctx.ev.label(a.name)


# (accessor type, constructor): arrow accessors as values in their own right
def accessor_exprs(a):
    return [x for x in a.acc if arrow(x) and "->" not in arrow(x)]


def f_acctext(ctx, c):
    """an accessor written to text and read back does the same"""
    a, p = BY[c["agg"]], c["p"]
    cte = uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u) " % a.call(p, "i")
    args = a.args(c["rows"])
    for k in c["k"]:
        x = a.acc[k]
        r = arrow(x).format(**p)
        if "->" in r:
            continue
        if "pg_typ" not in ctx.cache:
            ctx.cache["pg_typ"] = {}
        key = (a.name, k)
        if key not in ctx.cache["pg_typ"]:
            ctx.cache["pg_typ"][key] = ctx.db.val("SELECT pg_typeof(%s)::text" % r)
        ty = ctx.cache["pg_typ"][key]
        t1, t2 = ctx.db.row("SELECT (%s)::text, (%s)::text::%s::text" % (r, r, ty))
        need(t1 == t2, "%s accessor %s: text %r reads back as %r", a.name, r, t1, t2)
        f = outcome(ctx.db, cte + "SELECT (s -> %s)::text FROM d" % r, args)
        g = outcome(ctx.db, cte + "SELECT (s -> %s::%s)::text FROM d" % (lit(t1), ty), args)
        h = outcome(ctx.db, cte + ", z AS MATERIALIZED (SELECT (%s)::text::%s acc) SELECT (s -> acc)::text FROM d, z" % (r, ty), args)
        if x[1] == "s":
            f, g, h = [sorted(q, key=repr) for q in (f, g, h)]
        need(f == g == h, "%s -> %s is %r; through the accessor's text form %r / %r", a.name, r, f, g, h)
        ctx.ev.nontrivial(f != ["error"])
        ctx.ev.label(ty)


# ---------------------------------------------------------------- A06

STORES = ["plain", "main", "external", "extended"]


@st.composite
def store_s(draw):
    c = draw(base())
    c["rep"] = draw(st.sampled_from([1, 1, 3, 40, 400]))
    c["st"] = draw(st.sampled_from(STORES))
    c["pad"] = draw(st.integers(0, 9))
    return c


def bulk(a, rep):
    """repeat the rows, moving times on and values apart"""
    sel = []
    for n, ty in a.cols:
        if ty == "timestamptz":
            sel.append("%s + k * (SELECT max(%s)-min(%s)+'7 us' FROM b) %s" % (n, n, n, n))
        elif ty == "float8":
            sel.append("%s + (k*37%%101)/8.0 %s" % (n, n))
        elif ty == "bigint":
            sel.append("CASE WHEN %s BETWEEN -1000000 AND 1000000 THEN %s + k*37%%101 ELSE %s END %s" % (n, n, n, n))
        else:
            sel.append("CASE WHEN k=0 THEN %s ELSE %s||(k*37%%101) END %s" % (n, n, n))
    return "WITH b AS MATERIALIZED (SELECT * FROM %s), u AS MATERIALIZED (SELECT %s, k*1000+i i FROM b, generate_series(0,%d) k)" % (a.src(), ", ".join(sel), rep - 1)


def f_store(ctx, c):
    a, p, db = BY[c["agg"]], c["p"], ctx.db
    rep = 1 if a.name.startswith(("heartbeat", "counter", "gauge", "time_weight")) or "::" in a.agg else c["rep"]
    v = View(a, [x for x in a.acc if x[1] != "E" and (rep == 1 or "{ab}" not in x[0])])
    if "st" not in ctx.cache:
        ctx.cache["st"] = set()
    t = "vp_st_" + a.ty.split(".")[-1]
    if t not in ctx.cache["st"]:
        db.q("CREATE TEMP TABLE IF NOT EXISTS %s(b bool, x \"char\"[], s %s, s2 %s, y text)" % (t, a.ty, a.ty))
        ctx.cache["st"].add(t)
    else:
        db.q("TRUNCATE %s" % t)
    if c["st"] == "plain" and rep > 3:
        c = dict(c, st="external")
    db.q("ALTER TABLE %s ALTER s SET STORAGE %s" % (t, c["st"]))
    cte = bulk(a, rep) + ", d AS MATERIALIZED (SELECT %s s FROM u)" % a.call(p, "i")
    args = a.args(c["rows"])
    pad = c["pad"]
    chars = "'{%s}'::\"char\"[]" % ",".join("a" * pad)
    try:
        db.q(cte + " INSERT INTO %s SELECT true, %s, s, s, repeat('z',%d) FROM d" % (t, chars, pad), *args)
    except PgError as e:
        if e.state == "54000":  # row too big for plain storage
            raise Skip()
        raise
    # padded record and array forms put the value at any offset
    src = {
        "computed": ("", "SELECT s FROM d", 1),
        "stored": ("", "SELECT s FROM %s" % t, 0),
        "stored, copied from the table": ("", "SELECT s FROM (SELECT b, x, s FROM %s ORDER BY b, x OFFSET 0) z" % t, 0),
        "array element": ("", "SELECT (ARRAY[s2,s,s2])[2] FROM %s" % t, 0),
        "array of computed": ("", "SELECT (array_agg(s))[1] FROM d", 1),
        "record field": ("", "SELECT (r).f2 FROM (SELECT ROW(repeat('q',%d)::text,s,1::\"char\") r FROM %s OFFSET 0) z" % (pad, t), 0) if False else None,
        "whole-row field": ("", "SELECT (r).s FROM (SELECT z r FROM (SELECT b, x, s, y FROM %s) z OFFSET 0) z2" % t, 0),
        "whole-row array": ("", "SELECT (r[1]).s FROM (SELECT array_agg(z) r FROM %s z) z2" % t, 0),
        "hash join side": ("", "SELECT z.s FROM %s z JOIN (VALUES (true)) w(b) USING (b)" % t, 0),
        "second column": ("", "SELECT s2 FROM %s" % t, 0),
    }
    first = txt = None
    for name, d in src.items():
        if d is None:
            continue
        q = "%s f AS MATERIALIZED (%s) SELECT s::text, %s, pg_column_size(s) FROM (SELECT s FROM f) z(s)" % ((cte + ",") if d[2] else "WITH", d[1].replace("SELECT (", "SELECT (") + "", v.sel("s", p))
        q = q.replace("f AS MATERIALIZED", "f(s) AS MATERIALIZED")
        r = db.row(q, *(args if d[2] else []))
        size = r.pop() if isinstance(r, list) else r[-1]
        r = list(r)
        if first is None:
            first = r
            big = size or 0
        else:
            if not d[2]:  # (a summary computed twice may list its states in another order)
                txt = r[0] if txt is None else txt
                need(r[0] == txt, "%s %s: text %.1000r, stored %.1000r", a.name, name, r[0], txt)
            for x, g, e in zip(v.acc, r[1:], first[1:]):
                if x[1] == "s":
                    g, e = sorted(g, key=repr), sorted(e, key=repr)
                need(repr(g) == repr(e), "%s %s: %s is %.1000r, freshly computed %.1000r", a.name, name, x[0], g, e)
        if name == "stored":
            ctx.ev.label("stored compressed or short", size != big)
    ctx.ev.label("over 2 kB", big > 2000)
    ctx.ev.label("under 127 bytes", big < 127)
    ctx.ev.label("storage " + c["st"])
    ctx.ev.label(a.name)
    ctx.ev.nontrivial(first[0] is not None)


# ---------------------------------------------------------------- E02

@st.composite
def null_s(draw):
    c = draw(base(lambda a: a.nulls, nulls=False))
    a = BY[c["agg"]]
    c["with"] = draw(withnulls(a, c["rows"], 5))
    return c


def f_null(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    v = View(a, [x for x in a.acc if x[1] != "E"])
    one = ctx.db.row(uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u) SELECT %s FROM d" % (a.call(p, "i"), v.sel("s", p)), *a.args(c["rows"]))
    two = ctx.db.row(uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u) SELECT %s FROM d" % (a.call(p, "i"), v.sel("s", p)), *a.args(c["with"]))
    for x, g, e in zip(v.acc, two, one):
        if x[1] == "s":
            g, e = sorted(g, key=repr), sorted(e, key=repr)
        need(repr(g) == repr(e), "%s: with ignored rows %r, %s is %r, without them %r", a.name, [r for r in c["with"] if None in r], x[0], g, e)
    ctx.ev.nontrivial()
    ctx.ev.label(a.name)


@st.composite
def empty_s(draw):
    c = draw(base(nulls=False))
    a = BY[c["agg"]]
    c["only"] = draw(withnulls(a, c["rows"], 4)) if a.nulls else []
    c["only"] = [r for r in c["only"] if any(r[a.names().index(n)] is None for n in a.nulls)]
    return c


def f_empty(ctx, c):
    a, p = BY[c["agg"]], c["p"]
    acc = [x for x in a.acc if x[1] != "E"]
    v = View(a, acc)
    exp = None
    for rows, what in (([], "no rows"), (c["only"], "only ignored rows %r" % c["only"])):
        r = ctx.db.row(uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u) SELECT s::text, %s FROM d" % (a.call(p, "i"), v.sel("s", p)), *a.args(rows))
        if exp is None:
            exp = r
        else:
            if r[0] is None or exp[0] is not None:
                need(repr(r) == repr(exp), "%s over %s gives %r, over no rows %r", a.name, what, r, exp)
            else:
                # an empty summary rather than none: nothing it answers may be a value
                for x, g in zip(acc, r[1:]):
                    need(g in ([None], [], ["0"], ["{}"]), "%s over %s: %s is %r", a.name, what, x[0], g)
    # accessors of no summary
    nul = [x for x in acc if not x[0].startswith(("interpolat", TE + "interpolat", "trim_to"))]
    r = ctx.db.row("SELECT %s FROM (SELECT NULL::%s s OFFSET 0) q" % (", ".join("ARRAY(SELECT (%s)::text)" % a.expr(x, "s", p) for x in nul), a.ty))
    for x, g in zip(nul, r):
        need(g in ([None], []) or g == ["00:00:00"] and "duration_in" in x[0], "%s of a NULL %s is %r", x[0], a.ty, g)
    if a.rollup:
        cte = uw(a) + ", d AS MATERIALIZED (SELECT %s s FROM u), e AS (SELECT %s s FROM u WHERE false)" % (a.call(p, "i"), a.call(p, "i"))
        for src in ("(VALUES (NULL::%s),(NULL)) z(s)" % a.ty, "(SELECT NULL::%s s WHERE false) z" % a.ty):
            if "VALUES" in src and a.name.startswith(("max_n", "min_n")):
                continue
            r = ctx.db.row("SELECT s::text, %s FROM (SELECT %s(s) s FROM %s OFFSET 0) q" % (v.sel("s", p), a.fn, src))
            for x, g in zip(acc, r[1:]):
                need(g in ([None], [], ["0"], ["{}"]), "rollup of %s from %s: %s is %r", a.name, src, x[0], g)
        # mixing NULL and empty summaries in leaves the rollup as it is
        sel = v.sel("s", p)
        x = ctx.db.row(cte + " SELECT %s FROM (SELECT %s(s) s FROM d) z" % (sel, a.fn), *a.args(c["rows"]))
        y = ctx.db.row(cte + " SELECT %s FROM (SELECT %s(s ORDER BY k) s FROM (SELECT 1 k, s FROM d UNION ALL SELECT 0, NULL UNION ALL SELECT 0, s FROM e UNION ALL SELECT 2, NULL UNION ALL SELECT 3, s FROM e) w%s) z" % (sel, a.fn, " WHERE s IS NOT NULL" if a.name.startswith(("max_n", "min_n")) else ""), *a.args(c["rows"]))
        for q, g, e in zip(acc, y, x):
            if q[1] == "s":
                g, e = sorted(g, key=repr), sorted(e, key=repr)
            need(repr(g) == repr(e), "%s: rolled up along with NULL and empty summaries, %s is %r, alone %r", a.name, q[0], g, e)
    ctx.ev.nontrivial(bool(c["only"]))
    ctx.ev.label(a.name)


N = len(AGGS)
PROPS = {
    "A01": {"rule": "at least two groups hold rows", "technique": "property-based testing: rollup trees over generated partitions compared with the direct aggregate (metamorphic), with shrinking",
            "subs": [Sub("rollup", rolled_s(), f_rolled, 6000)]},
    "A02": {"rule": "at least two rows, in a different order", "technique": "property-based testing: permuted input compared with the original order (metamorphic), with shrinking",
            "subs": [Sub("order", order_s(), f_order, 6000)]},
    "A03": {"rule": "rows in at least two partitions and a plan that really has partial aggregates", "technique": "property-based testing: the same rows and query under serial, partition-wise and parallel plans (differential), with shrinking",
            "subs": [Sub("aggregate", part_s(), f_part, 3000, setup=par_setup), Sub("rollup", partroll_s(), f_partroll, 1200, setup=par_setup)]},
    "A04": {"rule": "at least three rows", "technique": "property-based testing: running windows compared with the aggregate over each frame's rows (differential), with shrinking",
            "subs": [Sub("window", window_s(), f_window, 6000)]},
    "A05": {"rule": "summaries of at least two rows; accessors that answer", "technique": "property-based testing: text round-trips of generated summaries and accessors, with shrinking",
            "subs": [Sub("summary", text_s(), f_text, 6000), Sub("accessor", arrow_s(), f_acctext, 3000),
                     Sub("settings", settext_s(), f_settext, 1600), Sub("elsewhere", else_s(), f_else, 1200, setup=else_setup)],
            "probes": {"A05-type-oid": probe_else({"agg": "mood", "fn": "max_n_by", "rows": [[1, "sad"]], "s": PLAIN, "t": PLAIN}),
                       "A05-default-collation": probe_hll}},
    "A06": {"rule": "the summary is not NULL", "technique": "property-based testing: stored and copied summaries compared with the computed one (round trip), with shrinking",
            "subs": [Sub("store", store_s(), f_store, 3200)]},
    "E01": {"rule": "the accessor answers with a value", "technique": "property-based testing: arrow form against function form (differential), with shrinking",
            "subs": [Sub("arrow", arrow_s(), f_arrow, 6000)]},
    "E02": {"rule": "NULL rows present", "technique": "property-based testing: rows with and without NULLs interspersed (metamorphic), with shrinking",
            "subs": [Sub("nulls", null_s(), f_null, 6000), Sub("empty", empty_s(), f_empty, 3000)]},
}
