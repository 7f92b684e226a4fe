"""B13 max_n / min_n"""
from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, fl, ts

KINDS = {"float": ("float8", fl), "int": ("bigint", str), "time": ("timestamptz", ts)}
fvals = st.one_of(small_ints, dyadic, mid, st.sampled_from([0.0, -0.0, 1e308, -1e308, 5e-324, float("inf"), float("-inf")]))
ivals = st.one_of(st.integers(-5, 5), st.integers(-2**63, 2**63 - 1), st.sampled_from([2**63 - 1, -2**63, 0]))
tvals = st.one_of(st.integers(0, 6).map(lambda k: k * SEC), st.integers(-10**15, 10**16))
V = {"float": fvals, "int": ivals, "time": tvals}


HEX = "lpad(to_hex(i),%d,'0')"
DATA = [("timestamptz", "timestamptz", "'2000-01-01Z'::timestamptz + i * interval '1us'"), ("int2", "smallint", "i*7-100"), ("oid", "oid", "i+5"),
        ("float4", "float4", "i/4.0"), ("macaddr", "macaddr", HEX % 12), ("macaddr8", "macaddr8", HEX % 16), ("uuid", "uuid", HEX % 32),
        ("name", "name", "repeat('n',(i%63)::int)||i"), ("tid", "tid", "'('||i||',3)'"), ("timetz", "timetz", "'10:00:00+02'::timetz + i * interval '1s'"),
        ("interval", "interval", "i * interval '1 day 3 s'"), ("point", "point", "point(i,-i)"), ("box", "box", "box(point(i,i),point(0,0))"), ("char", '"char"', "chr(64+i::int)"),
        ("numeric", "numeric", "i*10.0^(i*3)"), ("text[]", "text[]", "array[i::text,NULL,'x y']"), ("jsonb", "jsonb", "jsonb_build_object('a',i)"),
        ("composite", "x13", "row(i,repeat('q',i::int),i/2.0)::x13"), ("range", "int8range", "int8range(i,i+3)"), ("bytea", "bytea", "decode(repeat(%s,i::int),'hex')" % (HEX % 4)), ("bit", "bit(13)", "i::int::bit(13)")]


def setup(ctx):
    if not ctx.db.q("SELECT 1 FROM pg_type WHERE typname='x13'"):
        ctx.db.q("CREATE TYPE x13 AS (a bigint, b text, c numeric)")


@st.composite
def by_s(draw):
    c = draw(case_s())
    c["d"] = draw(st.sampled_from(DATA))
    return c


@st.composite
def case_s(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    n = draw(st.integers(1, 30))
    vs = [draw(V[k]) for _ in range(n)]
    o = draw(st.integers(0, 3))
    if o == 1:
        vs.sort()
    elif o == 2:
        vs.sort(reverse=True)
    g = draw(st.integers(1, 4))
    return {"k": k, "v": vs, "max": draw(st.booleans()), "n": draw(st.one_of(st.integers(1, 8), st.integers(1, n + 3))), "g": [draw(st.integers(0, g - 1)) for _ in vs], "null": draw(st.booleans())}


def expected(case):
    return sorted(case["v"], reverse=case["max"])[:case["n"]]


def f_plain(ctx, case):
    ty, f = KINDS[case["k"]]
    fn = "max_n" if case["max"] else "min_n"
    e = expected(case)
    r = ctx.db.row("SELECT into_array(s), ARRAY(SELECT * FROM into_values(s)), s -> into_array(), (SELECT array_agg(x) FROM (SELECT s -> into_values() x) z) FROM (SELECT %s(v,$2) s FROM unnest($1::%s[]) v) q" % (fn, ty), arr(case["v"], f), case["n"])
    for got, what in zip(r, ["into_array", "into_values", "-> into_array()", "-> into_values()"]):
        need(got == e, "%s(%s, %d) %s: got %r, expected %r", fn, ty, case["n"], what, got, e)
    ctx.ev.nontrivial(len(case["v"]) > case["n"] >= 2)
    ctx.ev.label("fewer than n", len(case["v"]) < case["n"])
    ctx.ev.label("tie at the edge", len(case["v"]) > case["n"] and sorted(case["v"], reverse=case["max"])[case["n"]] == e[-1])
    ctx.ev.label(case["k"])


def f_rolled(ctx, case):
    ty, f = KINDS[case["k"]]
    fn = "max_n" if case["max"] else "min_n"
    e = expected(case)
    by = fn + "_by"
    nul = " UNION ALL SELECT NULL, NULL" if case["null"] else ""
    r = ctx.db.row("SELECT into_array(rollup(s)), into_array(rollup(s) FILTER (WHERE s IS NOT NULL)) FROM (SELECT s, g FROM (SELECT g, %s(v,$2) s FROM unnest($1::%s[],$3::int[]) u(v,g) GROUP BY g) a ORDER BY g) q" % (fn, ty), arr(case["v"], f), case["n"], arr(case["g"]))
    need(r[0] == e and r[1] == e, "rollup of %s(%s, %d): got %r, expected %r", fn, ty, case["n"], r, e)
    rows = ctx.db.q("SELECT value, data FROM (SELECT rollup(s) s FROM (SELECT g, %s(v,i,$2) s FROM unnest($1::%s[],$3::int[]) WITH ORDINALITY u(v,g,i) GROUP BY g) a) q, into_values(s,NULL::bigint)" % (by, ty), arr(case["v"], f), case["n"], arr(case["g"]))
    check_by(rows, case, e, "rollup of " + by)
    ctx.ev.nontrivial(len(set(case["g"])) > 1 and len(case["v"]) > case["n"])


def check_by(rows, case, e, what):
    need([r[0] for r in rows] == e, "%s values: got %r, expected %r", what, [r[0] for r in rows], e)
    rows = [r[:2] for r in rows]
    idx = [r[1] for r in rows]
    need(len(set(idx)) == len(idx), "%s returns the same row twice: %r", what, rows)
    for v, i in rows:
        need(1 <= i <= len(case["v"]) and case["v"][i - 1] == v, "%s pairs value %r with the data of another row (%r)", what, v, i)


def f_by(ctx, case):
    ty, f = KINDS[case["k"]]
    fn = ("max_n" if case["max"] else "min_n") + "_by"
    e = expected(case)
    rows = ctx.db.q("SELECT value, data FROM (SELECT %s(v,i,$2) s FROM unnest($1::%s[]) WITH ORDINALITY u(v,i)) q, into_values(s,NULL::bigint)" % (fn, ty), arr(case["v"], f), case["n"])
    check_by(rows, case, e, fn)
    # data of variable length, and of a composite type
    rows = ctx.db.q("SELECT value, length(data), ltrim(data,'x') FROM (SELECT %s(v,repeat('x',i::int*37%%211)||i,$2) s FROM unnest($1::%s[]) WITH ORDINALITY u(v,i)) q, into_values(s,NULL::text)" % (fn, ty), arr(case["v"], f), case["n"])
    check_by([[r[0], int(r[2])] for r in rows], case, e, fn + " with text data")
    for r in rows:
        need(r[1] == int(r[2]) * 37 % 211 + len(r[2]), "%s text data damaged: %r", fn, r)
    # data of the other sorts of type: by value, of every sort of fixed size, of varying alignment, composite
    name, dty, expr = case["d"]
    src = "(SELECT v, i, (%s)::%s d FROM unnest($1::%s[]) WITH ORDINALITY u(v,i))" % (expr, dty, ty)
    rows = ctx.db.q("WITH u AS MATERIALIZED %s, a AS MATERIALIZED (SELECT %s(v,d,$2) s FROM u) "
                    "SELECT x.value, (SELECT min(i) FROM u WHERE u.d::text = x.data::text), x.data::text, pg_typeof(x.data)::text FROM a, into_values(s,NULL::%s) x" % (src, fn, dty), arr(case["v"], f), case["n"])
    for r in rows:
        need(r[1] is not None, "%s with %s data returns %r, which no row had", fn, dty, r[2])
    check_by(rows, case, e, fn + " with %s data" % dty)
    rows2 = ctx.db.q("WITH u AS MATERIALIZED %s, a AS MATERIALIZED (SELECT %s(v,d,$2) s FROM u GROUP BY i%%3), r AS MATERIALIZED (SELECT rollup(s) s FROM a) "
                     "SELECT x.value, (SELECT min(i) FROM u WHERE u.d::text = x.data::text), x.data::text FROM r, into_values(s,NULL::%s) x" % (src, fn, dty), arr(case["v"], f), case["n"])
    for r in rows2:
        need(r[1] is not None, "rollup of %s with %s data returns %r, which no row had", fn, dty, r[2])
    check_by(rows2, case, e, "rollup of " + fn + " with %s data" % dty)
    ctx.ev.label(name)
    ctx.ev.nontrivial(len(case["v"]) > case["n"] >= 2)
    ctx.ev.label(case["k"])


PROPS = {
    "B13": {"rule": "plain, by: more rows than n and n at least 2 (something must be left out); rolled: at least two groups and something left out", "subs": [
        Sub("plain", case_s(), f_plain, 3000),
        Sub("rolled", case_s(), f_rolled, 2000),
        Sub("by", by_s(), f_by, 2000, setup=setup)]},
}
