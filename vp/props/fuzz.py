"""A07 malformed and extreme input: an ordinary error or a value, never a dead or hung backend"""
import json
import os
import re

from hypothesis import strategies as st

from ..aggs import AGGS, BY, enc
from ..core import Sub, Violation
from ..gen import *
from ..pg import PgCrash, PgError, PgHang

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "fuzz_catalog.json")) as _f:
    CAT = json.load(_f)
TYPES = CAT["types"]
TNAMES = sorted(t for t in TYPES if TYPES[t])
SUMMARIES = [t for t in TNAMES if any(a.ty == t for a in AGGS)]
FUNCS = CAT["funcs"]
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|[A-Za-z_]\w*|\s+|.', re.S)
NUM = re.compile(r"^-?\d")
BIGS = [0, 1, -1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, -2**63, 2**64 - 1, 2**64, 10**30]
NUMS = [str(x) for x in BIGS] + ["NaN", "inf", "-inf", "1e308", "-1e308", "1e-308", "5e-324", "0.5", "1.0", "-0.0", "1e400", "0x10", "+1", "1_0"]
WORDS = ["true", "false", "None", "Some", "Dense", "Sparse", "Invalid", "Unused", "Linear", "LOCF", "TEXT", "INT8", "NUMERIC", "JSONB", "version", "bounds", "Transaction", "Disabled", "Missing", "Prometheus", "Nearest", "Interpolate", "Sum", "Sample", "Population", "()"]
TIMES = ['"infinity"', '"-infinity"', '"epoch"', '"294276-12-31 23:59:59.999999+00"', '"4714-11-24 00:00:00+00 BC"', '"now"', '"x"', '""', '"2020-01-01 00:00:00+00"', '"NaN"', '"-1"', '"1"', '"\\u{0}"', '"2020-01-01 00:00:00 Foo/Bar"', '"2020-01-01 00:00:00 XYZ"', '"2020-13-45"', '"2020-01-01 25:61:61"', '"999999-01-01"', '"2020-01-01 00:00:00+99"', '"1 day"', '"allballs"', '"J2451187"', '"today"', '"' + "z" * 300 + '"']
PUNCT = list("(){}[],:;\"'\\.$#/* \n") + ["((", "))", "[[", "]]", ",,", "é", "\U0001f600", "\x01", "\x7f", "r#\"", "Some(", "None"]
ENVIRONMENTAL = ("53", "57P", "58")


@st.composite
def mutated(draw, text, heavy=False):
    """1 to 4 edits of a valid text, mostly ones that keep its shape"""
    t = TOK.findall(text)
    for _ in range(draw(st.integers(1, 6 if heavy else 3))):
        if not t:
            break
        k = draw(st.integers(0, 19))
        nums = [i for i, x in enumerate(t) if NUM.match(x)]
        strs = [i for i, x in enumerate(t) if x[0] == '"']
        i = draw(st.integers(0, len(t) - 1))
        if k <= 6 and nums:
            i = nums[draw(st.integers(0, len(nums) - 1))]
            if k <= 3:
                t[i] = draw(st.sampled_from(NUMS))
            elif k == 4:
                t[i] = t[nums[draw(st.integers(0, len(nums) - 1))]]
            else:
                try:
                    v = int(t[i]) if re.fullmatch(r"-?\d+", t[i]) else float(t[i])
                    t[i] = str(draw(st.sampled_from([v + 1, v - 1, -v, v * 2, v // 2])))
                except (ValueError, OverflowError):
                    t[i] = "0"
        elif k <= 8 and strs:
            i = strs[draw(st.integers(0, len(strs) - 1))]
            t[i] = draw(st.one_of(st.sampled_from(TIMES), st.sampled_from(NUMS).map(lambda x: '"' + x + '"'), st.just(t[strs[0]])))
        elif k <= 11:
            # drop or repeat the elements between two commas of a list
            cs = [j for j, x in enumerate(t) if x in "[](),"]
            if len(cs) >= 2:
                a = draw(st.integers(0, len(cs) - 2))
                b = min(len(cs) - 1, a + draw(st.integers(1, 3)))
                seg = t[cs[a] + 1:cs[b] + 1]
                t = t[:cs[a] + 1] + (seg * draw(st.sampled_from([0, 0, 2, 3, 40])))[:4000] + t[cs[b] + 1:]
        elif k == 12:
            del t[i]
        elif k == 13:
            t.insert(i, t[draw(st.integers(0, len(t) - 1))])
        elif k == 14:
            j = draw(st.integers(0, len(t) - 1))
            t[i], t[j] = t[j], t[i]
        elif k == 15:
            t[i] = draw(st.sampled_from(WORDS))
        elif k == 16:
            t.insert(i, draw(st.sampled_from(PUNCT)))
        elif k == 17:
            t = t[:i]
        elif k == 18:
            o = TOK.findall(draw(st.sampled_from(TYPES[draw(st.sampled_from(TNAMES))])))
            j = draw(st.integers(0, len(o) - 1))
            t[i:i + draw(st.integers(0, 3))] = o[j:j + draw(st.integers(1, 12))]
        else:
            n = draw(st.sampled_from([1, 50, 2000]))
            t[i] = draw(st.sampled_from(["(", "[", "{", "\"", "1", "a", "Some(", ","])) * n
    return calm("".join(t).replace("\0", "")[:60000])


# sizing a most-common-values aggregate takes time proportional to its n, minutes for n near 2^32
TOPN = re.compile(r"(topn\s*:\s*)(\d{7,})")


def calm(text):
    return TOPN.sub(lambda m: m.group(1) + str(min(int(m.group(2)), 10**6)) if int(m.group(2)) < 2**32 else m.group(0), text)


@st.composite
def type_text(draw, ty, valid=False):
    if not TYPES.get(ty):
        return draw(st.sampled_from(["", "x", "(version:1)", "()"]))
    s = draw(st.sampled_from(TYPES[ty]))
    if valid or draw(st.integers(0, 9)) < 4:
        return s
    return draw(mutated(s))


def lit(s):
    return "'" + s.replace("'", "''") + "'" if "\\" not in s else "E'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


def attempt(ctx, sql, *a):
    """rows, or the error; a dead or stuck backend is the violation (raised by the caller's runner)"""
    try:
        return ctx.db.q(sql, *a)
    except PgError as e:
        if e.state == "57014" or e.state[:2] in ("53", "58") and e.state != "53200":
            raise
        return e


# ------------------------------------------------------------------ text input of every type

@st.composite
def text_case(draw):
    ty = draw(st.sampled_from(TNAMES + SUMMARIES * 6))
    s = draw(st.sampled_from(TYPES[ty]))
    d = {"ty": ty, "x": draw(mutated(s, draw(st.integers(0, 5)) == 0))}
    if draw(st.integers(0, 3)) == 0:
        d["y"] = draw(type_text(ty))
    aggs = [a for a in AGGS if a.ty == ty]
    if aggs:
        a = draw(st.sampled_from(aggs))
        rows = draw(a.rows)
        d["agg"], d["p"] = a.name, draw(a.params(rows))
    return d


def f_text(ctx, case):
    c = case
    ty = c["ty"]
    ok = attempt(ctx, "SELECT ($1::%s)::text" % ty, c["x"])
    ctx.ev.label("rejected" if isinstance(ok, PgError) else "accepted")
    if isinstance(ok, PgError):
        ctx.ev.nontrivial(len(c["x"]) > 5)
        return
    ctx.ev.nontrivial(True)
    ctx.ev.label("accepted " + ty)
    attempt(ctx, "SELECT (x::text)::%s::text FROM (SELECT $1::%s x OFFSET 0) q" % (ty, ty), c["x"])
    if "agg" in c:
        a = BY[c["agg"]]
        for acc in a.acc:
            attempt(ctx, "SELECT (%s)::text FROM (SELECT $1::%s s OFFSET 0) q" % (a.expr(acc, "s", c["p"]), ty), c["x"])
        if a.rollup:
            y = c.get("y", c["x"])
            attempt(ctx, "SELECT %s(s)::text FROM (VALUES ($1::%s),($2::%s),($1::%s)) q(s)" % (a.fn, ty, ty, ty), c["x"], y)
            attempt(ctx, "SELECT %s(s) OVER (ORDER BY i) FROM (VALUES (1,$1::%s),(2,$2::%s)) q(i,s)" % (a.fn, ty, ty), y, c["x"])
            for acc in a.acc[:3]:
                attempt(ctx, "SELECT (%s)::text FROM (SELECT %s(s) s FROM (VALUES ($2::%s),($1::%s)) q(s)) q" % (a.expr(acc, "s", c["p"]), a.fn, ty, ty), c["x"], y)
    ctx.db.q("SELECT 1")


# ------------------------------------------------------------------ any function with any arguments

REGPROCS = ["float8abs", "float8um", "array_ndims", "now", "setseed", "pg_typeof", "int4abs", "public.unnest", "float8in", "no_such"]
TEXTS = ["", "a", "b", "sample", "population", "pop", "prometheus", "Prometheus", "locf", "LOCF", "linear", "interpolate", "nearest", "second", "hours", "x" * 1000, "$value", "é", "{{ TIMES }}", "{{ VALUES | json_encode() | safe }}", "NULL", "NaN", "sum"]
ANYS = ["5::int", "'5'::bigint", "'a'::text", "1.5::numeric", "'NaN'::float8", "ARRAY[1,2]", "ROW(1,'a')", "NULL::text", "NULL::int", "'{\"a\":[1]}'::jsonb", "'a'::name", "'x'::cstring", "B'101'", "'(1,2)'::point", "'2020-01-01'::date", "'1 day'::interval",
        "'[1,3)'::int4range", "'00000000-0000-0000-0000-000000000001'::uuid", "true", "'a'::\"char\"", "repeat('z',3000)", "'\\x00ff'::bytea", "'08:00:2b:01:02:03'::macaddr", "NULL::record", "'pg_class'::regclass", "'{}'::text[]", "ARRAY[NULL::text]", "'1.2.3.4'::inet", "'abc'::varchar(2)", "'b'::bpchar", "'2020-01-01'::timestamptz", "'{{1,2},{3,4}}'::int[]"]
tslits = st.one_of(st.integers(0, 12).map(lambda k: "2020-01-01 00:%02d:00+00" % k), st.sampled_from(["infinity", "-infinity", "epoch", "2000-01-01 00:00:00+00", "1999-12-31 23:59:59.999999+00", "294276-12-31 23:59:59.999999+00", "4714-11-24 00:00:00+00 BC", "290000-01-01 00:00:00+00", "2020-01-01 00:00:00.000001+00"]))
ivlits = st.sampled_from(["0", "1 us", "-1 us", "1 s", "10 min", "1 hour", "1 day", "30 days", "1 mon", "-1 mon", "1 mon -30 days", "-1 s", "178000000 years", "-178000000 years", "2562047788:00:54.775807", "-2562047788:00:54.775807", "2147483647 days", "10 years 3 mons"])
fllits = st.one_of(st.sampled_from(["0", "-0", "1", "-1", "0.5", "0.1", "0.01", "0.99", "1.5", "3", "1e-9", "1e-300", "5e-324", "1e308", "-1e308", "1e155", "NaN", "Infinity", "-Infinity", "1e17"]), st.integers(-20, 20).map(str))
i32l = st.one_of(st.integers(-1, 40), st.integers(-1, 40), st.sampled_from([0, 2, 3, 100, 1000, 65536, 2**18, 2**31 - 1, -2**31, 10**6, 2**30]))
i64l = st.one_of(st.integers(-1, 40), st.sampled_from([0, 2**63 - 1, -2**63, 2**62, 10**15, 2**32, 1000, 2**31]))


@st.composite
def arg(draw, ty, small):
    if draw(st.integers(0, 24)) == 0:
        return "NULL::" + ty.replace("anyelement", "int")
    if ty == "integer":
        return "'%d'::integer" % draw(st.integers(-1, 1000) if small else i32l)
    if ty == "bigint":
        return "'%d'::bigint" % draw(st.integers(-1, 1000) if small else i64l)
    if ty == "double precision":
        return "'%s'::float8" % draw(fllits)
    if ty == "double precision[]":
        return draw(st.sampled_from(["'{}'", "'{0.5}'", "'{NULL}'", "'{0,0.1,1}'", "'{NaN,-1,2}'", "'{{0.1,0.2},{0.3,0.4}}'", "array_fill(0.5::float8,ARRAY[20000])"])) + "::float8[]"
    if ty == "text":
        return lit(draw(st.one_of(st.sampled_from(TEXTS), st.text(max_size=12).map(lambda s: s.replace("\0", ""))))) + "::text"
    if ty == "interval":
        return "'%s'::interval" % draw(ivlits)
    if ty == "timestamp with time zone":
        return "'%s'::timestamptz" % draw(tslits)
    if ty == "tstzrange":
        a, b = draw(tslits), draw(tslits)
        return "'%s'::tstzrange" % draw(st.sampled_from(["empty", "(,)", "[%s,%s]" % (a, b), "(%s,%s)" % (a, b), "[%s,)" % a, "(,%s]" % b]))
    if ty == "regproc":
        return "'%s'::regproc" % draw(st.sampled_from(REGPROCS))
    if ty == "anyelement":
        return draw(st.one_of(st.sampled_from(ANYS), st.sampled_from(ANYS[:4])))
    return lit(draw(type_text(ty, draw(st.booleans())))) + "::" + ty


SLOW = ("mcv_agg", "raw_mcv_agg")    # as for TOPN


@st.composite
def call_case(draw):
    if draw(st.integers(0, 2)) == 0:
        f = draw(st.sampled_from([x for x in FUNCS if x["k"] == "a"]))
    else:
        f = draw(st.sampled_from([x for x in FUNCS if x["k"] == "f"]))
    small = f["n"].split(".")[1] in SLOW
    if f["a"] == ["cstring"]:
        return {"f": f["n"], "k": "f", "rows": [[lit(draw(type_text(f["r"]))) + "::cstring"]]}
    n = draw(st.integers(1, 7)) if f["k"] == "a" else 1
    rows = [[draw(arg(t, small)) for t in f["a"]] for _ in range(n)]
    if f["k"] == "a" and draw(st.integers(0, 2)):
        # ordinary use fixes the parameters and varies only the data
        for r in rows[1:]:
            for k, t in enumerate(f["a"]):
                if t in ("integer", "interval", "text") or t == "double precision" and k == 0 and "double precision" in f["a"][1:]:
                    r[k] = rows[0][k]
                elif t == "anyelement":
                    r[k] = rows[0][k] if draw(st.booleans()) else "NULL::" + rows[0][k].split("::")[-1] if "::" in rows[0][k] and "(" not in rows[0][k] else rows[0][k]
    return {"f": f["n"], "k": f["k"], "rows": rows}


def f_call(ctx, case):
    c = case
    if c["k"] == "f":
        r = attempt(ctx, "SELECT %s(%s) LIMIT 20" % (c["f"], ",".join(c["rows"][0])))
    else:
        cols = ["c%d" % k for k in range(len(c["rows"][0]))]
        src = " UNION ALL ".join("SELECT " + ",".join("%s AS %s" % (x, n) for x, n in zip(r, cols)) for r in c["rows"])
        r = attempt(ctx, "SELECT %s(%s)::text FROM (%s) q" % (c["f"], ",".join(cols), src))
        if not isinstance(r, PgError) and len(c["rows"]) > 1:
            attempt(ctx, "SELECT %s(%s) OVER (ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)::text FROM (%s) q" % (c["f"], ",".join(cols), src))
    ctx.ev.label("error" if isinstance(r, PgError) else "value")
    ctx.ev.nontrivial(not isinstance(r, PgError) or r.state[:2] not in ("42", "22"))
    ctx.db.q("SELECT 1")


# ------------------------------------------------------------------ extreme rows, then every accessor

XF = [float("nan"), float("inf"), float("-inf"), 1e308, -1e308, 5e-324, -5e-324, 0.0, -0.0, 1.0, -1.0, 1e17, 2.0**53, 1e155, 1e-155]
XT = [-(2**63) + 1, 2**63 - 2, 0, 1, -1, SEC, DAY, Y2020, Y2020 + 1, 9223371331200000000 - 1, -211813488000000000, 2**62]
XI = [0, 1, -1, 2**63 - 1, -2**63, 2**31, 2**32, 7]
XS = ["", "a", "b", "x" * 5000, "\\", "\"", "'", "é", "\U0001f600", "NULL", "{}", "a\nb", ")", "$"]


@st.composite
def extreme_case(draw):
    a = draw(st.sampled_from(AGGS))
    base = draw(a.rows)
    p = draw(a.params(base))
    pools = {"timestamptz": XT, "float8": XF, "bigint": XI, "text": XS}
    typed = [c[1] == "text" and "::" in a.agg for c in a.cols]
    rows = []
    for r in base:
        rows.append([x if draw(st.integers(0, 2)) else None if draw(st.integers(0, 5)) == 0 else x if typed[k] else draw(st.sampled_from(pools[a.cols[k][1]])) for k, x in enumerate(r)])
    if draw(st.booleans()):
        rows.reverse()
    return {"agg": a.name, "rows": rows, "p": p}


def f_extreme(ctx, case):
    c = case
    a = BY[c["agg"]]
    rows = [[float(x) if c2[1] == "float8" and x is not None else x for x, c2 in zip(r, a.cols)] for r in c["rows"]]
    args = a.args(rows)
    q = "WITH s AS MATERIALIZED (SELECT %s s FROM (SELECT * FROM %s) q)" % (a.call(c["p"]), a.src())
    r = attempt(ctx, q + " SELECT s::text FROM s", *args)
    ctx.ev.label("rejected" if isinstance(r, PgError) else "accepted")
    if isinstance(r, PgError):
        return
    ctx.ev.nontrivial(True)
    ctx.ev.label(a.name)
    attempt(ctx, q + " SELECT (s::text)::%s::text FROM s" % a.ty, *args)
    for acc in a.acc:
        attempt(ctx, q + " SELECT (%s)::text FROM s" % a.expr(acc, "s", c["p"]), *args)
    if a.rollup:
        attempt(ctx, "SELECT %s(s)::text FROM (SELECT %s s FROM (SELECT * FROM %s) q GROUP BY i %% 3) q" % (a.fn, a.call(c["p"]), a.src()), *args)
    ctx.db.q("SELECT 1")


# ------------------------------------------------------------------ lambdas

LTOK = ["$value", "$time", "$x", "$y", "let ", " = ", ";", "+", "-", "*", "/", "%", "^", "=", "!=", "<", "<=", ">", ">=", " and ", " or ", "not ", "(", ")", ",", "1", "0", "2.5", "1e308", "9" * 40, "'1 day'i", "'2020-01-01't", "'x'i", "'infinity't", "''i", "true", "false", "abs(", "round(", "floor(", "sqrt(", "ln(", "log10(", "sin(", "foo(", "'", "$", "\"", "é", " ", "\n", "."]
LBASE = TYPES["toolkit_experimental.lambda"]


@st.composite
def lambda_case(draw):
    k = draw(st.integers(0, 5))
    if k <= 2:
        s = draw(mutated(draw(st.sampled_from(LBASE)), True))
    elif k <= 4:
        s = "".join(draw(st.lists(st.sampled_from(LTOK), min_size=1, max_size=16)))
    else:
        n = draw(st.sampled_from([10, 100, 129, 500, 1001, 3000, 20000]))
        o, m, e = draw(st.sampled_from([("(", "$value", ")"), ("-", "$value", ""), ("not ", "$value > 1", ""), ("abs(", "$value", ")"), ("", "$value", "+1"), ("", "$value", "^1"), ("1 - (", "$value", ")"), ("", "$value = 1", " and $value = 1"), ("let $x = 1; ", "$value", ""), ("(", "1", ", 1)"), ("", "$value = 1", " or true"), ("1 * -(", "$value", ")")]))
        s = o * n + m + e * n
    return {"l": s[:200000], "f": draw(st.booleans())}


def f_lambda(ctx, case):
    r = attempt(ctx, "SELECT $1::toolkit_experimental.lambda::text", case["l"])
    rej = isinstance(r, PgError)
    ctx.ev.label("rejected" if rej else "accepted")
    ctx.ev.nontrivial(not rej or len(case["l"]) > 12)
    for fn in ("map", "filter"):
        attempt(ctx, "SELECT (timevector(t,v) -> toolkit_experimental.%s($1::toolkit_experimental.lambda))::text FROM (VALUES ('2020-01-01Z'::timestamptz,1.5::float8),('2020-01-02Z',-3),('infinity','NaN')) q(t,v)" % fn, case["l"])
    if not rej:
        for ty in ("bool", "f64", "interval", "ttz"):
            attempt(ctx, "SELECT toolkit_experimental.%s_lambda($1::toolkit_experimental.lambda,'2020-01-01Z',2.5)::text" % ty, case["l"])
        attempt(ctx, "SELECT toolkit_experimental.trace_lambda($1::toolkit_experimental.lambda,'2020-01-01Z',2.5)::text LIMIT 50", case["l"])
    ctx.db.q("SELECT 1")


# ------------------------------------------------------------------ templates

TT = ["{{ TIMES }}", "{{ VALUES | json_encode() | safe }}", "{{ TIMEVALS }}", "{% for x in VALUES %}", "{% endfor %}", "{% if VALUES %}", "{% else %}", "{% endif %}", "{% set a = 1 %}", "{{ a }}", "{{ x }}", "{{ 1 / 0 }}", "{{ 9223372036854775807 * 2 }}", "{{ VALUES[0] }}", "{{ VALUES[99999999999] }}", "{{ VALUES | slice(start=5, end=1) }}", "{{ VALUES | nth(n=-1) }}", "{{ 'abc' | truncate(length=18446744073709551615) }}", "{{ 'é' | truncate(length=1) }}", "{{ VALUES | length }}", "{{ TIMES | first | date }}", "{{ 1 | date(format='%Q') }}", "{{ range(end=5) }}", "{{ range(start=5, end=1) }}", "{{ range(end=10, step_by=0) }}", "{{ now() }}", "{{ get_random(start=1, end=1) }}", "{{ get_env(name='NOPE') }}", "{{ throw(message='x') }}", "{% raw %}", "{% endraw %}", "{# c #}", "{% filter upper %}", "{% endfilter %}", "{% include 'x' %}", "{% extends 'x' %}", "{% block b %}", "{% endblock %}", "{{ super() }}", "{% break %}", "{% continue %}", "{{", "}}", "{%", "%}", "{{ 'a' ~ 1 ~ VALUES }}", "{{ VALUES | sort | join(sep=',') }}", "{{ 'a' | indent }}", "{{ 5 | round(precision=1000) }}", "{{ 1 % 0 }}", "{{ -9223372036854775808 }}", "{{ 'x' is matching('(a*)*b') }}", "text", "\n", "é"]


@st.composite
def template_case(draw):
    s = "".join(draw(st.lists(st.sampled_from(TT), min_size=1, max_size=8)))
    if draw(st.booleans()):
        s = draw(mutated(s))
        # endless recursion and deep nesting in a template are a known finding
        if s.count("(") + s.count("[") > 200 or "macro" in s:
            s = s[:200]
    return {"t": s, "json": draw(st.booleans())}


def f_template(ctx, case):
    r = attempt(ctx, "SELECT toolkit_experimental.to_text(timevector(t,v), $1) FROM (VALUES ('2020-01-01Z'::timestamptz,1.5::float8),('2020-01-02Z',-3),('2020-01-03Z','NaN')) q(t,v)", case["t"])
    ctx.ev.label("rejected" if isinstance(r, PgError) else "rendered")
    ctx.ev.nontrivial(len(case["t"]) > 5)
    ctx.db.q("SELECT 1")


def tera_probe(ctx):
    for t in ("{{ " + "(" * 20000 + "1" + ")" * 20000 + " }}", "{% macro a() %}{{ self::a() }}{% endmacro a %}{{ self::a() }}"):
        try:
            ctx.db.q("SELECT toolkit_experimental.to_text(timevector('2020-01-01Z'::timestamptz,1.5), $1)", t)
        except PgError:
            pass
        except PgCrash:
            return True
    return False


PROPS = {
    "A07": {"rule": "text: the input is accepted, or rejected and longer than 5 characters; call: the call returns a value or is rejected by the extension rather than by PostgreSQL's own argument checks; extreme: the rows are accepted; lambda: accepted, or longer than 12 characters; template: longer than 5 characters",
            "technique": "structure-aware mutation fuzzing of every text input, function, aggregate, lambda and template, with the server's survival as the oracle, with shrinking",
            "note": "Inputs come from vp/fuzz_catalog.json (valid texts of every type and every SQL-callable function) and are mutated token by token. Any ordinary SQL error is accepted; a backend that dies or does not answer within a minute is a violation.",
            "probes": {"A07-tera-stack": tera_probe},
            "subs": [
                Sub("text", text_case(), f_text, 8000),
                Sub("call", call_case(), f_call, 24000),
                Sub("extreme", extreme_case(), f_extreme, 4000),
                Sub("lambda", lambda_case(), f_lambda, 6000),
                Sub("template", template_case(), f_template, 3000)]},
}
