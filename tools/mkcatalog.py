"""Regenerates vp/fuzz_catalog.json: every SQL-callable function and aggregate of the extension and a corpus
of valid text forms per type, the seeds of the A07 fuzzers. Run by hand (python3-vt tools/mkcatalog.py); the
committed file is only a source of inputs, no verdict depends on it."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import HealthCheck, given, seed, settings  # noqa
from hypothesis import strategies as st  # noqa

from vp.aggs import AGGS  # noqa
from vp.pg import PgError  # noqa
from vp.props.cross import text_s  # noqa
from vp.server import Install, Scratch, Server  # noqa

sc = Scratch()
srv = Server(Install(sc), 0)
db = srv.ready()
try:
    ext = "JOIN pg_depend d ON d.objid=%s.oid AND d.deptype='e' JOIN pg_extension x ON x.oid=d.refobjid AND x.extname='timescaledb_toolkit'"
    types = [r[0] for r in db.q("SELECT format_type(t.oid,NULL) FROM pg_type t " + ext % "t" + " WHERE t.typtype='b' AND t.typelem=0 ORDER BY 1")]
    rows = db.q("SELECT n.nspname||'.'||quote_ident(p.proname), p.prokind::text, ARRAY(SELECT format_type(o,NULL) FROM unnest(p.proargtypes) o)::text[], format_type(p.prorettype,NULL), p.proretset, p.provariadic<>0 "
                "FROM pg_proc p JOIN pg_namespace n ON n.oid=p.pronamespace " + ext % "p" + " WHERE NOT 'internal'::regtype = ANY(p.proargtypes::oid[]) AND p.prorettype<>'internal'::regtype ORDER BY 1, 3")
    funcs = [{"n": r[0], "k": r[1], "a": r[2], "r": r[3], "set": r[4]} for r in rows]
    texts = {t: set() for t in types}

    def add(ty, x):
        if x is not None and len(x) < 2500 and ty in texts:
            texts[ty].add(x)

    for a in AGGS:
        got = []

        @seed(7)
        @settings(max_examples=12, database=None, suppress_health_check=list(HealthCheck), deadline=None)
        @given(a.rows.flatmap(lambda r: st.tuples(st.just(r), a.params(r))))
        def collect(x):
            got.append(x)
        collect()
        for rows_, p in got:
            try:
                x = db.row("SELECT s::text, format_type(pg_typeof(s),NULL) FROM (SELECT %s s FROM %s) q" % (a.call(p, "i"), a.src()), *a.args(rows_))
                add(x[1], x[0])
            except PgError as e:
                print(a.name, e)
    # types only made by functions: accessors, pipeline elements
    lits = {"integer": ["3", "5"], "bigint": ["3", "0"], "double precision": ["0.5", "3.25"], "text": ["a", "second", "locf", "sum", "sample", "prometheus"], "interval": ["1 minute", "0.5 s"],
            "timestamp with time zone": ["2020-01-01 00:00:00+00"], "tstzrange": ["[2020-01-01,2020-01-02)"], "double precision[]": ["{0.1,0.5}"], "toolkit_experimental.lambda": ["$value * 2", "$value > 3 and $time > '2020-01-01't"],
            "bytea": ["\\x00"], "regproc": ["float8abs", "array_ndims"], "smallint": ["1"], "boolean": ["true"]}
    for _ in range(2):
        for f in funcs:
            if f["k"] != "f" or f["r"] not in texts or not f["a"] and f["r"] not in texts:
                continue
            if "cstring" in f["a"]:
                continue
            pools = [lits.get(t) or sorted(texts.get(t, []))[:2] for t in f["a"]]
            if any(not p for p in pools):
                continue
            for k in range(max([len(p) for p in pools] or [1])):
                try:
                    add(f["r"], db.val("SELECT %s(%s)::text" % (f["n"], ",".join("'%s'::%s" % (p[k % len(p)].replace("'", "''"), t) for p, t in zip(pools, f["a"])))))
                except PgError as e:
                    if not any(x in str(e) for x in ("analysis method", "fill method", "duration unit", "assertion", "beyond")):
                        print(f["n"], f["a"], str(e)[:100])
    texts.setdefault("toolkit_experimental.lambda", set()).update(["$value", "$value + 1", "$time + '1 day'i", "let $x = $value; $x * $x", "($time, $value ^ 2)", "$value > 3.5 and not ($value = 7 or $value != 2)", "abs($value) % 3", "round(-$value) / 2 - 1", "$time - '2020-01-01't"])
    out = {"funcs": funcs, "types": {t: sorted(v, key=lambda s: (len(s), s))[:40] for t, v in sorted(texts.items())}}
    print({t: len(v) for t, v in out["types"].items()})
    print(len(funcs))
    json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp", "fuzz_catalog.json"), "w"), indent=0, ensure_ascii=False)
finally:
    srv.stop()
    sc.remove()
