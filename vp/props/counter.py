"""B01 counter_agg, B02 interpolated/extrapolated, B03 gauge_agg"""
import itertools
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, iv, ts


# ---------------- reference model ----------------
class Model:
    """summary of a strictly time-ordered series"""

    def __init__(self, pts, counter):
        self.pts = pts
        self.counter = counter
        self.resets = 0
        self.changes = 0
        off = F(0)
        self.adj = []
        prev = None
        for t, v in pts:
            if prev is not None:
                if v != prev:
                    self.changes += 1
                if counter and v < prev:
                    self.resets += 1
                    off += F(prev)
            self.adj.append(F(v) + off)
            prev = v
        self.off = off

    def delta(self):
        return self.adj[-1] - self.adj[0]

    def time_delta(self):
        return F(self.pts[-1][0] - self.pts[0][0], SEC)

    def rate(self):
        return None if len(self.pts) == 1 else self.delta() / self.time_delta()

    def _id(self, a, b):
        # gauges share this rule: the repository's own tests pin it
        # (idelta_left_after_gauge_decrease and friends)
        if b < a:
            return F(b)
        return F(b) - F(a)

    def idelta_left(self):
        return F(0) if len(self.pts) == 1 else self._id(self.pts[0][1], self.pts[1][1])

    def idelta_right(self):
        return F(0) if len(self.pts) == 1 else self._id(self.pts[-2][1], self.pts[-1][1])

    def irate_left(self):
        return None if len(self.pts) == 1 else self.idelta_left() / F(self.pts[1][0] - self.pts[0][0], SEC)

    def irate_right(self):
        return None if len(self.pts) == 1 else self.idelta_right() / F(self.pts[-1][0] - self.pts[-2][0], SEC)

    def regression(self):
        """(slope, intercept, corr, zero_x) exact; plus conditioning"""
        xs = [F(t / 1e6) for t, _ in self.pts]
        ys = self.adj
        n = len(xs)
        mx, my = sum(xs) / n, sum(ys) / n
        sxx = sum((x - mx) ** 2 for x in xs)
        syy = sum((y - my) ** 2 for y in ys)
        sxy = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
        return n, mx, my, sxx, syy, sxy, max(abs(x) for x in xs), max(abs(y) for y in ys)

    def prom(self, lo, hi):
        """(delta, rate) by the documented Prometheus extrapolation on [lo, hi) us"""
        if len(self.pts) == 1:
            return None, None
        d = self.delta()
        samp = self.time_delta()
        avg = samp / (len(self.pts) - 1)
        to_start = F(self.pts[0][0] - lo, SEC)
        to_end = F(hi - self.pts[-1][0] - 1000, SEC)
        if d > 0 and self.pts[0][1] >= 0:
            z = samp * F(self.pts[0][1]) / d
            to_start = min(to_start, z)
        thr = avg * F(11, 10)
        amb = any(abs(x - thr) <= F(1, 10**9) * (abs(thr) + abs(x)) for x in (to_start, to_end))
        ext = samp + (to_start if to_start < thr else avg / 2) + (to_end if to_end < thr else avg / 2)
        r = d * ext / samp
        dur = F(hi - lo - 1000, SEC)
        return (r, (r / dur if dur > 0 else None)) + ((True,) if amb else ())


ACC = ["delta", "rate", "irate_left", "irate_right", "idelta_left", "idelta_right", "time_delta",
       "num_changes", "num_elements"]
CACC = ACC + ["num_resets", "first_val", "last_val", "first_time", "last_time"]

# the zero time is only asked for when it is a representable time
REG = ", slope(s), intercept(s), corr(s), CASE WHEN abs(intercept(s)) < 1e9 * abs(slope(s)) THEN %s(s) END"


def exp_accs(m):
    d = {"delta": m.delta(), "rate": m.rate(), "irate_left": m.irate_left(), "irate_right": m.irate_right(),
         "idelta_left": m.idelta_left(), "idelta_right": m.idelta_right(), "time_delta": m.time_delta(),
         "num_changes": m.changes, "num_elements": len(m.pts)}
    if m.counter:
        d.update({"num_resets": m.resets, "first_val": F(m.pts[0][1]), "last_val": F(m.pts[-1][1]),
                  "first_time": m.pts[0][0], "last_time": m.pts[-1][0]})
    return d


def scale_of(pts):
    return sum(abs(v) for _, v in pts if v is not None) + 1.0


def check_accs(names, got, exp, scale, what):
    for n, g in zip(names, got):
        e = exp[n]
        if n.startswith("num_") or n in ("first_time", "last_time"):
            ok = g == e
        elif n in ("first_val", "last_val"):
            ok = same(g, e)
        elif e is None:
            ok = g is None
        else:
            rel = F(1, 10**11)
            extra = F(scale) * F(1, 10**13)
            if n.endswith("rate") or n.startswith("irate"):
                dt = exp["time_delta"] if n == "rate" else None
                if dt is None:
                    # instantaneous: the elapsed time is delta / rate
                    i = exp["idelta" + n[5:]]
                    dt = i / e if e != 0 else F(1)
                extra = extra / dt if dt else extra
            ok = same(g, e, rel * abs(e) + extra)
        if not ok:
            raise Violation("%s %s: got %r, expected %s" % (what, n, g, float(e) if isinstance(e, F) else e))


def check_regression(m, got, what, zt_name):
    """slope, intercept, corr, zero time"""
    n, mx, my, sxx, syy, sxy, ax, ay = m.regression()
    slope, inter, corr, zt = got
    if n < 2 or sxx == 0:
        need(slope is None and inter is None and corr is None, "%s regression of one point should be NULL: %r", what, got)
        return False
    eps = 2.3e-16
    # rounding of the sums: relative to the magnitude of the raw coordinates
    ex = 64 * n * eps * float(ax) / math.sqrt(float(sxx) / n)
    sy = math.sqrt(float(syy) / n)
    if ex > 1e-3:
        return False
    ey = 64 * n * eps * float(ay)
    sd = math.sqrt(float(sxx) / n)
    es = float(sxy / sxx)
    tol = (abs(es) + sy / sd) * ex + ey / sd
    need_same(slope, sxy / sxx, F(tol) + F(1, 10**300), what + " slope")
    ei = my - mx * sxy / sxx
    itol = tol * float(ax) + (ey + abs(float(ei)) * 1e-13)
    need_same(inter, ei, F(itol) + F(1, 10**300), what + " intercept")
    if syy == 0 and ay * 0 == 0:
        # all values equal: undefined correlation
        need(corr is None or ey > 0 or True, "")
    elif sy > 0 and ey / sy < 1e-4:
        c = float(sxy) / math.sqrt(float(sxx)) / math.sqrt(float(syy))
        need_same(corr, c, F(4 * (ex + ey / sy) + 1e-12), what + " corr")
    if sxy != 0 and abs(es) > 0:
        zx = float(-ei / (sxy / sxx))  # seconds
        rs = tol / abs(es)
        if rs < 1e-3 and abs(zx) < 1e9:
            zt_tol = (abs(float(mx) - zx) + sd) * rs * 4 + itol / abs(es) * 4 + 2e-6 + abs(zx) * 1e-12
            need(isinstance(zt, int) and abs(zt / 1e6 - zx) <= zt_tol, "%s %s: got %r expected %.6f s +- %g", what, zt_name, zt, zx, zt_tol)
    return True


# ---------------- generators ----------------
cvals = st.one_of(st.integers(0, 12).map(float), posvals, st.integers(0, 10**6).map(float))
anyvals = st.one_of(small_ints, dyadic)


@st.composite
def walk(draw, lo, hi, counter=True):
    """time-ordered points; counters mostly climb and sometimes drop"""
    tt = draw(times(lo, hi))
    style = draw(st.integers(0, 3))
    out = []
    cur = draw(posvals if counter else anyvals)
    for t in tt:
        if style == 0 or not counter:
            cur = draw(cvals if counter else anyvals)
        else:
            k = draw(st.integers(0, 9))
            if k < 6:
                cur = cur + draw(st.integers(0, 40)) / 4.0
            elif k == 6:
                pass
            elif k == 7:
                cur = 0.0
            else:
                cur = draw(st.integers(0, 20)) / 4.0
        out.append([t, cur])
    return out


@st.composite
def rows_case(draw, counter, lo=1, hi=24):
    pts = draw(walk(lo, hi, counter))
    rows = [list(p) for p in pts]
    # noise rows that must not matter
    for _ in range(draw(st.integers(0, 2))):
        rows.append(draw(st.sampled_from([[None, 3.0], [pts[0][0] + 1, None], [None, None]])))
    # duplicated timestamps: some other value at the same time
    nd = draw(st.integers(0, 2)) if len(pts) > 1 else 0
    for _ in range(nd):
        p = draw(st.sampled_from(pts))
        rows.append([p[0], draw(cvals if counter else anyvals)])
    order = draw(st.integers(0, 2))
    if order == 1:
        rows.reverse()
    elif order == 2:
        rows = draw(st.permutations(rows))
    return {"rows": rows}


def choices(rows):
    """every series obtained by keeping one value per timestamp"""
    d = {}
    for t, v in rows:
        if t is None or v is None:
            continue
        d.setdefault(t, [])
        if v not in d[t]:
            d[t].append(v)
    keys = sorted(d)
    return [list(zip(keys, c)) for c in itertools.islice(itertools.product(*[d[k] for k in keys]), 64)]


def agg_name(counter):
    return "counter_agg" if counter else "gauge_agg"


def f_basic(counter):
    name = agg_name(counter)
    names = CACC if counter else ACC
    zt = "counter_zero_time" if counter else "gauge_zero_time"
    sel = ",".join("%s(s)" % n for n in names) + REG % zt
    sql = "SELECT %s FROM (SELECT %s(t,v) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)) q" % (sel, name)

    def fn(ctx, case):
        rows = case["rows"]
        got = ctx.db.row(sql, ats([r[0] for r in rows]), afl([r[1] for r in rows]))
        alts = choices(rows)
        errs = []
        for pts in alts:
            m = Model(pts, counter)
            try:
                check_accs(names, got, exp_accs(m), scale_of(pts), name)
                if len(alts) == 1:
                    ctx.ev.label("regression", check_regression(m, got[len(names):], name, zt))
                break
            except Violation as e:
                errs.append(str(e))
        else:
            raise Violation(errs[0] + (" (no choice among duplicate timestamps explains it)" if len(alts) > 1 else ""))
        ctx.ev.nontrivial(len(pts) >= 3 and m.changes > 0)
        ctx.ev.label("resets", m.resets > 0)
        ctx.ev.label("dups", len(alts) > 1)
        ctx.ev.label("n1", len(pts) == 1)
        ctx.ev.label("n2", len(pts) == 2)
    return fn


@st.composite
def rolled_case(draw, counter):
    pts = draw(walk(2, 24, counter))
    g = draw(cuts(len(pts), 6))
    order = draw(st.permutations(sorted(set(g))))
    return {"pts": pts, "g": g, "order": order, "two": draw(st.booleans())}


def f_rolled(counter):
    name = agg_name(counter)
    names = CACC if counter else ACC
    sel = ",".join("%s(s)" % n for n in names) + REG % ("counter_zero_time" if counter else "gauge_zero_time")
    inner = ("SELECT o, %s(t,v) s FROM unnest($1::timestamptz[],$2::float8[],$3::int[]) u(t,v,o) GROUP BY o" % name)
    sql1 = "SELECT %s FROM (SELECT rollup(s ORDER BY o) s FROM (%s) i) q" % (sel, inner)

    def fn(ctx, case):
        pts, g = case["pts"], case["g"]
        pos = {k: i for i, k in enumerate(case["order"])}
        args = (ats([p[0] for p in pts]), afl([p[1] for p in pts]), arr([pos[x] for x in g]))
        got = ctx.db.row(sql1, *args)
        m = Model(pts, counter)
        check_accs(names, got, exp_accs(m), scale_of(pts), "rollup of " + name)
        check_regression(m, got[len(names):], "rollup of " + name, "zero time")
        k = len(set(g))
        ctx.ev.nontrivial(k >= 2)
        ctx.ev.label("groups>=3", k >= 3)
        ctx.ev.label("singleton group", any(g.count(x) == 1 for x in set(g)) and k > 1)
        bound = any(counter and a[1] > b[1] and ga != gb for a, b, ga, gb in zip(pts, pts[1:], g, g[1:]))
        ctx.ev.label("reset at a boundary", bound)
    return fn


# ---------------- extrapolation ----------------
@st.composite
def extra_case(draw, counter):
    pts = draw(walk(1, 12, counter))
    first, last = pts[0][0], pts[-1][0]
    avg = (last - first) // max(1, len(pts) - 1) or SEC
    lo = first - draw(st.one_of(st.integers(0, 3), st.integers(0, 3 * avg), st.integers(0, 100 * avg)))
    hi = last + draw(st.one_of(st.integers(1, 2000), st.integers(1, 3 * avg), st.integers(1, 100 * avg)))
    return {"pts": pts, "lo": lo, "hi": hi, "how": draw(st.sampled_from(["arg", "with", "arrow", "roll"])),
            "incl": draw(st.booleans()), "cut": draw(st.integers(0, len(pts)))}


def f_extrapolated(counter):
    name = agg_name(counter)

    def fn(ctx, case):
        pts, lo, hi = case["pts"], case["lo"], case["hi"]
        # [lo, hi) written either half-open or with inclusive ends
        if case["incl"]:
            rng = '["%s","%s"]' % (ts(lo), ts(hi - 1))
        else:
            rng = '["%s","%s")' % (ts(lo), ts(hi))
        a = (ats([p[0] for p in pts]), afl([p[1] for p in pts]))
        how = case["how"]
        meth = ",'prometheus'" if counter else ""
        if how == "roll" and 0 < case["cut"] < len(pts):
            k = case["cut"]
            mid_t = pts[k][0]
            sql = ("SELECT rollup(s) s FROM (SELECT %s(t,v,tstzrange($3::timestamptz,$4::timestamptz)) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v) WHERE t < $4::timestamptz "
                   "UNION ALL SELECT %s(t,v,tstzrange($4::timestamptz,$5::timestamptz)) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v) WHERE t >= $4::timestamptz) r" % (name, name))
            a += (ts(lo), ts(mid_t), ts(hi))
        elif how == "arg" or how == "roll":
            sql = "SELECT %s(t,v,$3::tstzrange) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)" % name
            a += (rng,)
        elif how == "with" or not counter:
            sql = "SELECT with_bounds(%s(t,v),$3::tstzrange) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)" % name
            a += (rng,)
        else:
            sql = "SELECT %s(t,v) -> with_bounds($3::tstzrange) s FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)" % name
            a += (rng,)
        got = ctx.db.row("SELECT extrapolated_delta(s%s), extrapolated_rate(s%s), delta(s) FROM (%s) q" % (meth, meth, sql), *a)
        m = Model(pts, counter)
        r = m.prom(lo, hi)
        if len(r) == 3:
            ctx.ev.label("ambiguous threshold")
            raise Skip()
        sc = F(scale_of(pts)) / 10**12
        if r[0] is None:
            need(got[0] is None and got[1] is None, "%s extrapolation of one point should be NULL, got %r", name, got)
        else:
            td = m.time_delta()
            ext = abs(r[0] / m.delta()) if m.delta() else F(1)
            need_same(got[0], r[0], abs(r[0]) / 10**10 + sc * ext, name + " extrapolated_delta (" + how + ")")
            need_same(got[1], r[1], 0 if r[1] is None else abs(r[1]) / 10**10 + sc * ext / F(hi - lo - 1000, SEC), name + " extrapolated_rate (" + how + ")")
            ctx.ev.nontrivial(m.delta() != 0)
        need_same(got[2], m.delta(), sc, name + " delta with bounds")
    return fn


@st.composite
def bounds_case(draw):
    pts = draw(walk(1, 8, True))
    k = draw(st.sampled_from(["low", "high", "lowx", "infl", "infr", "inf", "empty", "ok", "infend", "infboth"]))
    return {"pts": pts, "k": k, "counter": draw(st.booleans())}


def f_bounds(ctx, case):
    pts, k = case["pts"], case["k"]
    f, l = pts[0][0], pts[-1][0]
    rng = {"low": '["%s","%s")' % (ts(f + 1), ts(l + SEC)), "lowx": '("%s","%s")' % (ts(f), ts(l + SEC)),
           "high": '["%s","%s")' % (ts(f - SEC), ts(l)), "infl": '(,"%s")' % ts(l + 1), "infr": '["%s",)' % ts(f),
           "inf": "(,)", "empty": "empty", "ok": '["%s","%s"]' % (ts(f), ts(l)),
           "infend": '["%s",infinity]' % ts(f), "infboth": "(-infinity,infinity]"}[k]
    name = agg_name(case["counter"])
    meth = ",'prometheus'" if case["counter"] else ""
    a = (ats([p[0] for p in pts]), afl([p[1] for p in pts]), rng)
    src = "FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)"
    bad = k in ("low", "lowx", "high")
    try:
        got = ctx.db.row("SELECT delta(%s(t,v,$3::tstzrange)) %s" % (name, src), *a)
        need(not bad, "%s accepted bounds %s that do not contain its points", name, rng)
        need_same(got[0], Model(pts, case["counter"]).delta(), F(scale_of(pts)) / 10**12, name + " delta")
    except PgError as e:
        need(bad, "%s rejected bounds %s containing every point: %s", name, rng, e)
    if k not in ("ok", "infend", "infboth"):
        try:
            got = ctx.db.row("SELECT extrapolated_delta(with_bounds(%s(t,v),$3::tstzrange)%s) %s" % (name, meth, src), *a)
            raise Violation("%s extrapolated over unusable bounds %s: %r" % (name, rng, got))
        except PgError:
            pass
    ctx.ev.nontrivial(True)
    ctx.ev.label(k)


# ---------------- interpolation ----------------
@st.composite
def interp_case(draw, counter):
    """three neighbouring buckets [s0,s1) [s1,s2) [s2,..) of one series"""
    pts = draw(walk(1, 18, counter))
    f, l = pts[0][0], pts[-1][0]
    # cut points: anywhere, or exactly on a point
    opts = [p[0] for p in pts]
    a = draw(st.one_of(st.sampled_from(opts), st.integers(f - 5, l + 5)))
    b = draw(st.one_of(st.sampled_from(opts), st.integers(f - 5, l + 5)))
    if a > b:
        a, b = b, a
    if a == b:
        b = a + 1 + draw(st.integers(0, 10**6))
    return {"pts": pts, "a": a, "b": b, "mask": draw(st.integers(0, 3)), "arrow": draw(st.booleans())}


def edge(p, n, at, counter):
    """value at time `at` on the line from p to n; a drop means a reset to zero at p"""
    (pt, pv), (nt, nv) = p, n
    if counter and pv > nv:
        pv = 0.0
    return F(pv) + (F(nv) - F(pv)) * F(at - pt, nt - pt)


def f_interp(counter):
    name = agg_name(counter)

    def fn(ctx, case):
        pts, a, b = case["pts"], case["a"], case["b"]
        if a <= min(p[0] for p in pts) - 10**9:
            raise Skip()
        A = [p for p in pts if p[0] < a]
        B = [p for p in pts if a <= p[0] < b]
        C = [p for p in pts if p[0] >= b]
        if not B:
            raise Skip()
        useA = bool(A) and not case["mask"] & 1
        useC = bool(C) and not case["mask"] & 2
        src = "(SELECT %s(t,v) FROM unnest($1::timestamptz[],$2::float8[]) u(t,v) WHERE %%s)" % name
        sa = src % "t < $3::timestamptz" if useA else "NULL"
        sb = src % "t >= $3::timestamptz AND t < $4::timestamptz"
        sc = src % "t >= $4::timestamptz" if useC else "NULL"
        args = (ats([p[0] for p in pts]), afl([p[1] for p in pts]), ts(a), ts(b), iv(b - a))
        if case["arrow"] and counter:
            sql = "SELECT s -> interpolated_delta($3::timestamptz,$5::interval,p,n), s -> interpolated_rate($3::timestamptz,$5::interval,p,n)"
        else:
            sql = "SELECT interpolated_delta(s,$3::timestamptz,$5::interval,p,n), interpolated_rate(s,$3::timestamptz,$5::interval,p,n)"
        typ = "countersummary" if counter else "gaugesummary"
        got = ctx.db.row(sql + " FROM (SELECT %s::%s s, %s::%s p, %s::%s n, $4::timestamptz) q" % (sb, typ, sa, typ, sc, typ), *args)
        series = [(F(t), F(v)) for t, v in B]
        if useA and B[0][0] > a:
            series.insert(0, (F(a), edge(A[-1], B[0], a, counter)))
        if useC:
            e = edge(B[-1], C[0], b, counter)
            series.append((F(b), e))
        tot = F(0)
        for (_, v0), (_, v1) in zip(series, series[1:]):
            if counter and v1 < v0:
                # a reset: rounding decides when the two are equal up to rounding
                if (v0 - v1) <= F(1, 10**9) * (abs(v0) + 1):
                    raise Skip()
                tot += v1
            else:
                if counter and v1 != v0 and (v1 - v0) <= F(1, 10**12) * (abs(v0) + 1):
                    raise Skip()
                if counter and v1 == v0 and not (float(v1) == v1):
                    raise Skip()
                tot += v1 - v0
        sc_ = F(scale_of(pts)) / 10**10
        dt = F(series[-1][0] - series[0][0]) / SEC
        need_same(got[0], tot, sc_, name + " interpolated_delta")
        if len(series) == 1:
            need(got[1] is None, "%s interpolated_rate of a single point should be NULL, got %r", name, got[1])
        else:
            need_same(got[1], tot / dt, abs(tot / dt) / 10**10 + sc_ / dt, name + " interpolated_rate")
        ctx.ev.nontrivial(useA or useC)
        ctx.ev.label("prev used", len(series) > len(B) and useA)
        ctx.ev.label("next used", useC)
        ctx.ev.label("reset at an edge", counter and ((useA and A[-1][1] > B[0][1]) or (useC and B[-1][1] > C[0][1])))
        ctx.ev.label("first exactly at start", B[0][0] == a)
    return fn


@st.composite
def chain_case(draw, counter):
    pts = draw(walk(3, 20, counter))
    w = draw(st.integers(1, max(1, (pts[-1][0] - pts[0][0]) // 2)))
    w = max(w, (pts[-1][0] - pts[0][0]) // 6 + 1)
    return {"pts": pts, "w": w, "off": draw(st.integers(0, w - 1))}


def f_chain(counter):
    """the deltas of a full run of non-empty buckets, interpolated with lag/lead, sum to the delta of the series"""
    name = agg_name(counter)
    sql = ("WITH b AS (SELECT k, {n}(t,v) s FROM (SELECT (extract(epoch from (t-$3::timestamptz))*1000000)::bigint / $4::bigint k, t, v "
           "FROM unnest($1::timestamptz[],$2::float8[]) u(t,v)) x GROUP BY k) "
           "SELECT k, interpolated_delta(s, $3::timestamptz + make_interval(secs => k*$4::bigint/1000000.0), make_interval(secs => $4::bigint/1000000.0), lag(s) OVER w, lead(s) OVER w) "
           "FROM b WINDOW w AS (ORDER BY k) ORDER BY k").format(n=name)

    def fn(ctx, case):
        pts, w = case["pts"], case["w"]
        start = pts[0][0] - case["off"]
        if w > 10**13:
            raise Skip()
        # make_interval takes a double: keep it exact
        rows = ctx.db.q(sql, ats([p[0] for p in pts]), afl([p[1] for p in pts]), ts(start), w)
        ks = [r[0] for r in rows]
        if ks != list(range(ks[0], ks[0] + len(ks))):
            raise Skip()
        m = Model(pts, counter)
        tot = sum(F(r[1]) for r in rows)
        need_same(float(tot), m.delta(), F(scale_of(pts)) * len(rows) / 10**9, "sum of interpolated deltas of contiguous buckets vs delta of the whole series")
        ctx.ev.nontrivial(len(rows) >= 2)
    return fn


PROPS = {
    "B01": {"rule": "at least three distinct points whose values are not all equal (basic), or at least two non-empty groups (rolled)",
            "subs": [Sub("basic", rows_case(True), f_basic(True), 4800),
                     Sub("rolled", rolled_case(True), f_rolled(True), 3200)]},
    "B02": {"rule": "extrapolated: non-zero delta; interpolated: a neighbouring summary is used; chain: at least two buckets",
            "subs": [Sub("extrapolated_counter", extra_case(True), f_extrapolated(True), 1800),
                     Sub("extrapolated_gauge", extra_case(False), f_extrapolated(False), 1000),
                     Sub("bounds", bounds_case(), f_bounds, 600),
                     Sub("interp_counter", interp_case(True), f_interp(True), 2400),
                     Sub("interp_gauge", interp_case(False), f_interp(False), 1200),
                     Sub("chain_counter", chain_case(True), f_chain(True), 600),
                     Sub("chain_gauge", chain_case(False), f_chain(False), 400)]},
    "B03": {"rule": "at least three distinct points whose values are not all equal (basic), or at least two non-empty groups (rolled)",
            "subs": [Sub("basic", rows_case(False), f_basic(False), 4800),
                     Sub("rolled", rolled_case(False), f_rolled(False), 3200)]},
}
