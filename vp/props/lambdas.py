"""D04 lambda expressions"""
import math

from hypothesis import strategies as st

from ..core import Skip, Sub, Violation
from ..gen import *
from ..pg import PgError, afl, arr, ats, fl, ts

TE = "toolkit_experimental."
INFV, NANV = float("inf"), float("nan")

# ---------------------------------------------------------------- generation
# nodes: ["v"] ["t"] ["n",text] ["T",text] ["I",text] ["u",name,ty] ["neg",e] ["not",e] ["b",op,l,r]
#        ["f",name,args,trailing comma] ["tup",[e..]] ["let",[[name,e]..],body] ["p",e] (redundant parentheses)

FUN1 = ["abs", "cbrt", "ceil", "floor", "ln", "log10", "round", "sign", "sqrt", "trunc", "acos", "asin", "atan", "cos", "sin", "tan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"]
FUN2 = ["log", "atan2"]
CMP = ["=", "!=", "<>", "<", "<=", ">", ">="]
NUMS = ["0", "1", "2", "3", "0.5", "10", "2.", "1.25e2", "5E-1", "7e0", "100", "0.1", "1e+3", "+4", "1e300", "1e-300"]
TAME = ["1", "2", "3", "0.5", "-1", "4", "0.25", "-2.5"]
TIMES = ["2020-02-29 12:00:00Z", "2021-03-14 07:00:00+00", "2000-01-01 00:00:00Z", "2019-12-31 23:59:59.999999Z", "2021-01-31 00:00:00Z"]
IVALS = ["1 day", "2 hours", "1 mon", "1 year 2 days", "-3 hours", "1.5 days", "00:00:01.5", "40 days", "25 hours", "0", "-1 mon", "30 days", "1 mon 1 day -2 hours", "1 us"]
NAMES = ["$a", "$b", "$x1", "$_y", "$Foo", "$value2", "$timeout", "$A"]


@st.composite
def tame(draw):
    t = draw(st.sampled_from(TAME))
    return ["neg", ["n", t[1:]]] if t[0] == "-" else ["n", t]


@st.composite
def expr(draw, ty, d, env, top=False):
    e = draw(expr0(ty, d, env))
    if draw(st.integers(0, 11)) == 0 and not top:
        return ["p", e]
    return e


def maybe_let(draw, ty, d, env):
    vs = []
    env = dict(env)
    for _ in range(draw(st.integers(1, 3))):
        free = [n for n in NAMES if n not in env]
        if not free:
            break
        n = draw(st.sampled_from(free))
        vt = draw(st.sampled_from(["d", "d", "b", "t", "i"]))
        vs.append([n, draw(expr(vt, max(0, d - 2), env))])
        env[n] = vt
    return ["let", vs, draw(expr(ty, d - 1, env))] if vs else draw(expr(ty, d - 1, env))


@st.composite
def expr0(draw, ty, d, env):
    us = [n for n, t in env.items() if t == ty]
    if us and draw(st.integers(0, 2)) == 0:
        return ["u", draw(st.sampled_from(us)), ty]
    if d <= 0:
        if ty == "d":
            return draw(st.one_of(st.just(["v"]), st.sampled_from(NUMS).map(lambda x: ["n", x])))
        if ty == "t":
            return draw(st.one_of(st.just(["t"]), st.sampled_from(TIMES).map(lambda x: ["T", x])))
        if ty == "i":
            return ["I", draw(st.sampled_from(IVALS))]
        if ty == "b":
            return ["b", draw(st.sampled_from(CMP)), ["v"], ["n", draw(st.sampled_from(NUMS))]]
    sub = lambda t: draw(expr(t, d - 1 - draw(st.integers(0, 1)), env))
    if ty == "d":
        k = draw(st.integers(0, 9))
        if k <= 5:
            return ["b", draw(st.sampled_from(["+", "-", "*", "/", "^", "+", "-", "*", "/"])), sub("d"), sub("d")]
        if k == 6:
            return ["neg", sub("d")]
        if k <= 8:
            f = draw(st.sampled_from(FUN1 + FUN2 + ["pi"]))
            return ["f", f, [sub("d") for _ in range(0 if f == "pi" else 2 if f in FUN2 else 1)], f != "pi" and draw(st.integers(0, 5)) == 0]
        return draw(expr0("d", 0, env))
    if ty == "t":
        k = draw(st.integers(0, 4))
        if k == 0:
            return draw(expr0("t", 0, env))
        return ["b", draw(st.sampled_from("+-")), sub("t"), sub("i")]
    if ty == "i":
        k = draw(st.integers(0, 5))
        if k == 0:
            return draw(expr0("i", 0, env))
        if k <= 2:
            return ["b", draw(st.sampled_from("+-")), sub("i"), sub("i")]
        n = draw(st.one_of(tame(), st.just(["v"])))
        if k == 3:
            return ["b", "*", sub("i"), n]
        if k == 4:
            return ["b", "*", n, sub("i")]
        return ["b", "/", sub("i"), draw(tame())]
    if ty == "b":
        k = draw(st.integers(0, 9))
        if k <= 3:
            return ["b", draw(st.sampled_from(CMP)), sub("d"), sub("d")]
        if k <= 6:
            return ["b", draw(st.sampled_from(["and", "or", "AND", "Or"])), sub("b"), sub("b")]
        if k == 7:
            return ["not", sub("b")]
        if k == 8:
            t = draw(st.sampled_from("tib"))
            return ["b", draw(st.sampled_from(CMP)), sub(t), sub(t)]
        n = draw(st.integers(2, 3))
        return ["b", draw(st.sampled_from(CMP)), ["tup", [sub("d") for _ in range(n)]], ["tup", [sub("d") for _ in range(n)]]]
    raise AssertionError(ty)


@st.composite
def case_s(draw):
    ty = draw(st.sampled_from("dddbbbtip"))
    d = draw(st.integers(1, 4))
    if ty == "p":
        e = ["tup", [draw(expr("t", d - 1, {})), draw(expr("d", d, {}))]]
        if draw(st.booleans()):
            env = {}
            vs = []
            for n, vt in (("$a", "d"), ("$b", "t")):
                vs.append([n, draw(expr(vt, d - 1, env))])
                env[n] = vt
            e = ["let", vs, ["tup", [draw(expr("t", d - 1, env)), draw(expr("d", d, env))]]]
    elif draw(st.integers(0, 2)) == 0:
        e = maybe_let(draw, ty, d + 1, {})
    else:
        e = draw(expr(ty, d, {}))
    n = draw(st.integers(1, 4))
    t0 = draw(st.sampled_from(BASES))
    pts = [[t0 + i * draw(st.sampled_from([1, HOUR, DAY * 31])), draw(st.one_of(small_ints, dyadic, st.sampled_from([0.0, -0.0, 1e308, INFV, -INFV, NANV, 0.5, -1.0])))] for i in range(n)]
    return {"ty": ty, "e": e, "pts": pts, "ws": draw(st.sampled_from(["", " ", "  ", "\n", " \t"])), "tz": draw(st.sampled_from(["UTC", "UTC", "America/New_York", "Europe/Berlin"]))}


# ---------------------------------------------------------------- printing
PREC = {"or": 1, "and": 2, "=": 3, "!=": 3, "<>": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "^": 6}


def show(e, ws, ctx=0):
    """text with only the parentheses the precedence rules call for (and those asked for with "p")"""
    k = e[0]
    if k == "v":
        return "$value"
    if k == "t":
        return "$time"
    if k == "n":
        return e[1]
    if k == "T":
        return "'%s't" % e[1]
    if k == "I":
        return "'%s'i" % e[1]
    if k == "u":
        return e[1]
    if k == "p":
        return "(" + ws + show(e[1], ws) + ws + ")"
    if k == "f":
        return e[1] + ws + "(" + ws + (ws + "," + ws).join(show(a, ws, 1) for a in e[2]) + ("," if e[3] else "") + ws + ")"
    if k == "neg":
        return "-" + ws + show(e[1], ws, 7)
    if k == "not":
        return "not" + (ws or " ") + show(e[1], ws, 7)
    if k == "tup":
        s = (ws + "," + ws).join(show(x, ws, 1) for x in e[1])
        return s if ctx == 0 else "(" + s + ")"
    if k == "let":
        s = "".join("let%s%s%s=%s%s%s;%s" % (ws or " ", n, ws, ws, show(v, ws), ws, ws) for n, v in e[1]) + show(e[2], ws)
        return s if ctx == 0 else "(" + s + ")"
    op = e[1]
    p = PREC[op.lower()]
    sep = (ws or " ") if op.lower() in ("and", "or") else ws
    l = show(e[2], ws, p + 1 if op == "^" else p)
    r = show(e[3], ws, p if op == "^" else p + 1)
    s = l + sep + op + sep + r
    return "(" + s + ")" if p < ctx else s


# ---------------------------------------------------------------- evaluation

def rnd(x):
    if not math.isfinite(x):
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(r, x)


def ieee(f):
    def g(*a):
        if any(isnan(x) for x in a):
            return NANV
        try:
            return f(*a)
        except ValueError:
            return NANV
        except OverflowError:
            return INFV
    return g


def ln(x):
    if isnan(x):
        return x
    return -INFV if x == 0 else NANV if x < 0 else math.log(x) if x != INFV else INFV


def l10(x):
    if isnan(x):
        return x
    return -INFV if x == 0 else NANV if x < 0 else math.log10(x) if x != INFV else INFV


def div(a, b):
    if isnan(a) or isnan(b):
        return NANV
    if b == 0:
        return NANV if a == 0 else math.copysign(INFV, a) * math.copysign(1, b)
    return a / b


def pw(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -INFV if a < 0 and b % 2 == 1 else INFV
    except ValueError:
        if a == 0:
            return -INFV if math.copysign(1, a) < 0 and b % 2 == 1 else INFV
        return NANV


def odd(f):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return math.copysign(INFV, x)
    return g


def trig(f):
    return lambda x: NANV if math.isinf(x) or isnan(x) else f(x)


def cbrt(x):
    return x if x == 0 or not math.isfinite(x) else math.cbrt(x)


FN = {
    "abs": abs, "cbrt": cbrt, "ceil": lambda x: math.copysign(math.ceil(x), x) if math.isfinite(x) else x,
    "floor": lambda x: (math.copysign(math.floor(x), x) if math.floor(x) == 0 else float(math.floor(x))) if math.isfinite(x) else x,
    "ln": ln, "log10": l10, "round": rnd, "sign": lambda x: x if isnan(x) else math.copysign(1.0, x),
    "sqrt": lambda x: NANV if x < 0 else x if isnan(x) or x == INFV else math.sqrt(x),
    "trunc": lambda x: math.copysign(math.trunc(x), x) if math.isfinite(x) else x,
    "acos": ieee(math.acos), "asin": ieee(math.asin), "atan": math.atan, "cos": trig(math.cos), "sin": trig(math.sin), "tan": trig(math.tan),
    "sinh": odd(math.sinh), "cosh": ieee(math.cosh), "tanh": math.tanh,
    "asinh": math.asinh, "acosh": lambda x: NANV if x < 1 else x if isnan(x) or x == INFV else math.acosh(x),
    "atanh": lambda x: NANV if isnan(x) or abs(x) > 1 else math.copysign(INFV, x) if abs(x) == 1 else math.atanh(x),
    "log": lambda a, b: div(ln(a), ln(b)), "atan2": lambda a, b: NANV if isnan(a) or isnan(b) else math.atan2(a, b),
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div, "^": pw, "neg": lambda x: -x,
}
EXACT = {"abs", "ceil", "floor", "round", "sign", "sqrt", "trunc", "+", "-", "*", "/", "neg"}


class D:
    """a double and a bound on how far another libm may be from it"""
    __slots__ = ("v", "e")

    def __init__(self, v, e=0.0):
        self.v = float(v)
        self.e = e


def corners(a):
    return [a.v] if a.e == 0 else [a.v, a.v - a.e, a.v + a.e]


def call(name, args):
    f = FN[name]
    v = f(*[a.v for a in args])
    e = 0.0
    if any(a.e for a in args):
        pts = [[]]
        for a in args:
            pts = [p + [c] for p in pts for c in corners(a)]
        for p in pts:
            w = f(*p)
            if isnan(w) != isnan(v) or (math.isinf(w) or math.isinf(v)) and w != v:
                raise Skip()
            if math.isfinite(w):
                e = max(e, abs(w - v))
        if e:
            e = 2 * e + 4e-16 * abs(v) if math.isfinite(v) else 0.0
    if name not in EXACT and math.isfinite(v):
        e += 1e-14 * max(abs(v), 1.0 if name == "log" else 0.0) + 5e-324
    if e > 1e-6 * abs(v) and e > 1e-6:
        raise Skip()
    return D(v, e)


def compare(op, a, b):
    f = {"=": lambda x, y: x == y, "!=": lambda x, y: x != y, "<>": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
    if isinstance(a, D):
        r = {f(x, y) for x in corners(a) for y in corners(b)}
        if len(r) > 1 or (a.e or b.e) and abs(a.v - b.v) <= a.e + b.e:
            raise Skip()
        return r.pop()
    if isinstance(a, bool):
        return f(a, b)
    if isinstance(a, list):
        # lexicographic; incomparable elements (NaN) make every ordering false
        eqs = [compare("=", x, y) for x, y in zip(a, b)]
        if op == "=":
            return all(eqs)
        if op in ("!=", "<>"):
            return not all(eqs)
        for x, y, e in zip(a, b, eqs):
            if not e:
                return compare(op, x, y)
        return op in ("<=", ">=")
    raise AssertionError


class Ev:
    """evaluates doubles itself; time and interval parts become SQL for PostgreSQL to evaluate"""

    def __init__(self, v, t):
        self.v, self.t = v, t

    def go(self, e, env):
        k = e[0]
        if k == "v":
            return D(self.v)
        if k == "t":
            return ("t", "'%s'::timestamptz" % ts(self.t))
        if k == "n":
            return D(float(e[1]))
        if k == "T":
            return ("t", "'%s'::timestamptz" % e[1])
        if k == "I":
            return ("i", "'%s'::interval" % e[1])
        if k == "u":
            return env[e[1]]
        if k == "p":
            return self.go(e[1], env)
        if k == "neg":
            return call("neg", [self.go(e[1], env)])
        if k == "f":
            if e[1] == "pi":
                return D(math.pi)
            return call(e[1], [self.go(a, env) for a in e[2]])
        if k == "tup":
            return [self.go(x, env) for x in e[1]]
        if k == "let":
            for n, v in e[1]:
                env[n] = self.go(v, env)  # a name is visible from there on
            return self.go(e[2], env)
        if k == "not":
            x = self.go(e[1], env)
            return (not x) if isinstance(x, bool) else ("b", "(NOT %s)" % x[1])
        op = e[1].lower()
        l, r = self.go(e[2], env), self.go(e[3], env)
        if op in ("and", "or"):
            if isinstance(l, bool) and isinstance(r, bool):
                return (l and r) if op == "and" else (l or r)
            s = lambda x: ("true" if x else "false") if isinstance(x, bool) else x[1]
            return ("b", "(%s %s %s)" % (s(l), op, s(r)))
        if op in CMP:
            if isinstance(l, tuple) or isinstance(r, tuple):
                s = lambda x: ("true" if x else "false") if isinstance(x, bool) else x[1]
                return ("b", "(%s %s %s)" % (s(l), op, s(r)))
            return compare(op, l, r)
        if isinstance(l, D) and isinstance(r, D):
            return call(op, [l, r])
        # time / interval arithmetic
        def lit(x):
            if isinstance(x, D):
                if x.e or not math.isfinite(x.v) or abs(x.v) > 1e5:
                    raise Skip()
                return "(%s)::float8" % fl(x.v)
            return x[1]
        ty = "t" if (isinstance(l, tuple) and l[0] == "t") else "i"
        return (ty, "(%s %s %s)" % (lit(l), op, lit(r)))


def outcome(db, x):
    """expected value of a bool / time / interval: python value, via SQL where needed"""
    if not isinstance(x, tuple):
        return x
    try:
        return db.val("SELECT %s%s" % (x[1], "::text" if x[0] == "i" else ""))
    except PgError as e:
        raise Skip()


def close(g, d):
    if isnan(d.v) or isnan(g):
        return isnan(d.v) and isnan(g)
    return g == d.v or abs(g - d.v) <= d.e + 0.0


def count(e):
    return sum(count(x) for x in e if isinstance(x, list)) + (1 if e and e[0] in ("b", "f", "neg", "not", "let", "tup") else 0)


def f_lambda(ctx, case):
    ty, pts = case["ty"], case["pts"]
    txt = show(case["e"], case["ws"])
    db = ctx.db
    vals = [Ev(v, t).go(case["e"], {}) for t, v in pts]
    if ctx.cache.get("tz") != case["tz"]:
        db.q("SET timezone = '%s'" % case["tz"])
        ctx.cache["tz"] = case["tz"]
    try:
        run(ctx, case, txt, vals)
    finally:
        if case["tz"] != "UTC":
            db.q("SET timezone = 'UTC'")
            ctx.cache["tz"] = "UTC"
    ctx.ev.nontrivial(count(case["e"]) >= 2)
    ctx.ev.label("type " + ty)
    ctx.ev.label("let", "let" in txt)
    ctx.ev.label("approximate", any(isinstance(x, D) and x.e for x in vals))


def run(ctx, case, txt, vals):
    ty, pts = case["ty"], case["pts"]
    db = ctx.db
    t, v = pts[0]
    A = (txt, ts(t), fl(v))
    tv = "(SELECT timevector(t,v ORDER BY i) FROM unnest($2::timestamptz[],$3::float8[]) WITH ORDINALITY u(t,v,i))"
    B = (txt, ats(p[0] for p in pts), afl(p[1] for p in pts))
    if ty == "d":
        g = db.val("SELECT %sf64_lambda($1,$2::timestamptz,$3::float8)" % TE, *A)
        need(close(g, vals[0]), "f64_lambda(%r) at value %r: got %r, expected %r (within %r)", txt, v, g, vals[0].v, vals[0].e)
        rows = db.q("SELECT time, value FROM unnest(%s -> %smap($1))" % (tv, TE), *B)
        need([r[0] for r in rows] == [p[0] for p in pts], "map(%r) changed the times: %r", txt, rows)
        for r, p, x in zip(rows, pts, vals):
            need(close(r[1], x), "map(%r) at value %r: got %r, expected %r (within %r)", txt, p[1], r[1], x.v, x.e)
    elif ty == "b":
        e = [outcome(db, x) for x in vals]
        g = db.val("SELECT %sbool_lambda($1,$2::timestamptz,$3::float8)" % TE, *A)
        need(g == e[0], "bool_lambda(%r) at %r: got %r, expected %r", txt, pts[0], g, e[0])
        rows = db.q("SELECT time, value FROM unnest(%s -> %sfilter($1))" % (tv, TE), *B)
        exp = [p for p, k in zip(pts, e) if k]
        need(len(rows) == len(exp) and all(r[0] == p[0] and (r[1] == p[1] or isnan(r[1]) and isnan(p[1])) for r, p in zip(rows, exp)), "filter(%r) of %r: got %r, expected %r", txt, pts, rows, exp)
        ctx.ev.label("filter drops some", 0 < len(exp) < len(pts))
    elif ty == "t":
        e = outcome(db, vals[0])
        g = db.val("SELECT %sttz_lambda($1,$2::timestamptz,$3::float8)" % TE, *A)
        need(g == e, "ttz_lambda(%r) at %r: got %r, expected %r", txt, pts[0], g, e)
    elif ty == "i":
        e = outcome(db, vals[0])
        g = db.val("SELECT %sinterval_lambda($1,$2::timestamptz,$3::float8)::text" % TE, *A)
        need(g == e, "interval_lambda(%r) at %r: got %r, expected %r", txt, pts[0], g, e)
    else:
        es = [[outcome(db, x[0]), x[1]] for x in vals]
        g = db.row("SELECT time, value FROM %spoint_lambda($1,$2::timestamptz,$3::float8)" % TE, *A)
        need(g[0] == es[0][0] and close(g[1], es[0][1]), "point_lambda(%r) at %r: got %r, expected %r", txt, pts[0], g, [es[0][0], es[0][1].v])
        rows = db.q("SELECT time, value FROM unnest(%s -> %smap($1))" % (tv, TE), *B)
        need(len(rows) == len(es) and all(r[0] == x[0] and close(r[1], x[1]) for r, x in zip(rows, es)), "map(%r) of %r: got %r, expected %r", txt, pts, rows, [[x[0], x[1].v] for x in es])


# ---------------------------------------------------------------- rejected expressions

BIN = {
    "+": {("d", "d"), ("t", "i"), ("i", "i")}, "-": {("d", "d"), ("t", "i"), ("i", "i")},
    "*": {("d", "d"), ("i", "d"), ("d", "i")}, "/": {("d", "d"), ("i", "d")}, "^": {("d", "d")},
    "and": {("b", "b")}, "or": {("b", "b")}, **{c: {(x, x) for x in "dtib"} for c in CMP},
}


@st.composite
def bad_s(draw):
    k = draw(st.integers(0, 7))
    a = lambda t: draw(expr(t, draw(st.integers(0, 2)), {}))
    ty = lambda: draw(st.sampled_from("dtib"))
    if k <= 3:
        op = draw(st.sampled_from(sorted(BIN)))
        l, r = ty(), ty()
        if (l, r) in BIN[op]:
            op, l, r = "+", "t", draw(st.sampled_from("td"))
        e = ["b", op, a(l), a(r)]
    elif k == 4:
        e = ["neg", a(draw(st.sampled_from("tib")))] if draw(st.booleans()) else ["not", a(draw(st.sampled_from("dti")))]
    elif k == 5:
        f = draw(st.sampled_from(FUN1 + FUN2 + ["pi"]))
        n = 0 if f == "pi" else 2 if f in FUN2 else 1
        m = draw(st.sampled_from([x for x in range(4) if x != n]))
        e = ["f", f, [a("d") for _ in range(m)], False]
    elif k == 6:
        e = draw(st.sampled_from([["u", "$nope", "d"], ["f", "frobnicate", [["v"]], False], ["let", [["$a", ["v"]], ["$a", ["n", "1"]]], ["u", "$a", "d"]], ["b", "+", ["v"], ["u", "$zz", "d"]], ["let", [["$b", ["u", "$c", "d"]], ["$c", ["v"]]], ["u", "$b", "d"]]]))
    else:
        return {"txt": draw(st.sampled_from(["", " ", "1 +", "(1", "1)", "1 2", "$", "let $a = 1", "let $a = 1; ", "'2020-01-01'", "'2020-01-01't 'x'", "'bogus't", "'bogus'i", "1,", ",1", "$value $time", "abs", "abs(", "1 = = 2", "--", "not", "1..2", "1e", "\u00e9", "$value;", "let a = 1; 1", "1 & 2", "2 ** 3", "1 == 2", "$value[0]", "'", "'2020-01-01't - 't"]))}
    return {"txt": show(e, " ")}


def f_bad(ctx, case):
    n = 0
    for sql in ("SELECT $1::%slambda::text", "SELECT %sf64_lambda($1,'2020-01-01Z',1)", "SELECT %smap($1)::text", "SELECT %sfilter($1)::text"):
        try:
            ctx.db.q(sql % TE, case["txt"])
            raise Violation("the ill-formed lambda %r was accepted by %s" % (case["txt"], sql % TE))
        except PgError as e:
            n += 1
    ctx.ev.nontrivial(len(case["txt"]) > 8)


@st.composite
def wrong_s(draw):
    ty = draw(st.sampled_from("dbti"))
    return {"ty": ty, "txt": show(draw(expr(ty, 2, {})), " ")}


def f_wrong(ctx, case):
    """an expression of one type where another is wanted"""
    for fn, t in (("f64_lambda", "d"), ("bool_lambda", "b"), ("ttz_lambda", "t"), ("interval_lambda", "i"), ("point_lambda", "p"), ("map", "d"), ("filter", "b")):
        if t == case["ty"]:
            continue
        try:
            if fn in ("map", "filter"):
                ctx.db.q("SELECT timevector('2020-01-01Z'::timestamptz,1.0) -> %s%s($1)" % (TE, fn), case["txt"])
            else:
                ctx.db.q("SELECT %s%s($1,'2020-01-01Z',1)" % (TE, fn), case["txt"])
        except PgError:
            continue
        raise Violation("%s accepts %r, which is of another type" % (fn, case["txt"]))
    ctx.ev.nontrivial(len(case["txt"]) > 8)


PROPS = {
    "D04": {
        "rule": "the expression has at least two operators, calls or bindings (or, for rejected text, more than 8 characters)",
        "subs": [Sub("evaluate", case_s(), f_lambda, 6000), Sub("rejected", bad_s(), f_bad, 1200), Sub("wrong type", wrong_s(), f_wrong, 600)],
        "note": "expressions are generated as trees and printed with the fewest parentheses the documented precedence allows; doubles are evaluated by an independent IEEE evaluator, time and interval arithmetic by PostgreSQL itself; results through another libm function are compared within a propagated error bound",
    },
}
