"""Minimal libpq client (ctypes) with exact decoding of the types we use."""
import ctypes
import ctypes.util
import os
import re
import select
import signal
import time

_lib = None


def lib():
    global _lib
    if _lib is None:
        path = "/usr/lib/x86_64-linux-gnu/libpq.so.5"
        if not os.path.exists(path):
            path = ctypes.util.find_library("pq")
        L = ctypes.CDLL(path)
        vp, cp, ip = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int
        L.PQconnectdb.restype = vp
        L.PQconnectdb.argtypes = [cp]
        L.PQstatus.argtypes = [vp]
        L.PQerrorMessage.argtypes = [vp]
        L.PQerrorMessage.restype = cp
        L.PQfinish.argtypes = [vp]
        L.PQexec.argtypes = [vp, cp]
        L.PQexec.restype = vp
        L.PQexecParams.argtypes = [vp, cp, ip, vp, ctypes.POINTER(cp),
                                   ctypes.POINTER(ip), ctypes.POINTER(ip), ip]
        L.PQexecParams.restype = vp
        L.PQresultStatus.argtypes = [vp]
        L.PQresultErrorField.argtypes = [vp, ip]
        L.PQresultErrorField.restype = cp
        L.PQresultErrorMessage.argtypes = [vp]
        L.PQresultErrorMessage.restype = cp
        for f in ("PQntuples", "PQnfields"):
            getattr(L, f).argtypes = [vp]
        L.PQfname.argtypes = [vp, ip]
        L.PQfname.restype = cp
        L.PQftype.argtypes = [vp, ip]
        L.PQftype.restype = ctypes.c_uint
        L.PQgetvalue.argtypes = [vp, ip, ip]
        L.PQgetvalue.restype = ctypes.c_void_p
        L.PQgetlength.argtypes = [vp, ip, ip]
        L.PQgetisnull.argtypes = [vp, ip, ip]
        L.PQclear.argtypes = [vp]
        L.PQsendQuery.argtypes = [vp, cp]
        L.PQsendQueryParams.argtypes = [vp, cp, ip, vp, ctypes.POINTER(cp),
                                        ctypes.POINTER(ip), ctypes.POINTER(ip), ip]
        for f in ("PQsocket", "PQconsumeInput", "PQisBusy", "PQbackendPID"):
            getattr(L, f).argtypes = [vp]
        L.PQgetResult.argtypes = [vp]
        L.PQgetResult.restype = vp
        _lib = L
    return _lib


class PgError(Exception):
    def __init__(self, state, msg, sql=None):
        super().__init__("%s: %s" % (state, msg))
        self.state = state
        self.msg = msg
        self.sql = sql


class PgCrash(Exception):
    """The backend died while executing a statement."""

    def __init__(self, msg, sql=None):
        super().__init__("backend died: %s" % msg)
        self.sql = sql


class PgHang(PgCrash):
    """A statement did not finish within HANG_S; its backend was ended."""

    def __init__(self, sql=None):
        Exception.__init__(self, "statement did not finish in %d s" % HANG_S)
        self.sql = sql


class PgInfra(Exception):
    pass


HANG_S = 90


INF = "infinity"
NINF = "-infinity"

# ---- timestamps: microseconds since 2000-01-01 UTC ----


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (1 if m <= 2 else 0), m, d)


def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


PG_EPOCH_DAYS = 10957
DAY_US = 86400 * 10**6


def ts(us):
    """microseconds since 2000-01-01 UTC -> timestamptz literal"""
    if us is None:
        return None
    if isinstance(us, str):
        return us
    days, rem = divmod(us, DAY_US)
    y, m, d = civil_from_days(days + PG_EPOCH_DAYS)
    s, f = divmod(rem, 10**6)
    bc = ""
    if y <= 0:
        y = 1 - y
        bc = " BC"
    return "%04d-%02d-%02d %02d:%02d:%02d.%06d+00%s" % (
        y, m, d, s // 3600, s // 60 % 60, s % 60, f, bc)


_ts_re = re.compile(r"^(\d+)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d+))?([+-])(\d\d)(?::(\d\d))?(?::(\d\d))?( BC)?$")


def parse_ts(t):
    if t in (INF, NINF):
        return t
    m = _ts_re.match(t)
    if not m:
        raise PgInfra("cannot parse timestamp %r" % t)
    y = int(m.group(1))
    if m.group(12):
        y = 1 - y
    days = days_from_civil(y, int(m.group(2)), int(m.group(3))) - PG_EPOCH_DAYS
    frac = (m.group(7) or "").ljust(6, "0")
    off = int(m.group(9)) * 3600 + int(m.group(10) or 0) * 60 + int(m.group(11) or 0)
    if m.group(8) == "+":
        off = -off
    return days * DAY_US + (int(m.group(4)) * 3600 + int(m.group(5)) * 60 + int(m.group(6)) + off) * 10**6 + int(frac or 0)


class Interval(tuple):
    """(months, days, microseconds)"""


_iv_tok = re.compile(r"(-?\d+) (year|mon|day)s?")


def parse_interval(t):
    months = days = us = 0
    for n, u in _iv_tok.findall(t):
        n = int(n)
        if u == "year":
            months += 12 * n
        elif u == "mon":
            months += n
        else:
            days += n
    m = re.search(r"(-?)\+?(\d+):(\d\d):(\d\d)(?:\.(\d+))?$", t)
    if m:
        v = (int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4))) * 10**6 + int((m.group(5) or "").ljust(6, "0") or 0)
        us = -v if m.group(1) else v
    return Interval((months, days, us))


def interval_us(iv):
    """Interval as PostgreSQL compares it: 30-day months, 24-hour days."""
    if iv is None:
        return None
    return (iv[0] * 30 + iv[1]) * DAY_US + iv[2]


def iv(us):
    """microseconds -> interval literal with no month/day part"""
    if us is None:
        return None
    sign = "-" if us < 0 else ""
    us = abs(us)
    s, f = divmod(us, 10**6)
    return "%s%d:%02d:%02d.%06d" % (sign, s // 3600, s // 60 % 60, s % 60, f)


def parse_array(t, conv):
    if t == "{}":
        return []
    out = []
    i = 1
    n = len(t)
    while i < n:
        if t[i] == '"':
            i += 1
            b = []
            while t[i] != '"':
                if t[i] == "\\":
                    i += 1
                b.append(t[i])
                i += 1
            i += 1
            out.append(conv("".join(b)))
        else:
            j = i
            while t[j] not in ",}":
                j += 1
            w = t[i:j]
            out.append(None if w == "NULL" else conv(w))
            i = j
        if t[i] == "}":
            break
        i += 1
    return out


def _bool(x):
    return x == "t"


CONV = {16: _bool, 20: int, 21: int, 23: int, 26: int, 700: float, 701: float,
        1184: parse_ts, 1186: parse_interval,
        1000: lambda t: parse_array(t, _bool),
        1016: lambda t: parse_array(t, int), 1007: lambda t: parse_array(t, int),
        1022: lambda t: parse_array(t, float),
        1185: lambda t: parse_array(t, parse_ts),
        1187: lambda t: parse_array(t, parse_interval),
        1009: lambda t: parse_array(t, str)}


def fl(x):
    """float -> literal"""
    if x is None:
        return None
    if isinstance(x, int):
        return str(x)
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def arr(xs, f=str):
    """python list -> array literal"""
    return "{" + ",".join("NULL" if x is None else '"' + f(x).replace("\\", "\\\\").replace('"', '\\"') + '"' for x in xs) + "}"


def ats(xs):
    return arr(xs, ts)


def afl(xs):
    return arr(xs, fl)


class DB:
    def __init__(self, conninfo, init=()):
        self.conninfo = conninfo
        self.init = list(init)
        self.conn = None
        self.queries = 0
        self.connect()

    def connect(self):
        L = lib()
        last = ""
        for _ in range(300):
            c = L.PQconnectdb(self.conninfo.encode())
            if L.PQstatus(c) == 0:
                self.conn = c
                for s in self.init:
                    self.q(s)
                return
            last = L.PQerrorMessage(c).decode("utf8", "replace")
            L.PQfinish(c)
            time.sleep(0.1)
        raise PgInfra("cannot connect: " + last)

    def close(self):
        if self.conn:
            lib().PQfinish(self.conn)
            self.conn = None

    def reset(self):
        self.close()
        self.connect()

    def wait(self, sql):
        """last result of the statement just sent"""
        L = lib()
        fd = L.PQsocket(self.conn)
        end = None
        while L.PQisBusy(self.conn):
            if end is None:
                end = time.monotonic() + HANG_S
            if not select.select([fd], [], [], max(0, end - time.monotonic()))[0]:
                try:
                    os.kill(L.PQbackendPID(self.conn), signal.SIGKILL)
                except OSError:
                    pass
                self.close()
                self.connect()
                raise PgHang(sql)
            if not L.PQconsumeInput(self.conn):
                break
        r = None
        while True:
            nx = L.PQgetResult(self.conn)
            if not nx:
                return r
            if r:
                if L.PQresultStatus(r) not in (1, 2):
                    L.PQclear(nx)  # keep the first error
                    continue
                L.PQclear(r)
            r = nx

    def q(self, sql, *params):
        """rows as lists of python values"""
        L = lib()
        self.queries += 1
        bs = sql.encode()
        if params:
            n = len(params)
            vals = (ctypes.c_char_p * n)()
            for i, p in enumerate(params):
                if p is None:
                    vals[i] = None
                elif isinstance(p, bool):
                    vals[i] = b"t" if p else b"f"
                elif isinstance(p, (int, float)):
                    vals[i] = fl(p).encode()
                else:
                    vals[i] = p.encode()
            ok = L.PQsendQueryParams(self.conn, bs, n, None, vals, None, None, 0)
        else:
            ok = L.PQsendQuery(self.conn, bs)
        r = self.wait(sql) if ok else None
        st = L.PQresultStatus(r) if r else 7
        try:
            if st in (1, 2):  # COMMAND_OK, TUPLES_OK
                if st == 1:
                    return []
                nf, nt = L.PQnfields(r), L.PQntuples(r)
                convs = [CONV.get(L.PQftype(r, j), str) for j in range(nf)]
                rows = []
                for i in range(nt):
                    row = []
                    for j in range(nf):
                        if L.PQgetisnull(r, i, j):
                            row.append(None)
                        else:
                            ln = L.PQgetlength(r, i, j)
                            row.append(convs[j](ctypes.string_at(L.PQgetvalue(r, i, j), ln).decode("utf8", "surrogateescape")))
                    rows.append(row)
                return rows
            state = L.PQresultErrorField(r, ord("C")) if r else None
            state = state.decode() if state else None
            msg = (L.PQresultErrorMessage(r).decode("utf8", "replace") if r else "no result").strip()
            dead = L.PQstatus(self.conn) != 0
        finally:
            if r:
                L.PQclear(r)
        if dead or state is None:
            self.close()
            self.connect()
            if state in ("57P01", "57P02", "57P03"):
                raise PgInfra("server shut down: " + msg)
            raise PgCrash(msg, sql)
        raise PgError(state, msg, sql)

    def row(self, sql, *params):
        rows = self.q(sql, *params)
        if len(rows) != 1:
            raise PgInfra("expected one row, got %d: %s" % (len(rows), sql))
        return rows[0]

    def val(self, sql, *params):
        return self.row(sql, *params)[0]
