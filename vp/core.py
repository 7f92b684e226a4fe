"""Workers, seeds, shrinking, replay files, evidence, known findings."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

from .build import VERIF, InfraError
from .pg import PgCrash, PgError, PgHang, PgInfra
from .server import Install, Scratch, Server

KNOWN_FILE = os.path.join(VERIF, "known_findings.json")
NWORK = int(os.environ.get("VP_WORKERS", "8"))
SHRINK_S = 30


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """Case outside the property's domain (counted, not a verdict)."""


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, setup=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.setup = setup


class Ev:
    """Per-case recorder handed to the oracle."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, s, cond=True):
        if cond:
            self.labels.append(s)


class Ctx:
    def __init__(self, server, db):
        self.server = server
        self.db = db
        self.ev = Ev()
        self.cache = {}


def known():
    try:
        with open(KNOWN_FILE) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def seed_for(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def load(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, "vp", "props"))):
        if f.endswith(".py") and f[0] != "_":
            m = importlib.import_module("vp.props." + f[:-3])
            if prop in getattr(m, "PROPS", {}):
                return m.PROPS[prop]
    raise InfraError("no such property: " + prop)


def run_case(ctx, sub, case, known_sigs, stats=None):
    """Run the oracle once. Returns None or raises Violation / infra errors."""
    ctx.ev.reset()
    try:
        sub.fn(ctx, case)
    except Skip:
        if stats is not None:
            stats["skipped"] += 1
        return
    except PgHang as e:
        raise Violation("%s (and could not be interrupted): %s" % (e, (e.sql or "")[:2000]), sig="hang")
    except PgCrash as e:
        raise Violation("the server backend terminated abnormally; last statement: %s" % (e.sql or "")[:2000], sig="crash")
    except PgError as e:
        if e.state == "57014":
            raise Violation("a statement ran into the server's statement timeout: %s" % (e.sql or "")[:2000], sig="hang")
        if e.state[:2] in ("53", "58") or e.state in ("57P01", "57P02", "57P03"):
            raise InfraError("server resource problem: %s" % e)
        raise Violation("unexpected SQL error %s on valid input: %s; statement: %s" % (e.state, e.msg[:400], (e.sql or "")[:1200]), sig="sqlerror")
    except Violation as v:
        if v.sig is not None and v.sig in known_sigs:
            if stats is not None:
                stats["known"] += 1
            return
        raise


def canon(case):
    return json.loads(json.dumps(case))


def worker(prop, subs, idx, nwork, tier, seed, install, out, cap_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    res = {"worker": idx, "subs": {}, "violation": None, "infra": None, "hashes": {}}
    srv = None
    try:
        srv = Server(install, idx)
        db = srv.ready()
        ctx = Ctx(srv, db)
        known_sigs = {f["sig"] for f in known()["findings"] if f["property"] == prop and f.get("sig")}
        t0 = time.time()
        for sub in subs:
            total = sub.quick if tier == "quick" else sub.thorough
            n = total // nwork + (1 if idx < total % nwork else 0)
            if n <= 0:
                continue
            stats = Counter()
            labels = Counter()
            hashes = set()
            samples = []
            st = {"fail": None, "t": None, "infra": None}
            if sub.setup:
                sub.setup(ctx)

            def body(case):
                case = canon(case)
                if st["infra"]:
                    return
                if st["fail"] is None:
                    if time.time() - t0 > cap_s:
                        stats["cut"] += 1
                        return
                elif time.time() - st["t"] > SHRINK_S:
                    # shrinking budget used up: only the best failure so far still fails
                    if case == st["fail"][0]:
                        raise Violation(st["fail"][1])
                    return
                try:
                    run_case(ctx, sub, case, known_sigs, stats)
                except Violation as v:
                    if st["t"] is None:
                        st["t"] = time.time()
                    st["fail"] = (case, str(v))
                    raise
                except (InfraError, PgInfra) as e:
                    st["infra"] = "%s: %s" % (type(e).__name__, e)
                    return
                finally:
                    if st["fail"] is None:
                        stats["evals"] += 1
                        for lb in ctx.ev.labels:
                            labels[lb] += 1
                        if ctx.ev.nt:
                            txt = json.dumps(case, sort_keys=True)
                            h = hashlib.blake2b(txt.encode(), digest_size=8).hexdigest()
                            if h not in hashes:
                                hashes.add(h)
                                if len(txt) < 1500 and (len(samples) < 2 or (len(samples) < 4 and len(hashes) % 97 == 0)):
                                    samples.append(case)

            test = hypothesis.seed(seed_for(seed, prop, sub.name, idx))(
                settings(max_examples=n, database=None, deadline=None, derandomize=False,
                         suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                         phases=(Phase.generate, Phase.shrink), print_blob=False,
                         verbosity=hypothesis.Verbosity.quiet)(given(sub.strategy)(body)))
            err = None
            try:
                test()
            except Violation as v:
                err = v
            except BaseException as e:  # Flaky, ExceptionGroup, strategy errors
                if st["fail"] is None:
                    raise
                err = e
            if st["infra"] and st["fail"] is None:
                raise InfraError(st["infra"])
            res["subs"][sub.name] = {"stats": dict(stats), "labels": dict(labels), "samples": samples}
            res["hashes"][sub.name] = sorted(hashes)
            if st["fail"] is not None:
                # confirm outside the library on a fresh session
                case, msg = st["fail"]
                confirmed = None
                for _ in range(4):
                    ctx.db.reset()
                    ctx.cache.clear()
                    if sub.setup:
                        sub.setup(ctx)
                    try:
                        run_case(ctx, sub, case, known_sigs)
                    except Violation as v:
                        confirmed = str(v)
                        break
                if confirmed is None:
                    raise InfraError("unreproducible failure in %s/%s: %s case=%s (%r)" % (prop, sub.name, msg, json.dumps(case)[:3000], err))
                res["violation"] = {"property": prop, "sub": sub.name, "case": case, "message": confirmed, "seed": seed, "tier": tier}
                break
        if res["violation"] is None:
            res["queries"] = ctx.db.queries
    except (InfraError, PgInfra, PgCrash, PgError) as e:
        res["infra"] = "%s: %s" % (type(e).__name__, e)
    except BaseException as e:
        res["infra"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        if srv is not None:
            try:
                srv.stop()
            except BaseException:
                pass
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)


def _child(args):
    # a worker must not outlive the parent
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGTERM, 0, 0, 0)
    # a terminated worker's server goes with it (PR_SET_PDEATHSIG in server.py)
    signal.signal(signal.SIGTERM, lambda *_: os._exit(1))
    worker(*args)


def write_replay(v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(v["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (v["property"], v["sub"], h))
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def write_evidence(prop, tier, seed, cov, wall, violations=None, assumptions=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2)}
    if assumptions:
        ev["assumptions"] = assumptions
    if violations is not None:
        ev["violations"] = violations
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov.get("samples"):
        cov["samples"].pop()
        s = json.dumps(ev, indent=1)
    path = os.path.join(d, prop + ".json")
    with open(path + ".tmp", "w") as f:
        f.write(s)
    os.replace(path + ".tmp", path)


def sanitize(x):
    """samples must be plain JSON for any reader: no NaN / Infinity tokens"""
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, list):
        return [sanitize(y) for y in x]
    if isinstance(x, dict):
        return {k: sanitize(v) for k, v in x.items()}
    return x


def run_known_probes(P, prop, ctx):
    """Print KNOWN-FINDING for listed findings that still fail; returns nothing."""
    for f in known()["findings"]:
        if f["property"] != prop:
            continue
        probe = P.get("probes", {}).get(f["id"])
        still = True
        if probe is not None:
            try:
                still = bool(probe(ctx))
            except (PgError, PgCrash):
                still = True
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))


def run_property(prop, tier, seed):
    P = load(prop)
    if "runner" in P:
        return P["runner"](prop, tier, seed)
    t0 = time.time()
    scratch = Scratch()
    procs = []
    try:
        install = Install(scratch)
        subs = P["subs"]
        only = os.environ.get("VP_SUB")
        if only:
            subs = [s for s in subs if s.name in only.split(",")]
        if os.environ.get("VP_SCALE"):
            k = float(os.environ["VP_SCALE"])
            for s in subs:
                s.quick = max(NWORK, int(s.quick * k))
                s.thorough = max(NWORK, int(s.thorough * k))
        cap = 400 if tier == "quick" else 3000
        hard = cap + 200
        outs = [os.path.join(scratch.dir, "res%d.json" % i) for i in range(NWORK)]
        c = mp.get_context("fork")
        for i in range(NWORK):
            p = c.Process(target=_child, args=((prop, subs, i, NWORK, tier, seed, install, outs[i], cap),))
            p.start()
            procs.append(p)
        viol = None
        while any(p.is_alive() for p in procs):
            time.sleep(0.1)
            if time.time() - t0 > hard:
                raise InfraError("watchdog: check still running after %d s" % hard)
            for i, o in enumerate(outs):
                if viol is None and os.path.exists(o):
                    with open(o) as f:
                        r = json.load(f)
                    if r["violation"]:
                        viol = r["violation"]
            if viol:
                break
        if viol:
            for p in procs:
                if p.is_alive():
                    p.terminate()
        for p in procs:
            p.join(30)
        results = []
        for o in outs:
            if os.path.exists(o):
                with open(o) as f:
                    results.append(json.load(f))
        if viol is None:
            for r in results:
                if r["violation"]:
                    viol = r["violation"]
        infra = [r["infra"] for r in results if r["infra"]]
        if viol is None and (infra or len(results) < NWORK):
            raise InfraError("; ".join(infra)[:6000] or "a worker died")
        cov = coverage(P, subs, results)
        wall = time.time() - t0
        if viol:
            path = write_replay(viol)
            write_evidence(prop, tier, seed, cov, wall, 1, P.get("assumptions"))
            print("violation in %s/%s: %s" % (prop, viol["sub"], viol["message"][:3000]))
            print("case: %s" % json.dumps(viol["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if cov["evaluations"] == 0:
            raise InfraError("nothing was evaluated")
        if [f for f in known()["findings"] if f["property"] == prop]:
            srv = Server(install, 99)
            try:
                run_known_probes(P, prop, Ctx(srv, srv.ready()))
            finally:
                srv.stop()
        write_evidence(prop, tier, seed, cov, wall, 0, P.get("assumptions"))
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
        return 0
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
        for p in procs:
            p.join(15)
            if p.is_alive():
                p.kill()
        scratch.remove()


def coverage(P, subs, results):
    per = {}
    ev = nt = 0
    samples = []
    for s in subs:
        stats = Counter()
        labels = Counter()
        hs = set()
        smp = []
        for r in results:
            d = r["subs"].get(s.name)
            if d:
                stats.update(d["stats"])
                labels.update(d["labels"])
                smp.extend(d["samples"])
            hs.update(r["hashes"].get(s.name, ()))
        per[s.name] = {"evaluations": stats["evals"], "distinct_nontrivial": len(hs),
                       "labels": dict(labels.most_common(40))}
        for k in ("skipped", "known", "cut"):
            if stats[k]:
                per[s.name][k] = stats[k]
        ev += stats["evals"]
        nt += len(hs)
        smp.sort(key=lambda x: len(json.dumps(x)))
        for x in smp[len(smp) // 2:][:2]:
            samples.append({"sub": s.name, "case": sanitize(x)})
    return {"evaluations": ev, "distinct_nontrivial": nt, "rule": P["rule"], "samples": samples[:60],
            "per_sub": per, "sql_statements": sum(r.get("queries", 0) for r in results), "workers": len(results)}


def replay(path):
    with open(path) as f:
        v = json.load(f)
    P = load(v["property"])
    if "replayer" in P:
        return P["replayer"](v)
    sub = [s for s in P["subs"] if s.name == v["sub"]][0]
    scratch = Scratch()
    srv = None
    try:
        install = Install(scratch)
        srv = Server(install, 0)
        ctx = Ctx(srv, srv.ready())
        if sub.setup:
            sub.setup(ctx)
        try:
            run_case(ctx, sub, v["case"], set())
        except Violation as e:
            print("violation in %s/%s: %s" % (v["property"], v["sub"], str(e)[:4000]))
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
            return 1
        print("OK replay passes: %s" % path)
        return 0
    finally:
        if srv:
            srv.stop()
        scratch.remove()


def main(argv):
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    try:
        if argv and argv[0] == "--replay":
            return replay(argv[1])
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run_property(prop, tier, seed)
    except InfraError as e:
        sys.stderr.write("HARNESS-ERROR: %s\n" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
