"""F01: the encodings of the workspace's crates, driven by the Rust program in rust/
(proptest generates and shrinks; this side builds, fans out and merges)."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

from ..build import BUILD, REPO, VERIF, InfraError, toolchain_env, touch_if_changed

SUBS = [  # name, quick cases, thorough cases
    ("varint", 60000, 3000000),
    ("signed", 60000, 3000000),
    ("cut", 16000, 300000),
    ("sketch", 24000, 800000),
    ("flat", 16000, 400000),
]
NPROC = 8


def build_codec():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "rust")
    with open(os.path.join(BUILD, ".lock-rust"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if REPO != "/repo":
            dst = os.path.join(BUILD, "rust-src")
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst)
            src = dst
        with open(os.path.join(src, "Cargo.toml")) as f:
            toml = f.read()
        if REPO != "/repo":
            toml = toml.replace("../../repo/", REPO + "/")
            with open(os.path.join(src, "Cargo.toml"), "w") as f:
                f.write(toml)
        touch_if_changed("rust-sources.json", "rust")
        env = toolchain_env()
        for k in list(env):
            if k.startswith("CARGO_PROFILE_"):
                del env[k]
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "rust")
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stdout[-8000:])
            raise InfraError("building the encodings' driver failed")
    return os.path.join(BUILD, "rust", "debug", "codec")


def finish(proc, limit):
    """output, or how the process died"""
    try:
        out, err = proc.communicate(timeout=max(1, limit - time.time()))
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return None, "hang"
    if proc.returncode == 0:
        return json.loads(out), None
    if proc.returncode < 0 or proc.returncode in (101, 134, 139):
        return None, "died with status %d" % proc.returncode
    raise InfraError("the encodings' driver failed: %s" % err[-2000:])


def start(exe, args, trace=None):
    env = dict(os.environ)
    env.pop("CODEC_TRACE", None)
    if trace:
        env["CODEC_TRACE"] = trace
    return subprocess.Popen([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def locate(exe, sub, args, how, allow):
    """the case a process died or hung in, found by running it again and noting each case"""
    d = tempfile.mkdtemp(prefix="vpcodec", dir=BUILD)
    try:
        t = os.path.join(d, "case")
        res, how2 = finish(start(exe, args, t), time.time() + allow)
        if how2 is None:
            if res["fail"]:
                return res["fail"]
            raise InfraError("a driver process %s and did not do so again" % how)
        with open(t) as f:
            case = json.load(f)
        if how2 == "hang":
            # a slow machine is no verdict: the single case has to hang by itself
            _, how3 = finish(start(exe, ["replay", sub, json.dumps(case)]), time.time() + 60)
            if how3 is None:
                raise InfraError("a driver process ran out of time")
        return {"case": case, "message": "reading or writing it makes the process %s" % (
            "hang" if how2 == "hang" else "end (%s)" % how2)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_codec(prop, tier, seed):
    from ..core import write_evidence, write_replay
    t0 = time.time()
    exe = build_codec()
    only = os.environ.get("VP_SUB")
    scale = float(os.environ.get("VP_SCALE", "1"))
    per, samples, viol = {}, [], None
    total = distinct = 0
    allow = 150 if tier == "quick" else 900
    for name, quick, thorough in SUBS:
        if only and name not in only.split(","):
            continue
        n = max(NPROC, int((quick if tier == "quick" else thorough) * scale)) // NPROC
        runs = []
        for i in range(NPROC):
            args = ["run", name, str(n), str(seed * 1000 + i)]
            runs.append((args, start(exe, args)))
        evals, hashes, labels = 0, set(), Counter()
        limit = time.time() + allow
        for args, p in runs:
            if viol:
                p.kill()
                p.communicate()
                continue
            res, how = finish(p, limit)
            if how:
                res = {"fail": locate(exe, name, args, how, allow)}
            if res["fail"]:
                viol = dict(res["fail"], property=prop, sub=name, seed=seed)
            evals += res.get("evaluations", 0)
            hashes.update(res.get("hashes", ()))
            labels.update(res.get("labels", {}))
            for s in res.get("samples", [])[:1]:
                samples.append({"sub": name, "case": s})
        per[name] = {"evaluations": evals, "distinct_nontrivial": len(hashes), "labels": dict(labels)}
        total += evals
        distinct += len(hashes)
        if viol:
            break
    P = PROPS[prop]
    cov = {"evaluations": total, "distinct_nontrivial": distinct, "rule": P["rule"],
           "samples": samples[:40], "per_sub": per, "workers": NPROC}
    wall = time.time() - t0
    if viol:
        path = write_replay(viol)
        write_evidence(prop, tier, seed, cov, wall, 1)
        print("violation in %s/%s: %s" % (prop, viol["sub"], viol["message"][:3000]))
        print("case: %s" % json.dumps(viol["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not total:
        raise InfraError("nothing was evaluated")
    write_evidence(prop, tier, seed, cov, wall, 0)
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, total, distinct, wall))
    return 0


def replay_codec(v):
    exe = build_codec()
    p = start(exe, ["replay", v["sub"], json.dumps(v["case"])])
    try:
        out, err = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        out = "hang"
    if p.returncode == 0:
        print("OK replay passes")
        return 0
    print("violation in %s/%s: %s" % (v["property"], v["sub"], out[:4000] or "status %s" % p.returncode))
    print("VIOLATION property=%s replay=-" % v["property"])
    return 1


PROPS = {"F01": {
    "subs": [],
    "runner": run_codec,
    "replayer": replay_codec,
    "rule": "varint: several values, one above 127; signed: several values, one negative; cut: a value of several bytes; sketch: at least two hashes; "
            "flat: a value of more than eight bytes",
    "technique": "property-based testing (proptest): round trips of the crates' encodings, an independent model "
                 "of the stored bytes and of the sketch registers, and every truncation of a buffer, with shrinking",
    "note": "Random structured search on the crates' public functions, compiled with overflow and alignment checks; "
            "assurance is limited to the generated cases.",
}}
