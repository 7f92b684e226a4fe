"""Validate planted bugs in a scratch copy of /repo (default /tmp/wt; see DESIGN.md).
usage: plant.py [--new] ID...   (--new: (re)write expected.txt from the clean tree)
Needs /tmp/vpt/{build,test}.sh, the /opt/vp scripts with /repo replaced by the copy."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt")
T = os.environ.get("VPT", "/tmp/vpt")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def reset():
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git status --short", cwd=WT)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    new = "--new" in sys.argv
    nochk = "--nocheck" in sys.argv
    reset()
    if sh("bash %s/build.sh" % T).returncode:
        sys.exit("clean build failed")
    ok = []
    for i in ids:
        d = os.path.join(V, "seeded", i)
        if not os.path.exists(d + "/demo.sh"):
            sh("cp %s/tools/demo.sh %s/demo.sh" % (V, d))
        if new and os.path.exists(d + "/demo.sql"):
            sh("DEMO_WRITE=%s/expected.txt bash %s/demo.sh" % (d, d), cwd=WT)
            print(i, "expects:\n" + open(d + "/expected.txt").read(), flush=True)
        p = sh("bash %s/demo.sh" % d, cwd=WT)
        if p.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE", p.stdout[-1500:], flush=True)
        elif sh("git apply --check %s/patch.diff" % d, cwd=WT).returncode:
            print(i, "PATCH DOES NOT APPLY", flush=True)
        else:
            ok.append(i)
    for i in ok:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        reset()
        sh("git apply %s/patch.diff" % d, cwd=WT)
        b = sh("bash %s/build.sh" % T)
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stdout[-3000:], flush=True)
            continue
        t = sh("bash %s/test.sh %s/out-%s.json" % (T, T, i)).stdout.strip().split("\n")[-1]
        m = sh("bash %s/demo.sh" % d, cwd=WT)
        line = "%s [%s]: tests %s; demo %d" % (i, prop, t, m.returncode)
        if not nochk:
            c = sh("./check %s quick" % prop, cwd=V, env=dict(os.environ, VP_REPO=WT, VP_BUILD="/tmp/wtbuild", VERIF_SEED="1"))
            line += "; check %d %s" % (c.returncode, "CAUGHT" if "VIOLATION property=%s " % prop in c.stdout else "MISSED")
            open("%s/chk-%s.log" % (T, i), "w").write(c.stdout)
        print(line, flush=True)
        if m.returncode:
            print("   " + m.stdout[-600:].replace("\n", "\n   "), flush=True)
    reset()


main()
