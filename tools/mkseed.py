"""Development aid: mkseed.py <file with seed(...) calls> writes seeded/<id>/ and
tests each one: applies to /repo, builds, stable tests pass, demo 0/nonzero, check result.
Usage: mkseed.py FILE [id ...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
PRE = '''import sys, os, warnings, tempfile
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
import numpy as np, fenics as f, festim as F
def check(ok, msg):
    if not ok:
        sys.stderr.write("FAIL: " + msg + "\\n"); sys.stderr.flush(); os._exit(1)
'''
SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
export OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 PYTHONDONTWRITEBYTECODE=1
export TMPDIR="$work" DIJITSO_CACHE_DIR="$work/dijitso"
[ -d /opt/vp-cache/dijitso ] && cp -r /opt/vp-cache/dijitso "$work/dijitso"
timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py" > "$work/log" 2>&1
rc=$?
grep FAIL "$work/log" || { [ $rc = 0 ] || tail -3 "$work/log"; }
exit $rc
'''


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    exec(open(sys.argv[1]).read(), globals())
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable"))
    ids = sys.argv[2:] or list(SEEDS)
    for id in ids:
        s = SEEDS[id]
        d = os.path.join(V, "seeded", id)
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            for path, a, b in s["edits"]:
                p = os.path.join("/repo", path)
                t = open(p).read()
                assert t.count(a) == 1, (id, path, a, t.count(a))
                open(p, "w").write(t.replace(a, b))
            diff = sh("git -C /repo diff").stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = sh("bash /opt/vp/build.sh").returncode
            sh("bash /opt/vp/test.sh /tmp/so.json")
            got = set(json.load(open("/tmp/so.json"))["passed"])
            lost = base - got
            demo = sh("bash %s/demo.sh" % d, cwd="/repo")
            ck = sh("%s/bin/check %s" % (V, s["prop"]))
            verdict = [l for l in ck.stdout.splitlines() if "clause" in l or "OK" in l or "ERROR" in l]
        finally:
            sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
        clean = sh("bash %s/demo.sh" % d, cwd="/repo")
        good = b == 0 and not lost and demo.returncode != 0 and clean.returncode == 0
        print("%s %s %s: build=%d lost=%d demo=%d clean=%d check=%d %s" % (
            "GOOD" if good else "BAD ", id, s["prop"], b, len(lost), demo.returncode, clean.returncode, ck.returncode,
            "; ".join(v.strip()[:90] for v in verdict[:3])), flush=True)
        if not good:
            print("   ", sorted(lost)[:3], demo.stdout[-300:], "|", clean.stdout[-500:])
            sh("rm -r %s" % d)


main()
