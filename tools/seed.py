#!/usr/bin/env python3
"""seed.py ID...: applies each planted change to /repo, builds, runs the tests, the demonstration
and the quick check of its property, and undoes the change (developer tool; no check uses it)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed-out.json"))
    names = b.get("stable") or b.get("passed") or b.get("tests")
    return [n for n in names if n not in set(o["passed"])]


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
notest = "-n" in sys.argv
nocheck = "-c" in sys.argv
assert not sh("git -C /repo status --porcelain").stdout
for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = []
    if not notest:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("clean demo %d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr); continue
    try:
        if not notest:
            bad = tests()
            out.append("tests failing %d %s" % (len(bad), bad[:3]))
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            out.append("mutant demo %d" % r.returncode)
        if not nocheck:
            for p in [meta["property"]] + [a[2:] for a in sys.argv[1:] if a.startswith("-p")]:
                r = sh("python3 check.py %s quick" % p, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                out.append("check %s exit %d %s" % (p, r.returncode, (r.stdout or r.stderr)[:160].replace("\n", " | ")))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, "; ".join(out), flush=True)
if not notest: sh("bash /opt/vp/build.sh")
