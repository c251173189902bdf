#!/usr/bin/env python3
# Plants bugs in a scratch copy of /repo (PLANT_REPO, made if missing): applies replacements, confirms build,
# stable tests and the demonstration, stores seeded/<id>, runs the property's check on the copy, undoes the change.
#   plant.py [ids]      rechecks stored bugs          plant(...)      plants a new one
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("PLANT_REPO", "/tmp/plant_repo")
DEMO = '''#!/bin/bash
# Run with cwd at the built repository: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2; trap 'rm -rf "$t"' EXIT
ln -s "$PWD" "$t/ustl"
%s "$PWD/_build/ustl/libustl.a" -pthread || exit 2
cd "$t" && timeout 120 ./demo
'''
CC = 'g++-12 -std=c++14 -O1 -DNDEBUG -w -I"$t" -o "$t/demo" "$d/demo.cc"'
H = '''#include <ustl/ustl.h>
#include <stdio.h>
using namespace ustl;
#define CK(c) do { if (!(c)) { fprintf (stderr, "wrong: %s\\n", #c); return 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, errors="replace", **k)
def setup():
    if not os.path.isdir(R): sh("cp -a /repo " + R)
    clean(); sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
    os.makedirs(R + ".vp/inc", exist_ok=True)
    for f in ("common.sh", "build.sh", "test.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp", R + ".vp"); open(R + ".vp/" + f, "w").write(s)
    sh("cp /opt/vp/inc/all.cc %s.vp/inc/; ln -sfn %s %s.vp/inc/ustl" % (R, R, R))
def tests_ok():
    r = sh("bash %s.vp/build.sh" % R)
    if r.returncode: return False, "build: " + r.stderr[-600:]
    sh("bash %s.vp/test.sh %s.vp/out.json" % (R, R))
    missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(R + ".vp/out.json"))["passed"]))
    return not missing, str(missing)
def clean(): sh("git -C %s checkout -q -- ." % R)
def demo(d): r = sh("bash %s/demo.sh" % d, cwd=R); return r.returncode, (r.stdout + r.stderr)[-300:]
def check(prop):
    r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s" % (R, V, prop)); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return "CAUGHT" if v and r.returncode == 1 else "MISSED", "rc=%d %s" % (r.returncode, (r.stdout.splitlines() or ["?"])[-1][:170])
def original(f, line):
    o = sh("git -C %s blame -s -L%d,%d %s" % (R, line, line, f)).stdout
    return o.startswith("^")
def plant(id, prop, reps, needs, breaks, demo_cc, docheck=True, cc=CC):
    d = "%s/seeded/%s" % (V, id); clean()
    def no(*a):
        print(id, *a); sh("rm -rf %s" % d); sys.stdout.flush()
    try:
        for f, a, b in reps:
            p = R+"/"+f; s = open(p, encoding="latin1").read()
            if s.count(a) != 1: return no("REPLACEMENT COUNT", s.count(a), a)
            open(p, "w", encoding="latin1").write(s.replace(a, b))
        diff = sh("git -C %s diff -U0" % R).stdout
        import re
        ok = False; f = None; bad = []
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                n = int(m[2]) if m[2] else 1
                for k in range(n):
                    o = sh("git -C %s blame -s -L%d,+1 HEAD -- %s" % (R, int(m[1])+k, f)).stdout
                    if o.startswith("^"): ok = True
                    else: bad.append(o.strip())
        if not ok or bad: return no("NOT ORIGINAL LINES", bad)
        os.makedirs(d, exist_ok=True)
        open(d+"/demo.cc", "w").write(demo_cc); open(d+"/demo.sh", "w").write(DEMO % cc)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d+"/meta.json", "w"), indent=1)
        open(d+"/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        ok, out = tests_ok()
        if not ok: return no("TESTS FAIL", out)
        rc, out = demo(d)
        if rc == 0: return no("DEMO PASSES WITH BUG", out)
        if rc == 2: return no("DEMO BUILD?", out)
        res = check(prop) if docheck else ("-", "")
        clean(); tests_ok(); rc, out2 = demo(d)
        if rc: return no("DEMO FAILS ON CLEAN", out2)
        print(id, prop, "OK", *res, "| demo:", out.strip()[-100:])
    finally: clean(); sys.stdout.flush()
def recheck(id):
    d = "%s/seeded/%s" % (V, id); prop = json.load(open(d+"/meta.json"))["property"]; clean()
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode: print(id, "DOES NOT APPLY", r.stderr); return
    try: print(id, prop, *check(prop))
    finally: clean(); sys.stdout.flush()
setup()
if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(V+"/seeded")): recheck(i)
