#!/usr/bin/env python3
"""Tries planted bugs in a scratch copy of the repository (not used by any check).
  plant.py try ID [check ...]    confirm seeded/ID (tests pass, demo 0 -> nonzero) and run checks on it
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_DIR", "/tmp/pl")
R = W + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    return sh("CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build" % (R, R, R))


def fresh():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh("git clone -q /repo %s" % R)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq -e _build" % (R, R, R))


def tests():
    sh("rm -rf %s/_build/reports; mkdir -p %s/_build/reports; ctest --test-dir %s/_build -j8 --timeout 300 --output-junit %s/_build/reports/ctest.xml" % (R, R, R, R))
    sh("python3 /opt/vp/results.py %s/res.json junit:%s/_build/reports/ctest.xml" % (W, R))
    res = json.load(open(W + "/res.json"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(want) - set(res["passed"]))


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=400)
    return r.returncode, r.stdout[-600:]


def main():
    ident = sys.argv[2]
    d = os.path.join(HERE, "seeded", ident)
    meta = json.load(open(d + "/meta.json"))
    checks = sys.argv[3:] or [meta["property"]]
    fresh()
    ok = True
    if "--nodemo" not in sys.argv:
        b = build()
        if b.returncode:
            print("BASE BUILD FAILS", b.stdout[-2000:]); return 1
        t = time.time()
        rc, out = demo(d)
        print("demo on base: rc=%d (%.1fs) %s" % (rc, time.time() - t, out.strip()[-200:]))
        ok &= rc == 0
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode:
        print("PATCH DOES NOT APPLY", r.stdout); return 1
    try:
        if "--nodemo" not in sys.argv:
            b = build()
            if b.returncode:
                print("BUILD FAILS", b.stdout[-2000:]); return 1
            miss = tests()
            print("tests missing:", miss)
            ok &= not miss
            t = time.time()
            rc, out = demo(d)
            print("demo with bug: rc=%d (%.1fs) %s" % (rc, time.time() - t, out.strip()[-300:]))
            ok &= rc != 0
            print("PLANT OK" if ok else "PLANT BAD", ident)
        for c in checks:
            if c.startswith("-"):
                continue
            t = time.time()
            r = sh("python3 check.py run %s --tier quick" % c, cwd=HERE, env=dict(os.environ, SIM_REPO=R, SIM_BUILD=W + "/build", SIM_HERE=W))
            tail = [l for l in r.stdout.splitlines() if l.startswith(("violation", "VIOLATION", "minimised", "check error"))]
            print("check %s: rc=%d %s (%.0fs) %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", time.time() - t, " | ".join(tail)[:400]))
    finally:
        sh("git -C %s checkout -q -f ." % R)
    return 0


sys.exit(main())
