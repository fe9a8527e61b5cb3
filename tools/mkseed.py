"""Helper for planting bugs: mk(id, prop, edits, demo files, needs, breaks) confirms the change in a scratch copy
(builds, passes the stable tests, the demo fails with it and passes without) and stores it under seeded/<id>/.
try_(id) runs the property's check against it.  Scratch copies live under /tmp and are removed."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# cwd: the repository root; other files lie beside this script
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
@CC@ -std=c++17 -g -O1 @FLAGS@ -I"$PWD" -I"$PWD/graphics" -I"$d" "$d/demo.cpp" @SRC@ -o "$t/demo" || exit 2
timeout 60 "$t/demo"
"""

def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)

def scratch(name):
    d = "/tmp/seed_" + name
    sh("rm -rf " + d)
    sh("cp -a /repo " + d)
    return d

def build_test(d):
    c = ("cmake -S . -B _build2 -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON "
         "-DCMAKE_REQUIRE_FIND_PACKAGE_Freetype=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Iconv=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build2 -j8"
         " && (cd _build2/tests && ./tests) && (cd tests/data && ../../_build2/tests/graphics-tests)")
    return sh(c, d)

def mk(id, prop, edits, demo, needs, breaks, src="", flags="", cc="g++", files=None, run=True):
    out = os.path.join(V, "seeded", id)
    d = scratch(id)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        os.makedirs(out, exist_ok=True)
        diff = sh("git diff", d).stdout
        assert diff
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.cpp", "w").write(demo)
        for n, t in (files or {}).items():
            os.makedirs(os.path.dirname(out + "/" + n) or out, exist_ok=True)
            open(out + "/" + n, "w").write(t)
        open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags).replace("@SRC@", src).replace("@CC@", cc))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        r = build_test(d)
        if r.returncode:
            print(id, "BUILD/TEST FAILS\n", r.stdout[-1500:], r.stderr[-500:]); return False
        a = sh("sh %s/demo.sh" % out, "/repo")
        b = sh("sh %s/demo.sh" % out, d)
        ok = a.returncode == 0 and b.returncode != 0
        print(id, "demo clean rc", a.returncode, "bug rc", b.returncode, "OK" if ok else "BAD " + (a.stdout + a.stderr)[-800:] + (b.stdout + b.stderr)[-800:])
        if ok and run and not os.environ.get('NORUN'):
            check(id, prop, d)
        return ok
    finally:
        sh("rm -rf /tmp/seed_" + id)

def check(id, prop, d):
    r = sh("IRV_REPO=%s %s/check %s" % (d, V, prop), V, 1000)
    l = [x for x in r.stdout.split("\n") if "VIOLATION" in x or "FAIL" in x or x.startswith("OK")]
    print("   ", id, "check rc", r.returncode, " | ".join(x[:160] for x in l[-3:]), flush=True)
    return r.returncode

def recheck(ids):
    for id in ids:
        d = scratch(id)
        try:
            m = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
            a = sh("git apply %s/seeded/%s/patch.diff" % (V, id), d)
            if a.returncode:
                print(id, "does not apply"); continue
            check(id, m["property"], d)
        finally:
            sh("rm -rf /tmp/seed_" + id)

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    recheck(ids)
