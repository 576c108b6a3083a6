"""plant the bugs of tools/seeds/*.py into scratch copies and keep those that build, pass the tests and are shown by their demo
usage: tools/seed.py [NAME...]   (default: those without a directory in seeded/)"""
import sys, os, subprocess, json, shutil, glob, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/seedrepo"
DEMO = """#!/bin/bash
# run in the root of the built repository; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O0 -w -Isrc "$d/demo.cpp" -o "$t/demo" -Lbuild/debug-$(uname -m) -ldiffpy -lboost_serialization -lgsl -lgslcblas -Wl,-rpath,"$PWD/build/debug-$(uname -m)" || exit 2
DIFFPYRUNTIME="$PWD/src/runtime" timeout 120 "$t/demo"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    env = {k: v for k, v in os.environ.items() if k not in ("CPATH", "LIBRARY_PATH", "LD_LIBRARY_PATH")}
    r = sh("cd %s && /usr/bin/python3 /opt/vp/mkversion.py %s && /opt/scons/bin/scons -Q --max-drift=-1 -j8 build=debug enable_objcryst=true lib alltests" % (SR, SR), env=env)
    return r


def tests():
    res = SR + "/build/vp-results.txt"
    open(res, "w").close()
    sh("cd %s/src/tests && /usr/bin/python3 /opt/vp/runtests.py %s/build/debug-x86_64/tests/alltests %s" % (SR, SR, res))
    sh("/usr/bin/python3 /opt/vp/results.py /tmp/seed-o.json lines:%s" % res)
    d = json.load(open("/tmp/seed-o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
    return sorted(stable - set(d["passed"])), len(d["passed"])


def one(s):
    d = os.path.join(V, "seeded", s["id"])
    w = "/tmp/seedwork/" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    open(w + "/demo.cpp", "w").write(s["demo"])
    open(w + "/demo.sh", "w").write(DEMO)
    sh("git -C %s checkout -q -- ." % SR)
    for f, a, b in s["edits"]:
        p = os.path.join(SR, "src/diffpy", f)
        t = open(p).read()
        if t.count(a) != 1:
            return "edit matches %d times in %s" % (t.count(a), f)
        open(p, "w").write(t.replace(a, b))
    diff = sh("git -C %s diff" % SR).stdout
    open(w + "/patch.diff", "w").write(diff)
    r = build()
    if r.returncode:
        return "build failed: " + r.stdout[-600:]
    bad, n = tests()
    if bad:
        return "tests fail (%d pass): %s" % (n, bad[:4])
    r = sh("bash %s/demo.sh" % w, cwd=SR)
    if r.returncode == 0:
        return "demo passes with the patch: " + r.stdout[-300:]
    if r.returncode == 2:
        return "demo does not build: " + r.stdout[-1500:]
    s["shown"] = r.stdout[-200:]
    return None


def main():
    names = sys.argv[1:]
    g = {}
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        exec(open(f).read(), g)
    seeds = g["SEEDS"]
    todo = [s for s in seeds if (s["id"] in names if names else not os.path.isdir(os.path.join(V, "seeded", s["id"])))]
    if not todo:
        return
    if not os.path.isdir(SR):
        sh("cp -a /repo %s" % SR)
    sh("git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD" % (SR, SR))
    good = []
    for s in todo:
        e = one(s)
        print(s["id"], "REJECTED " + e if e else "planted: " + s["shown"].strip().replace("\n", " | "), flush=True)
        if not e:
            good.append(s)
    sh("git -C %s checkout -q -- ." % SR)
    r = build()
    for s in good:
        w = "/tmp/seedwork/" + s["id"]
        r = sh("bash %s/demo.sh" % w, cwd=SR)
        if r.returncode:
            print(s["id"], "REJECTED: demo fails on the unchanged tree:", r.stdout[-400:])
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(w, d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("kept", len(good))


main()
