"""Compile the real sources (current /repo tree) and link a replay harness."""
import os, subprocess, hashlib, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
from .front import REPO, BUILD, VERIF

CXX = "g++"
CXXFLAGS = ["-std=c++11", "-O1", "-fPIC", "-fwrapv", "-w", "-D_GLIBCXX_ASSERTIONS"]


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    h.update(" ".join(CXXFLAGS).encode())
    for f in sorted(glob.glob(os.path.join(REPO, "src/**/*"), recursive=True)):
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def incdirs(work):
    """-I flags; version.hpp is generated by the project's build: supply one if it is absent"""
    inc = ["-I" + os.path.join(REPO, "src")]
    if not os.path.exists(os.path.join(REPO, "src/diffpy/version.hpp")):
        d = os.path.join(work, "gen", "diffpy")
        os.makedirs(d, exist_ok=True)
        t = open(os.path.join(REPO, "src/diffpy/version.tpl")).read()
        import re
        t = t.replace("${DIFFPY_VERSION}", "1004000000")
        t = re.sub(r"\$\{DIFFPY_VERSION_(MAJOR|MINOR|MICRO|PATCH)\}", "1", t)
        t = re.sub(r"\$\{\w+\}", "x", t)
        tmp = os.path.join(d, "version.hpp.%d" % os.getpid())
        open(tmp, "w").write(t)
        os.replace(tmp, os.path.join(d, "version.hpp"))
        inc.append("-I" + os.path.join(work, "gen"))
    return inc


def sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/diffpy/**/*.cpp"), recursive=True)):
        if "ObjCryst" in f:
            continue
        out.append(f)
    return out


def build(harness, jobs=8):
    """returns path of the harness executable"""
    os.makedirs(BUILD, exist_ok=True)
    hh = tree_hash()
    d = os.path.join(BUILD, "lib-" + hh)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = incdirs(d)
        hsrc = os.path.join(VERIF, "harness", harness)
        deps = sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))) + [hsrc]
        hk = hashlib.sha256(b"".join(open(x, "rb").read() for x in deps)).hexdigest()[:12]
        exe = os.path.join(d, os.path.basename(harness)[:-4] + "-" + hk)
        jobsl = []
        objs = []
        for s in sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobsl.append((s, o))
        jobsl.sort(key=lambda x: -os.path.getsize(x[0]))
        ho = exe + ".o"
        if not os.path.exists(exe):
            jobsl.insert(0, (hsrc, ho))

        def one(j):
            s, o = j
            cmd = [CXX] + CXXFLAGS + inc + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o + ".tmp"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return "%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:])
            os.replace(o + ".tmp", o)
            return None
        with ThreadPoolExecutor(jobs) as ex:
            errs = [e for e in ex.map(one, jobsl) if e]
        if errs:
            raise BuildError(errs[0])
        if not os.path.exists(exe):
            cmd = [CXX, "-o", exe + ".tmp", ho] + objs + ["-lboost_serialization", "-lgsl", "-lgslcblas", "-ldl", "-lpthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-3000:])
            os.replace(exe + ".tmp", exe)
            os.remove(ho)
        # keep the cache small
        libs = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)
        for old in libs[:-3]:
            if old != d:
                import shutil
                shutil.rmtree(old, ignore_errors=True)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
