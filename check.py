#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough]: decide one property on the current /repo tree."""
import warnings
warnings.simplefilter("ignore")
import sys, os, json, time, subprocess, threading, pickle, select, re, shutil, importlib, traceback, tempfile
if os.environ.get("PYTHONHASHSEED") != "0":      # same order of everything on every run
    os.execvpe(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == pid and e.get("status") == "open"]


def run_specs(prog, specs, nproc, budget, quiet):
    """verify each contract in a forked child; -> list of picklable results"""
    from dv.contract import verify, Result
    out = [None] * len(specs)
    pending = list(range(len(specs)))
    running = {}
    workers = max(1, 8 // nproc)
    t_end = time.time() + budget
    while pending or running:
        while pending and len(running) < nproc:
            i = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import threading as th
                    th.stack_size(512 * 1024 * 1024)
                    box = []

                    def go():
                        try:
                            box.append(verify(prog, specs[i], workers=workers, budget=max(5, t_end - time.time())))
                        except BaseException as e:
                            rr = Result(specs[i])
                            rr.status = "unsupported"
                            rr.reason = "verifier internal: %r" % (e,)
                            box.append(rr)
                    t = th.Thread(target=go)
                    t.start()
                    t.join()
                    rs = box[0]
                    d = dict(name=rs.spec.name, qn=rs.spec.qn, status=rs.status, reason=rs.reason, obls=rs.obls, paths=rs.paths,
                             wall=rs.wall, inlined=sorted(map(str, rs.inlined)), assumed=sorted(map(str, rs.assumed)),
                             contracts=sorted(map(str, rs.contracts)), trusted=sorted(map(str, rs.trusted)), file=rs.file, line=rs.line)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(d, f)
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, i, [])
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            pid, i, buf = running[fd]
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                out[i] = pickle.loads(b"".join(buf))
            except Exception as e:
                out[i] = dict(name=specs[i].name, qn=specs[i].qn, status="unsupported", reason="verifier process died: %r" % (e,), obls=[],
                              paths=0, wall=0, inlined=[], assumed=[], contracts=[], trusted=[], file=None, line=None)
            if not quiet:
                d = out[i]
                print("  %-52s %-11s %3d obl %4d paths %6.1fs %s" % (d["name"][:52], d["status"], len(d["obls"]), d["paths"], d["wall"], d["reason"][:300]))
                for o in d["obls"]:
                    if "--slow" in sys.argv and (o[5] or 0) > 1.5:
                        print("      slow %.1fs %s %s (%s)" % (o[5], o[4], o[0], o[3]))
                    if o[3] != "proved":
                        print("      %s [%s] line %s: %s" % (o[0], o[1], o[2], o[3]))
                sys.stdout.flush()
        if time.time() > t_end + 60:
            for fd, (pid, i, buf) in list(running.items()):
                os.kill(pid, 9)
    return out


def hints_of(results):
    """numbers appearing in the verifier's countermodels, offered to the harness as inputs"""
    hs = []
    for d in results:
        for o in d["obls"]:
            if o[3] == "refuted" and o[6]:
                for m in re.finditer(r"(?:arg|this)[^\n=]*= *(-?\d+(?:\.\d+)?(?:/\d+(?:\.\d+)?)?)", o[6]):
                    s = m.group(1)
                    try:
                        v = float(eval(s)) if "/" in s else float(s)
                    except Exception:
                        continue
                    if v not in hs:
                        hs.append(v)
    return hs[:40]


def run_harness(exe, seed, thorough, hints, timeout):
    sc = tempfile.mkdtemp(prefix="verif-h-")
    env = dict(os.environ)
    env["DIFFPYRUNTIME"] = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/runtime")
    cmd = [exe, "--seed", str(seed)] + (["--thorough"] if thorough else [])
    for h in hints:
        cmd += ["--hint", repr(h)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=sc, timeout=timeout, env=env)
        out, rc, err = r.stdout.decode(errors="replace"), r.returncode, r.stderr.decode(errors="replace")
        to = False
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace")
        rc, to, err = -1, True, ""
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    h = dict(cmd=cmd, rc=rc, timeout=to, fails=[], samples=[], cases=0, nontrivial=0, rule="", stderr=err[-2000:])
    for l in out.splitlines():
        if l.startswith("FAIL key="):
            m = re.match(r"FAIL key=(\S+) (.*)", l)
            h["fails"].append((m.group(1), m.group(2)))
        elif l.startswith("SAMPLE "):
            h["samples"].append(l[7:])
        elif l.startswith("RULE "):
            h["rule"] = l[5:]
        elif l.startswith("CASES "):
            h["cases"], h["nontrivial"] = map(int, l.split()[1:3])
    if to:
        h["fails"].append(("hang", "the harness did not finish within %d s: the library does not return on one of its inputs" % timeout))
    elif rc not in (0, 1) and not h["fails"]:
        h["fails"].append(("crash", "the harness was stopped, status %d: %s" % (rc, err[-400:].replace("\n", " "))))
    elif rc == 0 and h["cases"] == 0:
        h["fails"].append(("vacuous", "the harness ran no case"))
    return h


def main():
    t0 = time.time()
    pid = sys.argv[1]
    quiet = "-q" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    noharness = "--no-harness" in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    if "--harness-only" in sys.argv:
        only = ["@none"]
    from dv import front, build
    P = importlib.import_module("props." + pid)
    hb = {}

    def bld():
        try:
            hb["exe"] = build.build(P.HARNESS)
            hb["h"] = run_harness(hb["exe"], seed, thorough, [], 300 if not thorough else 3000)
        except build.BuildError as e:
            hb["err"] = str(e)
        except Exception as e:
            hb["err"] = repr(e)
    hpipe = None
    if getattr(P, "HARNESS", None) and not noharness:
        front.ensure_tool()
        r, w = os.pipe()
        hpid = os.fork()
        if hpid == 0:
            os.close(r)
            bld()
            with os.fdopen(w, "wb") as f:
                pickle.dump(hb, f)
            os._exit(0)
        os.close(w)
        hpipe = os.fdopen(r, "rb")
    results = []
    exterr = None
    work = tempfile.mkdtemp(prefix="verif-ast-")
    try:
        prog = front.load(P.TUS, work)
    except front.ExtractError as e:
        exterr = str(e)
        prog = None
    finally:
        shutil.rmtree(work, ignore_errors=True)
    t_ext = time.time() - t0
    specs = list(P.SPECS)
    if only:
        specs = [s for s in specs if any(o in s.name for o in only)]
    if prog is not None:
        if thorough:
            for s in specs:
                s.T = s.T * 4
        budget = getattr(P, "BUDGET", 420) * (4 if thorough else 1)
        try:
            results = run_specs(prog, specs, getattr(P, "NPROC", 4), budget, quiet)
        except Exception:
            exterr = traceback.format_exc()
    if hpipe:
        try:
            hb = pickle.load(hpipe)
        except Exception as e:
            hb = dict(err="build process died: %r" % (e,))
        os.waitpid(hpid, 0)
    t_pro = time.time() - t0
    # ---- verdict
    nob = sum(len(d["obls"]) for d in results)
    bad = []
    out_of_reach = []
    ndis = 0
    for d in results:
        ndis += sum(1 for o in d["obls"] if o[3] == "proved")
        if d["status"] == "unsupported":
            out_of_reach.append(d)
        elif d["status"] != "proved":
            for o in d["obls"]:
                if o[3] != "proved":
                    bad.append((d, o))
        elif not d["obls"]:
            out_of_reach.append(dict(d, reason="no obligation was generated (vacuous)"))
    h = hb.get("h")
    if h is not None and bad and not h["fails"]:
        hs = hints_of(results)
        # replay the verifier's counterexamples, and search further around them
        h2 = run_harness(hb["exe"], seed + 1000, True if thorough else False, hs, 300)
        if h2["fails"]:
            h = h2
        else:
            h["cases"] += h2["cases"]
            h["nontrivial"] += h2["nontrivial"]
    violations = 0
    lines = []
    known = load_known(pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)

    def replay(n, **kw):
        p = os.path.join(rdir, "%s-%d.json" % (pid, n))
        json.dump(kw, open(p, "w"), indent=1)
        return p
    newfails = []
    if h is not None:
        for key, txt in h["fails"]:
            k = [e for e in known if e.get("key") == key]
            if k:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
            else:
                newfails.append((key, txt))
    if newfails:
        key, txt = newfails[0]
        p = replay(0, property=pid, kind="failing input on the real compiled code", key=key, failing_input=txt,
                   all=[list(x) for x in newfails[:20]], command=" ".join(h["cmd"]) + "   (DIFFPYRUNTIME=/repo/src/runtime)",
                   failed_obligations=["%s: %s (line %s) %s" % (d["name"], o[0], o[2], o[3]) for d, o in bad][:40])
        for d, o in bad[:6]:
            print("FAILED OBLIGATION %s: %s [%s] %s:%s" % (d["name"], o[0], o[3], d["file"], o[2]))
        print("failing input: %s: %s" % (key, txt[:600]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        violations = len(newfails)
    elif bad:
        p = replay(0, property=pid, kind="failed obligation, no failing input found",
                   obligations=[dict(function=d["name"], file=d["file"], obligation=o[0], kind=o[1], line=o[2], result=o[3], backend=o[4],
                                     seconds=o[5], verifier_model=o[6]) for d, o in bad][:20])
        for d, o in bad[:6]:
            print("FAILED OBLIGATION %s: %s [%s] %s:%s" % (d["name"], o[0], o[3], d["file"], o[2]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        violations = len(bad)
    if hb.get("err"):
        print("harness build failed: " + hb["err"][:1500])
    # ---- evidence
    be = {}
    st = 0.0
    for d in results:
        for o in d["obls"]:
            if o[3] == "proved":
                be[o[4]] = be.get(o[4], 0) + 1
            st += o[5] or 0.0
    trusted = sorted(set(sum((d["trusted"] for d in results), [])))
    assumed = sorted(set(sum((d["assumed"] for d in results), [])))
    inlined = sorted(set(sum((d["inlined"] for d in results), [])))
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd="VERIF_TIER=%s /verif/check.py %s  (extract -> verification conditions -> z3/nlsat/cvc5)" % (tier, pid),
        trusted_base=["dv/ verification-condition generator and library models (dv/models.py)", "clang 18 front end (extract/astdump.cpp)",
                      "z3 / cvc5"] + trusted,
        functions_under_contract=[dict(function=d["name"], file=d["file"], line=d["line"], status=d["status"], obligations=len(d["obls"]),
                                       discharged=sum(1 for o in d["obls"] if o[3] == "proved"), paths=d["paths"], wall_s=round(d["wall"], 2),
                                       reason=d["reason"][:400]) for d in results],
        discharged_by=be, solver_s=round(st, 2),
        functions_inlined=inlined, library_models_used=assumed,
        out_of_reach=[dict(function=d["name"], reason=d["reason"][:400], standin="bounded: harness/%s" % getattr(P, "HARNESS", "-")) for d in out_of_reach]
        + ([dict(function="(all)", reason="extraction failed: " + exterr[:400], standin="bounded: harness")] if exterr else []),
        bounded_standin=dict(label="bounded, never counted as proved", functions=getattr(P, "BOUNDED", []), harness="harness/%s" % getattr(P, "HARNESS", "-"),
                             evaluations=h["cases"] if h else 0, distinct_nontrivial=h["nontrivial"] if h else 0, rule=h["rule"] if h else ""),
        samples=(h["samples"] if h else [])[:6],
        extraction_s=round(t_ext, 2), total_s=round(t_pro, 2),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=P.LEVEL, coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + list(getattr(P, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=violations)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for d in out_of_reach:
        print("OUT OF REACH (bounded stand-in only): %s: %s" % (d["name"], d["reason"][:300]))
    if exterr:
        print("EXTRACTION FAILED (bounded stand-in only): " + exterr[:600])
    print("%s: %d/%d obligations discharged over %d functions, %d out of reach; %d bounded cases; %.1f s" % (
        pid, ndis, nob, len(results), len(out_of_reach), h["cases"] if h else 0, time.time() - t0))
    for l in lines:
        print(l)
    if violations:
        return 1
    if hb.get("err") or (h is None and not noharness and getattr(P, "HARNESS", None)):
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic; NaN and infinities are not values of the model except where a contract names them",
    "int arithmetic is treated as mathematical unless a contract asks for overflow obligations",
    "standard library, boost and gsl calls follow the models in dv/models.py (listed under trusted_base / library_models_used)",
    "objects reached through distinct owners do not alias unless a contract says so",
    "boost::serialization member templates are dropped by the extraction",
]

if __name__ == "__main__":
    sys.exit(main())
