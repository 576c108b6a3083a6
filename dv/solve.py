"""Discharge of proof obligations: z3 first, cvc5 second; fork-parallel."""
import os, sys, time, json, subprocess, tempfile, signal, select
import z3
from .core import has_quant

PROVED, FAILED, UNKNOWN = "proved", "refuted", "unknown"


def _has_lambda(f, seen=None):
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            if x.is_lambda():
                return True
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def _z3(hyps, goal, timeout, opts=None, nlsat=False):
    s = z3.Solver() if not nlsat else z3.Tactic("qfnra-nlsat").solver()
    if nlsat:
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
    s.set("timeout", int(timeout * 1000))
    for k, v in (opts or {}).items():
        s.set(k, v)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def _symbols(f, cache={}):
    i = f.get_id()
    if i in cache and cache[i][0].eq(f):
        return cache[i][1]
    out = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name() if x.num_args() == 0 else "f:" + x.decl().name())
            st.extend(x.children())
    cache[i] = (f, out)
    return out


def relevant(hyps, goal, rounds=3):
    """hypotheses connected to the goal through shared symbols (sound: drops facts only)"""
    sy = set(_symbols(goal))
    keep = [False] * len(hyps)
    hs = [_symbols(h) for h in hyps]
    for _ in range(rounds):
        new = set()
        for i, h in enumerate(hs):
            if not keep[i] and (h & sy or not h):
                keep[i] = True
                new |= h
        new = {x for x in new if not x.startswith("f:")}
        if new <= sy:
            break
        sy |= new
    return [h for h, k in zip(hyps, keep) if k]


def _cvc5(hyps, goal, timeout, nl=False):
    if any(_has_lambda(h) for h in hyps) or _has_lambda(goal):
        return "unknown"
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    if "(_ map" in txt or "int2bv" in txt.lower():
        return "unknown"
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        a = ["cvc5", "--tlimit=%d" % int(timeout * 1000), "--arrays-exp"]
        if nl:
            a.append("--nl-cov")
        r = subprocess.run(a + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        o = r.stdout.decode().strip().splitlines()
        return o[0] if o and o[0] in ("sat", "unsat") else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


def discharge(o, T, start=0, progress=None):
    """-> (status, backend, seconds, model text)"""
    t0 = time.time()
    if o.pc is None:
        return (PROVED, "simplifier", 0.0, None)
    hyps = o.pc
    goal = o.goal
    quant = any(has_quant(h) for h in hyps) or has_quant(goal)
    rel = relevant(hyps, goal)
    refuted = None
    plans = []
    if quant:
        plans.append(("z3", rel, dict(timeout=min(0.7, T), opts={"smt.mbqi": False})))
        plans.append(("cvc5", rel, dict(timeout=min(1, T))))
        plans.append(("z3", rel, dict(timeout=min(2.5, T))))
        plans.append(("cvc5", rel, dict(timeout=min(3, T))))
        plans.append(("z3", hyps, dict(timeout=T)))
        plans.append(("cvc5", rel, dict(timeout=T)))
        plans.append(("z3", rel, dict(timeout=T, opts={"smt.mbqi": False, "smt.random_seed": 7})))
    else:
        plans.append(("z3", rel, dict(timeout=0.7)))
        plans.append(("nlsat", rel, dict(timeout=min(4, T))))
        plans.append(("z3", rel, dict(timeout=min(5, T))))
        plans.append(("z3", hyps, dict(timeout=T)))
        plans.append(("cvc5", rel, dict(timeout=T)))
    model = None
    for n, (be, hs, kw) in enumerate(plans):
        if n < start:
            continue
        if progress:
            progress(n, kw["timeout"])
        if be == "cvc5":
            r = _cvc5(hs, goal, **kw)
            if r == "unsat":
                return (PROVED, "cvc5", time.time() - t0, None)
            if r == "sat" and hs is hyps:
                refuted = "cvc5"
            continue
        try:
            r, s = _z3(hs, goal, kw.get("timeout"), kw.get("opts"), be == "nlsat")
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return (PROVED, "z3" if be == "z3" else "z3-nlsat", time.time() - t0, None)
        if r == z3.sat:
            # a model of the relevant slice may violate dropped facts: confirm on all
            if len(hs) == len(hyps):
                try:
                    model = str(s.model())[:20000]
                except z3.Z3Exception:
                    model = None
                return (FAILED, be, time.time() - t0, model)
            if progress:
                progress(n, T)
            try:
                r2, s2 = _z3(hyps, goal, T)
            except z3.Z3Exception:
                continue
            if r2 == z3.sat:
                return (FAILED, "z3", time.time() - t0, str(s2.model())[:20000])
            if r2 == z3.unsat:
                return (PROVED, "z3", time.time() - t0, None)
    return (UNKNOWN, "none", time.time() - t0, None)


AFTER_FAILURE = 150         # seconds left for the rest of a function once an obligation is not discharged


def run_all(obls, T=10.0, workers=None, budget=None):
    """discharge every obligation; returns list of results aligned with obls"""
    workers = workers or min(8, max(1, os.cpu_count() or 4))
    res = [None] * len(obls)
    todo = []
    for i, o in enumerate(obls):
        if o.pc is None:
            res[i] = (PROVED, "simplifier", 0.0, None)
        else:
            todo.append(i)
    if not todo:
        return res
    # identical obligations are solved once
    key = {}
    rep = {}
    for i in todo:
        k = (obls[i].goal.get_id(), tuple(sorted(h.get_id() for h in obls[i].pc)))
        rep[i] = key.setdefault(k, i)
    uniq = sorted(set(rep.values()))
    t_end = time.time() + budget if budget else None
    pending = list(uniq)
    start = {}                  # first attempt still to be made, where an earlier one hung
    running = {}
    ch = max(1, min(8, len(uniq) // (workers * 3) + 1))

    def child(batch, w):
        def say(x):
            os.write(w, (json.dumps(x) + "\n").encode())
        tb = time.time()
        for i in batch:
            if time.time() - tb > 4:
                break               # leave the rest to the other workers
            try:
                x = discharge(obls[i], T, start.get(i, 0), lambda n, t: say([i, n, t]))
            except Exception as e:
                x = (UNKNOWN, "error:" + repr(e)[:200], 0.0, None)
            say([i, list(x)])

    class Job:
        pass
    while pending or running:
        while pending and len(running) < workers:
            batch, pending = pending[:ch], pending[ch:]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    child(batch, w)
                finally:
                    os._exit(0)
            os.close(w)
            j = running[r] = Job()
            j.pid, j.batch, j.buf, j.limit, j.at, j.got = pid, batch, b"", time.time() + 60, None, 0
        rl, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in list(running):
            j = running[fd]
            ended = killed = False
            if fd in rl:
                b = os.read(fd, 1 << 20)
                ended = not b
                j.buf += b
                *lines, j.buf = j.buf.split(b"\n")
                for l in lines:
                    m = json.loads(l)
                    if len(m) == 3:
                        j.at, j.limit = (m[0], m[1]), now + 1.5 * m[2] + 8
                        continue
                    res[m[0]] = tuple(m[1])
                    j.got, j.at, j.limit = j.got + 1, None, now + 60
                    if m[1][0] != PROVED and t_end:
                        t_end = min(t_end, now + AFTER_FAILURE)
            if not ended and (now > j.limit or t_end and now > t_end):
                os.kill(j.pid, signal.SIGKILL)
                ended = killed = True
            if not ended:
                continue
            os.close(fd)
            os.waitpid(j.pid, 0)
            del running[fd]
            left = [i for i in j.batch if res[i] is None]
            if killed and j.at and j.at[0] in left and not (t_end and now > t_end):
                start[j.at[0]] = j.at[1] + 1        # the solver does not keep to its time limit: go on with the next attempt
                pending = left + pending
            elif j.got and not killed:
                pending = left + pending
            else:
                for i in left:
                    res[i] = (UNKNOWN, "killed", 0.0, None)
        if t_end and now > t_end:
            for i in pending:
                res[i] = (UNKNOWN, "budget", 0.0, None)
            pending = []
    for i in todo:
        if res[i] is None:
            res[i] = res[rep[i]]
    return res
