"""Contracts on the real functions, and their verification / application."""
import time
import z3
from .shapes import *
from . import core
from .core import Exec, PathEnd, ReturnEx, ThrowEx, Restart, Frame, real, ival, coerce, MapElt
from .models import Lib
from . import solve

LIB = Lib()


class Ctx:
    """view of one activation of a contracted function"""

    def __init__(self, ex, fn, this, args, pre):
        self.ex = ex
        self.fn = fn
        self.this = this
        self.args = args
        self.pre = pre
        self.ret = None
        self.g = {}
        self.now = None

    # locations
    def m(self, name, base=None):
        b = base or self.this
        for k, s in b.shape.fields.items():
            if k.split("::")[-1] == name:
                return b.f(k, s)
        raise Unsupported("no member %s in %r" % (name, b.shape))

    def lv(self, x):
        if isinstance(x, str):
            return self.m(x)
        if isinstance(x, int):
            return self.args[x]
        return x

    def v(self, x):
        x = self.lv(x)
        return self.ex.load(x)

    def old(self, x):
        x = self.lv(x)
        if isinstance(x, LV):
            return self.ex.read(x, self.pre)
        return x

    # scalar terms
    def t(self, x):
        return self.v(x).lv[()]

    def ot(self, x):
        return self.old(x).lv[()]

    def len(self, x):
        return self.v(x).lv[("len",)]

    def olen(self, x):
        return self.old(x).lv[("len",)]

    def el(self, x, i, old=False):
        v = self.old(x) if old else self.v(x)
        return z3.Select(v.lv[("el",)], i)

    def a(self, i):
        """value of argument i at entry"""
        x = self.args[i]
        if isinstance(x, LV):
            return self.ex.read(x, self.pre)
        return self.ex.load(x)

    def at(self, i):
        return self.a(i).lv[()]

    def calls(self, name):
        """contexts of the calls made so far to a callee under contract"""
        return [c for n, c in self.ex.calls if n == name]

    @property
    def r(self):
        return self.ex.load(self.ret)

    @property
    def rt(self):
        return self.r.lv[()]

    def same(self, x):
        """location unchanged since entry"""
        return self.ex.eq(self.v(x), self.old(x))


class Spec:
    """contract of one function of /repo"""

    def __init__(self, qn, pre=None, post=None, raises=None, frame=None, loops=None, params=None, dyn=None, use=(), setup=None,
                 ret=None, name=None, file=None, T=10.0, maxpaths=400, divcheck=False, intcheck=False, statics=None, globals=None,
                 new_hook=None, known_dyn=(), aux=None, autoinv=True, inline_ok=True, after_loop=None, noexcept=False, must_return=True,
                 alias=False, unrollmax=40, ghost=None, axioms=None, hints=None, mergeconds=False):
        self.mergeconds = mergeconds
        self.qn = qn
        self.name = name or qn.replace("diffpy::srreal::", "").replace("diffpy::", "")
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.raises = raises
        self.noexcept = noexcept
        self.frame = frame
        self.loops = loops
        self.params = params
        self.dyn = dyn
        self.use = list(use)
        self.setup = setup
        self.retshape = ret
        self.file = file
        self.T = T
        self.maxpaths = maxpaths
        self.divcheck = divcheck
        self.intcheck = intcheck
        self.statics = statics or {}
        self.globals = globals or {}
        self.new_hook_ = new_hook
        self.known_dyn = set(known_dyn)
        self.autoinv = autoinv
        self.after_loop_ = after_loop
        self.must_return = must_return
        self.unrollmax = unrollmax
        self.axioms = axioms
        self.hints = hints or {}
        self.assume_only = False

    # -- use as a callee contract
    def matches(self, fd):
        if fd.qn != self.qn and not (self.qn.endswith("*") and fd.qn.startswith(self.qn[:-1])):
            return False
        if getattr(self, "constm", None) not in (None, bool(fd.const)):
            return False
        if self.params is not None:
            if len(self.params) != len(fd.params):
                return False
            return all(p[1:] == t.s if p.startswith("=") else p in t.s for p, t in zip(self.params, fd.params))
        return True

    def apply(self, ex, call):
        fd = call.fd
        pre = ex.snapshot()
        c = Ctx(ex, fd, call.this, call.args, pre)
        h = ex.unit.spec.hints.get(self.name)
        if h:
            for x in h(ex.unit.ctx, c):
                emit(ex, "at call of %s: " % self.name, x)
        for nm, f in self.pre(c):
            ex.check("precondition of %s: %s" % (self.name, nm), f, "precondition")
        if self.raises is not None and getattr(self, "mayraise", None):
            cond = self.mayraise(c)
            if ex.decide(cond):
                for nm, f in self.raises(c, None) or []:
                    ex.assume(f)
                raise ThrowEx("std::exception")
        fr = self.frame(c) if self.frame else []
        for lv in fr:
            ex.havoc(lv)
        rs = ex.st.of(fd.ret)
        if rs.kind in ("void", "opaque"):
            c.ret = V(rs, {})
        else:
            c.ret = ex.freshV(rs, "ret:" + self.name.split("::")[-1])
        for x in self.post(c):
            ex.assume(x[1])
        ex.calls.append((self.name, c))
        rv = c.ret
        if fd.ret.k == "r":
            rv = ex.tmp(c.ret, "ret")
        return rv


def emit(ex, prefix, x):
    """(name, formula) | ("lemma...", formula) used by what follows | (name, formula, hyps[, abstracted terms])"""
    if len(x) > 2:
        ex.lemma(prefix + x[0], x[1], x[2], x[3] if len(x) > 3 else ())
        return
    ex.oblige(prefix + x[0], x[1], "post")
    if x[0].startswith("lemma"):
        ex.assume(x[1])


class Assumed(Spec):
    """contract of a dependency that is assumed, not proved here (trusted)"""

    def __init__(self, *a, **k):
        Spec.__init__(self, *a, **k)
        self.assume_only = True


class Custom:
    """callee contract given as a function (ex, call) -> value"""

    def __init__(self, qn, fn, params=None, trusted=None, name=None):
        self.qn = qn
        self.fn = fn
        self.params = params
        self.trusted = trusted
        self.name = name or qn

    matches = Spec.matches

    def apply(self, ex, call):
        return self.fn(ex, call)


class Unit:
    """what the executor needs to know while verifying one Spec"""

    def __init__(self, spec, env):
        self.spec = spec
        self.env = env
        self.maxpaths = spec.maxpaths
        self.statics = spec.statics
        self.globals = spec.globals
        self.dyn = spec.dyn
        self.known_dyn = spec.known_dyn
        self.intcheck = spec.intcheck
        self.divcheck = spec.divcheck
        self.ctx = None
        self.trusted = set()

    def contract_for(self, ex, fd, this, qual):
        for s in self.spec.use:
            if s.matches(fd) and not (s is self.spec and not ex.frames):
                if isinstance(s, Spec) and s.assume_only:
                    self.trusted.add("assumed contract: " + s.name)
                if isinstance(s, Custom) and s.trusted:
                    self.trusted.add("assumed contract: %s (%s)" % (s.name, s.trusted))
                return lambda ex, call, s=s: s.apply(ex, call)
        return None

    def new_hook(self, ex, ty, init):
        return self.spec.new_hook_(ex, ty, init) if self.spec.new_hook_ else None

    def after_loop(self, lctx):
        return self.spec.after_loop_(self.ctx, lctx) if self.spec.after_loop_ else []

    def mergeconds(self):
        return self.spec.mergeconds

    def loop_inv(self, lctx):
        spec = self.spec

        def inv(l):
            out = []
            if spec.loops:
                for x in spec.loops(self.ctx, l) or []:
                    out.append(x if len(x) == 3 else (x[0], x[1], False))
            if spec.autoinv:
                out += autocands(self.ctx, l)
            return out
        return inv


def autocands(c, l):
    """candidate invariants proposed for every loop (kept only if inductive)"""
    ex = l.ex
    out = []
    ctrs = l.counters()
    ints = []
    for nm, t, t0 in ctrs:
        out.append(("%s >= entry" % nm, t >= t0, True))
        out.append(("%s <= entry" % nm, t <= t0, True))
        out.append(("%s >= 0" % nm, t >= 0, True))
    # bounds by container lengths / other integer locals
    seqs = []
    for root, m in list(ex.mem.items()):
        for p, t in list(m.items()):
            if p and p[-1] in ("len", "n") and z3.is_expr(t) and t.sort() == z3.IntSort() and (root, p) not in l.mods:
                seqs.append((root.split("@")[0] + "." + ".".join(p), t))
    loc = []
    for fr in ex.frames[-1:]:
        for n, lv in fr.names.items():
            if isinstance(lv, LV) and lv.shape.kind == "scalar" and lv.shape.s == "I" and (lv.root, lv.static()) not in l.mods:
                t = ex.mem.get(lv.root, {}).get(lv.static())
                if t is not None and not lv.idxs():
                    loc.append((n, t))
            if isinstance(lv, LV) and lv.shape.kind == "iter":
                t = ex.mem.get(lv.root, {}).get(lv.static() + ("idx",))
                if t is not None and (lv.root, lv.static() + ("idx",)) not in l.mods and z3.is_expr(t) and not lv.idxs():
                    loc.append((n + ".idx", t))
    bounds = []
    seen = set()
    for nm, t in loc + seqs:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            bounds.append((nm, t))
    for nm, t, t0 in ctrs:
        for bn, b in bounds[:14]:
            out.append(("%s <= %s" % (nm, bn), t <= b, True))
    # linear relations between counters
    for i in range(len(ctrs)):
        for j in range(i):
            a, b = ctrs[i], ctrs[j]
            out.append(("%s - %s const" % (a[0], b[0]), a[1] - a[2] == b[1] - b[2], True))
            out.append(("%s + %s const" % (a[0], b[0]), a[1] - a[2] == -(b[1] - b[2]), True))
            if len(ctrs) <= 5:
                out.append(("%s <= %s" % (a[0], b[0]), a[1] - a[2] <= b[1] - b[2], True))
                out.append(("%s <= %s" % (b[0], a[0]), b[1] - b[2] <= a[1] - a[2], True))
    if len(out) > 120:
        out = out[:120]
    return out


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.status = "?"
        self.obls = []        # (name, kind, line, status, backend, secs, model)
        self.reason = ""
        self.wall = 0.0
        self.paths = 0
        self.inlined = set()
        self.assumed = set()
        self.contracts = set()
        self.trusted = set()
        self.file = None
        self.line = None


def find_fn(prog, spec):
    fs = prog.find(spec.qn, spec.params)
    if getattr(spec, "constm", None) is not None:
        fs = [f for f in fs if bool(f.fd.const) == spec.constm]
    fs = [f for f in fs if f.body is not None]
    if spec.file:
        fs = [f for f in fs if f.file.endswith(spec.file)]
    if not fs:
        raise Unsupported("function %s not found in the sources" % spec.qn)
    if len(fs) > 1:
        raise Unsupported("function %s is ambiguous (%s)" % (spec.qn, [str(f.fd) for f in fs]))
    return fs[0]


def verify(prog, spec, workers=None, budget=None, log=None):
    res = Result(spec)
    t0 = time.time()
    try:
        _verify(prog, spec, res, workers, budget, log)
    except Unsupported as e:
        res.status = "unsupported"
        res.reason = str(e)
    except RecursionError:
        res.status = "unsupported"
        res.reason = "recursion limit in the verifier"
    except z3.Z3Exception as e:
        res.status = "unsupported"
        res.reason = "term construction: " + str(e)[:300]
    except (KeyError, AttributeError, IndexError, TypeError, AssertionError, NotImplementedError) as e:
        import traceback
        res.status = "unsupported"
        res.reason = "verifier internal: %r %s" % (e, traceback.format_exc()[-1200:])
    res.wall = time.time() - t0
    return res


def _verify(prog, spec, res, workers, budget, log):
    t00 = time.time()
    fn = find_fn(prog, spec)
    res.file, res.line = fn.file, fn.line
    unit = Unit(spec, None)
    ex = Exec(prog, unit)
    ex.lib = LIB
    ex.unrollmax = spec.unrollmax
    ex.restarts = 0
    returned = [0]

    def run():
        ex.reset()
        if spec.axioms:
            for f in spec.axioms():
                ex.assume(f)
        this = None
        if fn.fd.cls is not None and not fn.fd.static:
            cls = spec.dyn or fn.fd.cls.s
            if cls in prog.records:
                sh = ex.st.record(cls)
            else:
                sh = ex.st.of(fn.fd.cls)
            this = LV("this", (), sh)
        args = []
        for i, p in enumerate(fn.params):
            ty = fn.tu.types[p["t"]]
            s = ex.st.of(ty)
            if ty.k == "r" or s.kind in ("struct", "seq", "map", "opaque"):
                args.append(LV("arg%d" % i, (), s))
            else:
                v = V(s, {q: z3.Const("arg%d%s" % (i, "." + ".".join(q) if q else ""), so) for q, so in s.leaves()})
                args.append(v)
        c = Ctx(ex, fn, this, args, ex.mem0)
        unit.ctx = c
        ex.frames = [Frame(fn, this, fn.tu)]
        if spec.setup:
            spec.setup(c)
            c.pre = {r: dict(m) for r, m in ex.mem.items()}
            ex.snaps.append(c.pre)
        ex.frames = []
        for nm, f in spec.pre(c):
            ex.assume(f)
        ex.writes = set()
        ex.wlog = []
        try:
            c.ret = ex.run_body(fn, this, args)
            c.exc = None
        except PathEnd:
            return
        except ThrowEx as e:
            c.exc = e.typ
            if spec.noexcept:
                ex.oblige("no exception (%s)" % e.typ, z3.BoolVal(False), "exception")
            elif spec.raises is not None:
                for nm, f in spec.raises(c, e.typ) or []:
                    ex.oblige("raises: " + nm, f, "raises")
            return
        returned[0] += 1
        ex.frames = [Frame(fn, this, fn.tu)]
        for x in spec.post(c):
            emit(ex, "ensures: ", x)
        if spec.frame is not None:
            check_frame(ex, spec, c)
        ex.frames = []

    maxit = 25
    T = spec.T
    for it in range(maxit):
        ex.obls = []
        ex.npaths = 0
        returned[0] = 0
        while True:
            try:
                ex.explore(run)
                break
            except Restart:
                ex.restarts += 1
                if ex.restarts > 200:
                    raise Unsupported("too many restarts")
                ex.obls = []
                ex.npaths = 0
                returned[0] = 0
                ex.dry = 0
        cands = [o for o in ex.obls if o.cand is not None]
        if not cands:
            break
        rr = solve.run_all(cands, T=min(1.5, T), workers=workers)
        drop = set(o.cand for o, r in zip(cands, rr) if r[0] != solve.PROVED)
        if log:
            log("  houdini %d: %d candidates, dropping %d" % (it, len(set(o.cand for o in cands)), len(drop)))
        if not drop:
            break
        ex.dropped |= drop
    else:
        raise Unsupported("invariant inference does not converge")
    obls = ex.obls
    rr = solve.run_all(obls, T=T, workers=workers, budget=budget)
    again = [i for i, r in enumerate(rr) if r[0] == solve.UNKNOWN and r[1] != "budget"]
    if again and len(again) <= 8 and (budget is None or time.time() - t00 < budget * 0.6):
        r2 = solve.run_all([obls[i] for i in again], T=T * 3, workers=workers, budget=budget and max(5, budget - (time.time() - t00)))
        for i, r in zip(again, r2):
            rr[i] = r
    for o, r in zip(obls, rr):
        res.obls.append((o.name, o.kind, o.line, r[0], r[1], r[2], r[3]))
    res.raw = obls
    res.ex = ex
    res.paths = ex.npaths
    res.inlined, res.assumed, res.contracts, res.trusted = ex.inlined, ex.assumed, ex.contracts_used, unit.trusted
    if spec.must_return and returned[0] == 0:
        raise Unsupported("no path reaches the normal exit (vacuous)")
    st = [x[3] for x in res.obls]
    if all(s == solve.PROVED for s in st):
        res.status = "proved"
    elif any(s == solve.FAILED for s in st):
        res.status = "refuted"
    else:
        res.status = "unknown"


def check_frame(ex, spec, c):
    allowed = [(lv.root, lv.static()) for lv in spec.frame(c)]
    done = set()
    for root, path in sorted(ex.writes, key=repr):
        if root.startswith("%") or root.startswith("$static") or (root, path) in done:
            continue
        if root.startswith("arg") and not isinstance(c.args[int(root[3:])], LV):
            continue
        done.add((root, path))
        if any(root == r and path[:len(p)] == p for r, p in allowed):
            continue
        if path and path[-1] in ("ord", "pos"):
            continue
        new = ex.mem.get(root, {}).get(path)
        old = c.pre.get(root, {}).get(path)
        if new is None or old is None:
            continue
        if not z3.is_expr(new) or not z3.is_expr(old):
            if new is not old:
                ex.oblige("frame: %s.%s unchanged" % (root, ".".join(path)), z3.BoolVal(isinstance(new, PyPtr) and isinstance(old, PyPtr) and new.lv.same(old.lv)), "frame")
            continue
        ex.oblige("frame: %s.%s unchanged" % (root, ".".join(path)), new == old, "frame")
