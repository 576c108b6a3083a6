"""Symbolic executor / verification-condition generator over the extracted AST.

Forward symbolic execution with path exploration by replay; loops are cut by
invariants; calls go to (1) the callee's contract, (2) a trusted library model,
(3) the callee's own extracted body (inlined).  Every proof obligation is
recorded with its path condition and discharged by an SMT solver (see solve.py).
"""
import z3, itertools
from fractions import Fraction
from .shapes import *
from . import shapes as sh


class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    def __init__(self, typ):
        self.typ = typ


class MapElt:
    """*iterator of a map: (container, key)"""

    def __init__(self, cont, key):
        self.cont = cont
        self.key = key


class Closure:
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class FnVal:
    def __init__(self, fd):
        self.fd = fd


def real(x):
    if isinstance(x, (int, float, Fraction)):
        return z3.RealVal(Fraction(x))
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    return x


def ival(n):
    return z3.IntVal(n)


class Frame:
    def __init__(self, fn, this, tu):
        self.fn = fn
        self.this = this
        self.tu = tu
        self.env = {}
        self.names = {}      # debug name -> LV (latest)


class Obl:
    __slots__ = ("name", "pc", "goal", "kind", "line", "cand")

    def __init__(self, name, pc, goal, kind, line, cand=None):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.line = line
        self.cand = cand


class Exec:
    def __init__(self, prog, unit):
        self.prog = prog
        self.st = ShapeTable(prog)
        self.unit = unit
        self.lib = None           # set by models
        self.obls = []
        self.assumed = set()      # trusted models used
        self.inlined = set()
        self.contracts_used = set()
        self.covers = []
        self.nfresh = 0
        self.dry = 0
        self.loop_mods = {}
        self.dropped = set()      # Houdini: dropped candidate names
        self.maxpaths = unit.maxpaths
        self.npaths = 0
        self.feas_timeout = 400
        self.lastline = 0
        self.unrollmax = 40
        self.nounroll = set()
        self.leafsorts = {}
        self.DMAX = z3.Real("DBL_MAX")
        self.DINF = z3.Real("DBL_INF")

    # ---- path exploration -------------------------------------------------
    def explore(self, fn):
        """run fn() on every feasible path"""
        saved = (getattr(self, "prefix", None), getattr(self, "pos", None))
        work = [[]]
        n = 0
        while work:
            self.prefix = work.pop()
            self.pos = 0
            self.newalts = []
            n += 1
            if n > self.maxpaths:
                raise Unsupported("too many paths (%d)" % n)
            alts = []
            self._alts = alts
            fn()
            work.extend(alts)
        self.npaths += n
        self.prefix, self.pos = saved

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.assume(cond if d else z3.Not(cond))
            return d
        # new decision
        tf = self.feasible(cond)
        ff = self.feasible(z3.Not(cond))
        if tf and ff:
            self._alts.append(list(self.prefix) + [False])
            self.prefix = list(self.prefix) + [True]
            self.pos += 1
            self.assume(cond)
            return True
        if not tf and not ff:
            raise PathEnd()
        d = tf
        # record forced decisions too, to keep replay aligned
        self.prefix = list(self.prefix) + [d]
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return d

    def feasible(self, cond):
        s = z3.Solver()
        s.set("timeout", self.feas_timeout)
        for f in self.pc:
            if not has_quant(f):
                s.add(f)
        s.add(cond)
        return s.check() != z3.unsat

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)

    def oblige(self, name, goal, kind="safety", cand=None, line=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.dry:
            return
        g = z3.simplify(goal)
        o = Obl(name, list(self.pc), goal, kind, line or self.lastline, cand)
        if z3.is_true(g):
            o.pc = None
        self.obls.append(o)

    def lemma(self, name, goal, hyps=(), abs=(), kind="post"):
        """prove goal from hyps alone (each hypothesis is itself an obligation here), then use it.
        abs: terms replaced by fresh constants in that proof (a generalisation, so sound)"""
        if self.dry:
            self.assume(goal)
            return
        have = set(h.get_id() for h in self.pc)
        for i, h in enumerate(hyps):
            if isinstance(h, bool) or h.get_id() in have:
                continue
            self.oblige("%s: hypothesis %d" % (name, i), h, kind)
        g = z3.Implies(z3.And([h for h in hyps]), goal) if hyps else goal
        abs = [t for t in abs if not z3.is_rational_value(z3.simplify(t))]
        if abs:
            sub = [(t, z3.Const("abs!%d" % i, t.sort())) for i, t in enumerate(abs)]
            g = z3.substitute(g, *sub)
        hy, go = [], g
        if z3.is_implies(g):
            hy, go = ([g.arg(0)] if not z3.is_and(g.arg(0)) else list(g.arg(0).children())), g.arg(1)
        o = Obl(name, hy, go, kind, self.lastline, None)
        if z3.is_true(z3.simplify(g)):
            o.pc = None
        self.obls.append(o)
        self.assume(goal)

    def check(self, name, goal, kind="safety"):
        """assert-then-assume"""
        self.oblige(name, goal, kind)
        self.assume(goal)

    # ---- fresh terms ------------------------------------------------------
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    def freshV(self, shape, name="v"):
        v = V(shape, {p: self.fresh(name + "." + ".".join(p), so) for p, so in shape.leaves()})
        self.wf(v)
        return v

    def wf(self, v):
        """type facts of a fresh value (lengths are non-negative)"""
        for p, t in v.lv.items():
            if p and p[-1] in ("len", "n") and z3.is_int(t):
                self.assume(t >= 0)

    # ---- memory -----------------------------------------------------------
    def sort_at(self, so, idxs):
        for t in reversed(idxs):
            so = z3.ArraySort(t.sort(), so)
        return so

    def getleaf(self, root, path, sort):
        self.leafsorts[(root, path)] = sort
        m = self.mem.get(root)
        if m is None:
            m = self.mem[root] = {}
        t = m.get(path)
        if t is None:
            nm = root + "." + ".".join(path)
            t = z3.Const(nm, sort)
            if path and path[-1] in ("len", "n") and sort == z3.IntSort():
                self.pc.append(t >= 0)
            m[path] = t
            if self.mem0 is not None and self.mem0 is not m:
                self.mem0.setdefault(root, {}).setdefault(path, t)
            for snap in self.snaps:
                snap.setdefault(root, {}).setdefault(path, t)
        return t

    def read(self, lv, mem=None):
        st, idx = lv.static(), lv.idxs()
        out = {}
        for p, so in lv.shape.leaves():
            if mem is None:
                t = self.getleaf(lv.root, st + p, self.sort_at(so, idx))
            else:
                t = mem.get(lv.root, {}).get(st + p)
                if t is None:
                    # never touched: the initial value
                    save, self.mem = self.mem, mem
                    t = self.getleaf(lv.root, st + p, self.sort_at(so, idx))
                    self.mem = save
                    # a leaf unknown to the snapshot is unknown to all
            for i in idx:
                if not z3.is_expr(t):
                    raise Unsupported("indexed python leaf")
                t = z3.Select(t, i)
            out[p] = t
        return V(lv.shape, out)

    def write(self, lv, v):
        st, idx = lv.static(), lv.idxs()
        m = self.mem.setdefault(lv.root, {})
        if lv.shape is S:
            self.strroots.add((lv.root, st))
        for p, so in lv.shape.leaves():
            new = v.lv.get(p)
            if new is None:
                raise Unsupported("write of %r into %r (leaf %s)" % (v.shape, lv.shape, p))
            self.writes.add((lv.root, st + p))
            self.wlog.append((lv.root, st + p))
            self.leafsorts[(lv.root, st + p)] = self.sort_at(so, idx)
            if idx:
                if not z3.is_expr(new):
                    raise Unsupported("python pointer stored in a container")
                new = coerce(new, so)
                base = self.getleaf(lv.root, st + p, self.sort_at(so, idx))
                new = store_chain(base, idx, new)
            elif z3.is_expr(new):
                new = coerce(new, so)
            self.getleaf(lv.root, st + p, self.sort_at(so, idx)) if self.track_initial(lv.root) else None
            m[st + p] = new

    def writeleaf(self, lv, leaf, t):
        """write a single leaf of a container location"""
        so = dict(lv.shape.leaves())[leaf]
        st, idx = lv.static(), lv.idxs()
        base = self.getleaf(lv.root, st + leaf, self.sort_at(so, idx))
        m = self.mem[lv.root]
        self.writes.add((lv.root, st + leaf))
        self.wlog.append((lv.root, st + leaf))
        m[st + leaf] = store_chain(base, idx, t) if idx else t

    def track_initial(self, root):
        return not root.startswith("%")

    def havoc(self, lv, name=None):
        self.write(lv, self.freshV(lv.shape, name or str(lv.root) + "'"))

    def tmp(self, v, name="tmp"):
        self.nroot += 1
        root = "%%%s%d" % (name, self.nroot)
        lv = LV(root, (), v.shape)
        self.mem[root] = dict((p, t) for p, t in v.lv.items())
        if v.ghost is not None:
            self.ghost[("view", root)] = v.ghost
        return lv

    def snapshot(self):
        s = {r: dict(m) for r, m in self.mem.items()}
        self.snaps.append(s)
        return s

    # ---- values -----------------------------------------------------------
    def load(self, x):
        if isinstance(x, LV):
            v = self.read(x)
            if x.shape.kind == "opaque" and ("view", x.root) in self.ghost:
                v.ghost = self.ghost[("view", x.root)]
            return v
        if isinstance(x, MapElt):
            ks = x.cont.shape.k
            kl = unpackkey(ks, x.key)
            if x.cont.shape.v is None:
                return V(ks, kl)
            d = {("first",) + p: t for p, t in kl.items()}
            d.update({("second",) + p: t for p, t in self.read(x.cont.k(x.key)).lv.items()})
            return V(pair(ks, x.cont.shape.v), d)
        return x

    def tolv(self, x):
        if isinstance(x, LV):
            return x
        if isinstance(x, MapElt):
            return self.tmp(self.load(x))
        return self.tmp(x)

    def t(self, x):
        """scalar term of a value"""
        x = self.load(x)
        if () not in x.lv:
            raise Unsupported("scalar expected, got %r" % (x.shape,))
        return x.lv[()]

    def mk(self, shape, term):
        return V(shape, {(): term})

    def vR(self, t):
        return V(R, {(): real(t)})

    def vI(self, t):
        return V(I, {(): ival(t) if isinstance(t, int) else t})

    def vB(self, t):
        return V(B, {(): z3.BoolVal(t) if isinstance(t, bool) else t})

    def vS(self, t):
        return V(S, {(): strconst(t) if isinstance(t, str) else t})

    def eq(self, a, b):
        a, b = self.load(a), self.load(b)
        if a.shape.kind == "seq":
            i = z3.Int("i!eq%d" % self.bump())
            ea = [z3.Select(a.lv[p], i) == z3.Select(b.lv[p], i) for p, _ in a.shape.leaves() if p[0] == "el"]
            return z3.And(a.lv[("len",)] == b.lv[("len",)],
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.lv[("len",)]), z3.And(*ea))) if ea else z3.BoolVal(True))
        if a.shape.kind == "map":
            return z3.And(a.lv[("dom",)] == b.lv[("dom",)],
                          *[a.lv[p] == b.lv[p] for p, _ in a.shape.leaves() if p[0] == "val"])
        if a.shape.kind == "iter":
            return a.lv[("idx",)] == b.lv[("idx",)]
        cs = []
        for p, _ in a.shape.leaves():
            x, y = a.lv[p], b.lv.get(p)
            if y is None:
                raise Unsupported("eq of %r and %r" % (a.shape, b.shape))
            cs.append(self.leq(x, y))
        return z3.And(*cs) if len(cs) != 1 else cs[0]

    def leq(self, x, y):
        if isinstance(x, PyPtr) or isinstance(y, PyPtr):
            if isinstance(x, PyPtr) and isinstance(y, PyPtr):
                return self.sameloc(x.lv, y.lv)
            o = y if isinstance(x, PyPtr) else x
            if z3.is_int_value(o) and o.as_long() == 0:
                return z3.BoolVal(False)
            # a known local location vs. an unknown reference: separation
            return z3.BoolVal(False)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            x, y = real(x), real(y)
        return x == y

    def sameloc(self, a, b):
        if a.root != b.root or a.static() != b.static():
            return z3.BoolVal(False)
        cs = [i == j for i, j in zip(a.idxs(), b.idxs())]
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def bump(self):
        self.nfresh += 1
        return self.nfresh

    # ---- pointers ---------------------------------------------------------
    def deref(self, pv, toshape=None, what="pointer"):
        pv = self.load(pv)
        if pv.shape.kind == "iter":
            return self.lib.iderefs(self, pv)
        p = pv.lv[()]
        if isinstance(p, PyPtr):
            return p.lv
        if isinstance(p, (Closure, FnVal)):
            raise Unsupported("deref of function")
        self.check("non-null " + what, p != 0)
        to = pv.shape.to
        s = toshape or (self.st.of(to) if to is not None else Opaque("?"))
        return LV("$heap", (("i", p),), s)

    # ---- running a function ------------------------------------------------
    def reset(self):
        self.mem = {}
        self.mem0 = {}
        self.snaps = []
        self.pc = []
        self.writes = set()
        self.wlog = []
        self.strroots = set()
        self.nroot = 0
        self.nfresh = 0
        self.frames = []
        self.loopno = 0
        self.depth = 0
        self.ghost = {}
        self.refmembers = {}
        self.closures = {}
        self.glob_inited = set()
        self.static_inited = set()
        self.noloop = False
        self.known_key = {}
        self.mapfact_done = {}
        self.keepalive = []
        self.proxies = {}
        self.curexc = None
        self.calls = []
        self.assume(self.DMAX == z3.RealVal(2**1024 - 2**971))
        self.assume(self.DINF > self.DMAX)

    def run_body(self, fn, this, args):
        """execute the extracted body of fn; args: list of LV (refs) / V (values)"""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("call depth")
        fr = Frame(fn, this, fn.tu)
        for p, a in zip(fn.params, args):
            ty = fn.tu.types[p["t"]]
            self.bind(fr, p, ty, a)
        self.frames.append(fr)
        try:
            if fn.fd.ctor:
                self.ctor_inits(fn, this)
            self.stmt(fn.body)
            rv = None
        except ReturnEx as e:
            rv = e.v
        finally:
            self.frames.pop()
            self.depth -= 1
        return rv

    def bind(self, fr, p, ty, a):
        if ty.k == "r":
            lv = a if isinstance(a, (LV, MapElt)) else self.tmp(self.convert(a, self.st.of(ty)), p["n"] or "arg")
        else:
            v = self.convert(self.load(a), self.st.of(ty))
            lv = self.tmp(v, p["n"] or "arg")
        fr.env[p["id"]] = lv
        if p["n"]:
            fr.names[p["n"]] = lv

    def convert(self, v, shape):
        if v.shape.kind == "scalar" and shape.kind == "scalar" and v.shape is not shape:
            return V(shape, {(): coerce(v.lv[()], shape.sort)})
        return v

    @property
    def fr(self):
        return self.frames[-1]

    def ctor_inits(self, fn, this):
        for i in fn.inits:
            if i.get("deleg"):
                self.construct_into(this, i["e"])
            elif "base" in i:
                bty = fn.tu.types[i["base"]]
                b = LV(this.root, this.path, self.st.of(bty)) if this.shape.kind == "struct" and bty.s in self.prog.records else this
                e = i["e"]
                if bty.s not in self.prog.records and b.shape.kind not in ("struct", "seq"):
                    continue
                if bty.s not in self.prog.records:
                    if b.shape in (V3, M3) or b.shape.kind in ("seq",):
                        self.construct_into(b, e)
                    continue
                self.construct_into(b, e)
            else:
                cls = short(fn.fd.clsn)
                key = cls + "::" + i["fld"]
                fsh = this.shape.fields.get(key)
                if fsh is None:
                    raise Unsupported("field init " + key)
                if fsh.kind == "opaque":
                    continue
                # reference members alias
                rec = self.prog.records.get(fn.fd.cls.s)
                ft = dict(rec.fields).get(i["fld"]) if rec else None
                if ft is not None and ft.k == "r":
                    tgt = self.lval(i["e"])
                    self.refmembers[(this.root, this.static(), key)] = tgt
                    continue
                self.construct_into(this.f(key, fsh), i["e"])

    def construct_into(self, lv, e):
        """initialise location lv from initialiser expression e"""
        e0 = e
        while e0 and e0["k"] in ("MTE", "CXXDefaultInitExpr", "CXXDefaultArgExpr"):
            e0 = e0["c"][0]
        if e0 is None:
            return
        if e0["k"] == "CXXConstructExpr":
            fd = self.fr.tu.fdescs[e0["f"]]
            if not fd.copy and lv.shape.kind == "struct" and lv.shape not in (V3, M3):
                body = self.prog.body_of(fd)
                con = self.unit.contract_for(self, fd, lv, False)
                if con is not None:
                    self.contracts_used.add(fd.qn)
                    self.assign(lv, self.zero(lv.shape, undef=True))
                    con(self, Call(fd, lv, self.args_for(fd, e0.get("c", [])), e0))
                    return
                if body is not None and not fd.implicit:
                    args = self.args_for(fd, e0.get("c", []))
                    self.inlined.add(fd.qn)
                    self.run_body(body, LV(lv.root, lv.path, self.dynshape(lv, fd)), args)
                    return
                if fd.defctor:
                    self.default_init(lv, fd.cls)
                    return
        v = self.load(self.ev(e))
        self.assign(lv, v)

    def dynshape(self, lv, fd):
        return lv.shape

    def default_init(self, lv, ty):
        """default construction of a record without a user constructor body in reach"""
        shp = lv.shape
        rec = self.prog.records.get(ty.s) if ty is not None else None
        if rec is not None:
            fn = None
            for b in rec.bases:
                if b.s in self.prog.records:
                    self.default_init_class(LV(lv.root, lv.path, self.st.of(b)), b)
            for f, ft in rec.fields:
                key = short(rec.name) + "::" + f
                fs = self.st.of(ft)
                flv = lv.f(key, fs)
                if ft.s in self.prog.records:
                    self.default_init_class(flv, ft)
                else:
                    self.assign(flv, self.zero(fs, undef=True))
            return
        self.assign(lv, self.zero(shp, undef=True))

    def default_init_class(self, lv, ty):
        ctors = [f for q in [ty.n + "::" + short(ty.n)] for f in self.prog.byqn.get(q, []) if f.fd.defctor and f.fd.cls.s == ty.s]
        if ctors and not ctors[0].fd.implicit:
            self.inlined.add(ctors[0].fd.qn)
            self.run_body(ctors[0], lv, [])
        else:
            self.default_init(lv, ty)

    def zero(self, shape, undef=False):
        """value-/default-initialised value"""
        k = shape.kind
        if k == "scalar":
            if undef:
                return V(shape, {(): self.fresh("undef", shape.sort)})
            return V(shape, {(): {"R": z3.RealVal(0), "I": z3.IntVal(0), "B": z3.BoolVal(False), "S": strconst("")}[shape.s]}) \
                if shape.s != "S" or True else None
        if k == "ptr":
            return V(shape, {(): z3.IntVal(0)})
        if k == "seq":
            d = {p: self.fresh("empty", so) for p, so in shape.leaves()}
            d[("len",)] = z3.IntVal(0)
            return V(shape, d)
        if k == "map":
            return self.emptymap(shape)
        if k == "struct":
            d = {}
            for f, s in shape.fields.items():
                u = undef and not (s.kind == "scalar" and s.s == "S")
                for p, t in self.zero(s, u).lv.items():
                    d[(f,) + p] = t
            return V(shape, d)
        if k == "iter":
            return V(shape, {("cont",): z3.IntVal(0), ("idx",): self.fresh("undef", z3.IntSort())})
        if k in ("opaque", "void"):
            return V(shape, {})
        raise Unsupported("zero of %r" % shape)

    def emptymap(self, shape):
        d = {p: self.fresh("emap", so) for p, so in shape.leaves()}
        d[("dom",)] = z3.K(keysort(shape.k), z3.BoolVal(False))
        d[("n",)] = z3.IntVal(0)
        return V(shape, d)

    def assign(self, lv, v):
        if isinstance(lv, MapElt):
            raise Unsupported("assignment to map element pair")
        v = self.convert(v, lv.shape)
        if lv.shape.kind == "opaque":
            return
        if v.shape.kind == "iter" and lv.shape.kind in ("iter", "ptr"):
            self.write(LV(lv.root, lv.path, v.shape), v)
            return
        if lv.shape.kind == "struct" and v.shape.kind == "struct" and v.shape is not lv.shape:
            # slicing / derived-to-base copies share field keys
            d = {p: t for p, t in v.lv.items()}
            for p, so in lv.shape.leaves():
                if p not in d:
                    raise Unsupported("assign %r <- %r" % (lv.shape, v.shape))
            v = V(lv.shape, {p: d[p] for p, _ in lv.shape.leaves()})
        self.write(lv, v)

    # ---- statements ---------------------------------------------------------
    def stmt(self, n):
        if n is None:
            return
        k = n["k"]
        self.lastline = n.get("l", self.lastline)
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n)
        return self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get("c", []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in n.get("vars", []):
            self.vardecl(v)

    def vardecl(self, v):
        ty = self.fr.tu.types[v["t"]]
        fr = self.fr
        if v.get("static"):
            root = "$static:%s:%s" % (fr.fn.fd.qn, v["n"])
            s = self.st.of(ty)
            fr.env[v["id"]] = LV(root, (), s)
            fr.names[v["n"]] = fr.env[v["id"]]
            h = self.unit.statics.get(v["n"]) or self.unit.statics.get("*" + repr(s))
            if h:
                h(self, fr.env[v["id"]])
            elif ty.const or self.static_is_const(v):
                if root not in self.static_inited:
                    self.static_inited.add(root)
                    self.init_var(fr.env[v["id"]], v, ty)
            return
        if ty.k == "r":
            x = self.lval(v["init"])
            fr.env[v["id"]] = x
        else:
            s = self.st.of(ty)
            self.nroot += 1
            root = "%%%s@%d" % (v["n"], self.nroot)
            lv = LV(root, (), s)
            self.mem[root] = {}
            fr.env[v["id"]] = lv
            self.init_var(lv, v, ty)
        if v["n"]:
            fr.names[v["n"]] = fr.env[v["id"]]

    def static_is_const(self, v):
        """a function-local static that is initialised and only ever read"""
        if v.get("init") is None:
            return False
        vid = v["id"]
        bad = []

        def walk(n, ctx):
            if isinstance(n, list):
                for c in n:
                    walk(c, ctx)
                return
            if not isinstance(n, dict):
                return
            if n.get("k") == "DeclRefExpr" and n.get("d", {}).get("id") == vid:
                if ctx not in ("rd",):
                    bad.append(n)
                return
            k = n.get("k")
            c2 = None
            if k in ("ImplicitCastExpr", "CXXStaticCastExpr") and n.get("ck") in ("LValueToRValue",):
                c2 = "rd"
            elif k == "ImplicitCastExpr" and n.get("ck") == "NoOp" and self.fr.tu.types[n["t"]].const:
                c2 = "rd"
            elif k == "ReturnStmt":
                rt = self.fr.fn.fd.ret
                if not (rt.k == "r" and not rt.to.const):
                    c2 = "rd"
            elif k == "CXXConstructExpr" and "f" in n and self.fr.tu.fdescs[n["f"]].copy:
                c2 = "rd"
            for x in n.values():
                if isinstance(x, (list, dict)):
                    walk(x, c2)
        walk(self.fr.fn.body, None)
        return not bad

    def init_var(self, lv, v, ty):
        init = v.get("init")
        if init is None:
            if lv.shape.kind in ("opaque",):
                return
            self.assign(lv, self.zero(lv.shape, undef=True))
            return
        e0 = init
        if e0["k"] == "CXXConstructExpr" and not e0.get("c") and lv.shape.kind in ("scalar",) and lv.shape.s != "S":
            self.assign(lv, self.zero(lv.shape, undef=True))
            return
        if lv.shape.kind == "opaque":
            try:
                x = self.ev(init)
                if isinstance(x, V) and getattr(x, "ghost", None) is not None:
                    self.ghost[("view", lv.root)] = x.ghost
                elif isinstance(x, V) and x.lv:
                    self.mem[lv.root] = dict(x.lv)
                    self.fr.env[v["id"]] = LV(lv.root, (), x.shape)
                    self.closures[lv.root] = x
            except Unsupported:
                if lv.shape.n.startswith("(lambda"):
                    raise
            return
        if lv.shape.kind in ("ptr", "iter"):
            x = self.load(self.ev(init))
            if x.shape.kind == "iter":
                lv2 = LV(lv.root, (), x.shape)
                self.fr.env[v["id"]] = lv2
                self.write(lv2, x)
                return
            self.assign(lv, x)
            return
        self.construct_into(lv, init)

    def s_IfStmt(self, n):
        if n.get("init"):
            self.stmt(n["init"])
        if n.get("var"):
            self.stmt(n["var"])
        c, th, el = n["c"]
        if not self.noloop and not n.get("var") and self.simple_stmt(th) and (el is None or self.simple_stmt(el)) and self.merge_if(c, th, el):
            return
        if self.cond(c):
            self.stmt(th)
        else:
            self.stmt(el)

    MERGEABLE = ("CompoundStmt", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "DeclRefExpr", "MemberExpr", "ImplicitCastExpr", "ParenExpr",
                 "CXXThisExpr", "IntegerLiteral", "CXXBoolLiteralExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "ExprWithCleanups", "IfStmt")

    def simple_stmt(self, n):
        """a branch that only sets a few scalar variables: both outcomes are joined instead of explored separately"""
        if n is None:
            return True
        todo, k = [n], 0
        while todo:
            x = todo.pop()
            if x is None:
                continue
            k += 1
            if k > 16 or x.get("k") not in self.MERGEABLE:
                return False
            todo.extend(x.get("c", []))
            if x.get("init") or x.get("var"):
                return False
        return True

    def merge_if(self, c, th, el):
        t = self.pure(c, z3.BoolVal(True))
        if t is None:
            return False
        t = self.boolterm(t)
        ts = z3.simplify(t)
        if z3.is_true(ts) or z3.is_false(ts):
            self.stmt(th if z3.is_true(ts) else el)
            return True
        pre = self.snapshot_state()
        a = self.branch(th, t)
        if a is None:
            self.restore_state(pre)
            return False
        b = self.branch(el, z3.Not(t))
        if b is None:
            self.restore_state(pre)
            return False
        ma, mb = a, b
        for r in sorted(set(ma) | set(mb)):
            xa, xb = ma.get(r), mb.get(r)
            if xa is None or xb is None:
                if r.startswith("%") and r not in pre[0]:
                    self.mem.setdefault(r, dict(xa or xb or {}))
                    continue
                self.restore_state(pre)
                return False
            cur = {}
            for pth in set(xa) | set(xb):
                u, v = xa.get(pth), xb.get(pth)
                if u is None or v is None:
                    w = u if v is None else v
                    base = self.getleaf(r, pth, w.sort()) if z3.is_expr(w) else None
                    u, v = (base if u is None else u), (base if v is None else v)
                if u is v or (z3.is_expr(u) and z3.is_expr(v) and u.eq(v)):
                    cur[pth] = u
                    continue
                if not z3.is_expr(u) or not z3.is_expr(v) or u.sort() != v.sort() or u.sort().kind() not in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT):
                    self.restore_state(pre)
                    return False
                if r.startswith("%") and u.sort().kind() == z3.Z3_INT_SORT and (r, pth) not in self.strroots:
                    # local counters and indices are explored separately
                    self.restore_state(pre)
                    return False
                cur[pth] = z3.If(t, u, v)
            self.mem[r] = cur
        return True

    def branch(self, node, guard):
        """run a branch without forking; the memory after it (memory itself is reset), facts are kept guarded"""
        mem0 = {r: dict(m) for r, m in self.mem.items()}
        alts, prefix, pos = self._alts, self.prefix, self.pos
        self._alts = []
        closures, frames, depth, loops = dict(self.closures), list(self.frames), self.depth, self.noloop
        names = [dict(f.names) for f in frames]
        self.noloop = True
        ncalls, kk = len(self.calls), dict(self.known_key)
        prevdec = self.__dict__.get("decide")
        prevmerge = self.__dict__.get("merge_if")

        class Fork(Exception):
            pass

        def nodecide(c):
            s = z3.simplify(c)
            if z3.is_true(s) or z3.is_false(s):
                return z3.is_true(s)
            raise Fork()
        self.decide = nodecide
        ok = True
        self.pc.append(guard)
        pcn = len(self.pc)
        try:
            if node is not None:
                self.stmt(node)
            ok = len(self.calls) == ncalls
        except (Fork, ThrowEx, PathEnd, Unsupported, Restart, BreakEx, ContinueEx, ReturnEx):
            ok = False
        finally:
            if prevdec is None:
                del self.decide
            else:
                self.decide = prevdec
            self.noloop = loops
            self._alts, self.prefix, self.pos = alts, prefix, pos
            self.frames, self.depth, self.closures = frames, depth, closures
            for f, nm in zip(frames, names):
                f.names = nm
            self.known_key = kk
        if not ok:
            del self.calls[ncalls:]
            return None
        extra = self.pc[pcn:]
        del self.pc[pcn - 1:]
        for f in extra:
            self.pc.append(z3.Implies(guard, f))
        out = self.mem
        self.mem = mem0
        return out

    def cond(self, c):
        """evaluate a branch condition, forking"""
        if c["k"] == "BinaryOperator" and c["op"] in ("&&", "||") and not self.unit.mergeconds():
            a = self.cond(c["c"][0])
            if c["op"] == "&&":
                return a and self.cond(c["c"][1])
            return a or self.cond(c["c"][1])
        if c["k"] == "UnaryOperator" and c["op"] == "!":
            return not self.cond(c["c"][0])
        return self.decide(self.boolterm(self.ev(c)))

    def boolterm(self, x):
        x = self.load(x)
        t = x.lv[()]
        if isinstance(t, PyPtr):
            return z3.BoolVal(True)
        return tobool(t)

    def s_ReturnStmt(self, n):
        c = n.get("c")
        if not c or c[0] is None:
            raise ReturnEx(None)
        rt = self.fr.fn.fd.ret
        if getattr(self, "in_lambda", 0) and self.fr.fn.fd is None:
            raise ReturnEx(self.load(self.ev(c[0])))
        if rt.k == "r":
            raise ReturnEx(self.lval(c[0]))
        v = self.ev(c[0])
        shp = self.st.of(rt)
        v = self.load(v)
        raise ReturnEx(self.convert(v, shp))

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_CXXTryStmt(self, n):
        body, *handlers = n["c"]
        try:
            self.stmt(body)
        except ThrowEx as e:
            h = handlers[0]
            if h.get("var1"):
                v = h["var1"]
                self.fr.env[v["id"]] = LV("%exc", (), Opaque("exception"))
            self.curexc = e
            self.stmt(h["c"][0])

    def s_SwitchStmt(self, n):
        cond, body = n["c"]
        x = self.t(self.ev(cond))
        items = []       # flat list of ('case',value)|('default',)|('stmt',node)
        def flat(s):
            if s["k"] == "CaseStmt":
                items.append(("case", s["c"][0]))
                flat(s["c"][1])
            elif s["k"] == "DefaultStmt":
                items.append(("default", None))
                flat(s["c"][0])
            else:
                items.append(("stmt", s))
        for s in body.get("c", []):
            flat(s)
        start = None
        for i, (k, e) in enumerate(items):
            if k == "case":
                if self.decide(x == self.t(self.ev(e))):
                    start = i
                    break
        if start is None:
            for i, (k, e) in enumerate(items):
                if k == "default":
                    start = i
        if start is None:
            return
        try:
            for k, e in items[start:]:
                if k == "stmt":
                    self.stmt(e)
        except BreakEx:
            pass

    # ---- loops ---------------------------------------------------------------
    def s_ForStmt(self, n):
        init, cond, inc, body = n["c"]
        if init:
            self.stmt(init)
        self.loop(n, cond, inc, body)

    def s_WhileStmt(self, n):
        cond, body = n["c"]
        self.loop(n, cond, None, body)

    def s_DoStmt(self, n):
        body, cond = n["c"]
        # do-while = body executed at least once: cut at the loop head before the body
        self.loop(n, cond, None, body, do=True)

    def s_CXXForRangeStmt(self, n):
        init, rng, beg, end, cond, inc, var, body = n["c"]
        for s in (init, rng, beg, end):
            if s:
                self.stmt(s)
        self.loop(n, cond, inc, body, var)

    def loop(self, n, cond, inc, body, var=None, do=False):
        self.loopno += 1
        ordinal = self.loopno
        key = (id(n), tuple(f.fn.fd.mn if f.fn else "" for f in self.frames))
        # 1. complete unrolling when the loop condition is concrete
        if key not in self.nounroll and not do:
            save = (self.snapshot_state())
            it = 0
            while True:
                c = z3.simplify(self.boolterm(self.ev(cond))) if cond else z3.BoolVal(True)
                if z3.is_false(c):
                    if it > 0 or True:
                        return
                if not z3.is_true(c):
                    break
                if it > self.unrollmax:
                    break
                it += 1
                try:
                    if var:
                        self.stmt(var)
                    self.stmt(body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                if inc:
                    self.ev(inc)
            if it > 0:
                # not fully concrete: restart this path with an invariant
                self.nounroll.add(key)
                raise Restart()
            self.restore_state(save)
            self.nounroll.add(key)
        if self.noloop:
            raise Unsupported("loop in a speculative evaluation")
        # 2. invariant
        lctx = LoopCtx(self, n, ordinal, key)
        mkey = (key, frozenset(self.mem))       # names of locals depend on the path that leads here
        mods = self.loop_mods.get(mkey)
        if mods is None:
            mods = self.find_mods(key, cond, inc, body, var, do)
            self.loop_mods[mkey] = mods
        lctx.mods = mods
        pre = self.snapshot()
        lctx.pre = pre
        invs = self.unit.loop_inv(lctx)
        for nm, f, cand in invs(lctx):
            if (key[0], nm) in self.dropped and cand:
                continue
            self.oblige("loop%d entry: %s" % (ordinal, nm), f, "invariant", cand=(key[0], nm) if cand else None)
        self.havoc_mods(mods)
        for nm, f, cand in invs(lctx):
            if (key[0], nm) in self.dropped and cand:
                continue
            self.assume(f)
        lctx.head = self.snapshot()
        w0 = len(self.wlog)
        roots0 = set(r for r in self.mem)

        def preserved():
            extra = set((r, p) for r, p in self.wlog[w0:] if (not r.startswith("%") or r in roots0) and r != "%exc") - mods
            extra = set((r, p) for r, p in extra if not (p and p[-1] == "cont"))
            if extra and not self.dry:
                self.loop_mods[mkey] = mods | extra
                raise Restart()
            lctx.end = True
            for nm, f, cand in invs(lctx):
                if (key[0], nm) in self.dropped and cand:
                    continue
                self.oblige("loop%d preserved: %s" % (ordinal, nm), f, "invariant", cand=(key[0], nm) if cand else None)
            lctx.end = False
            # termination measure
            raise PathEnd()
        if not do:
            if cond is not None and not self.cond(cond):
                self.loop_after(lctx)
                return
            try:
                if var:
                    self.stmt(var)
                self.loop_body_start(lctx)
                self.stmt(body)
            except ContinueEx:
                pass
            except BreakEx:
                self.loop_after(lctx)
                return
            if inc:
                self.ev(inc)
            preserved()
        else:
            try:
                self.stmt(body)
            except ContinueEx:
                pass
            except BreakEx:
                return
            if not self.cond(cond):
                self.loop_after(lctx)
                return
            preserved()

    def loop_after(self, lctx):
        h = getattr(self.unit, "after_loop", None)
        if h:
            for f in h(lctx) or []:
                self.assume(f)

    def loop_body_start(self, lctx):
        pass

    def snapshot_state(self):
        return ({r: dict(m) for r, m in self.mem.items()}, list(self.pc), self.loopno, set(self.writes), len(self.wlog),
                dict(self.fr.env), dict(self.fr.names), self.nroot, len(self.obls), self.prefix, self.pos)

    def restore_state(self, s):
        self.mem, self.pc, self.loopno, self.writes = {r: dict(m) for r, m in s[0].items()}, list(s[1]), s[2], set(s[3])
        del self.wlog[s[4]:]
        self.fr.env = dict(s[5])
        self.fr.names = dict(s[6])
        self.nroot = s[7]
        del self.obls[s[8]:]

    def find_mods(self, key, cond, inc, body, var, do):
        """dry run of the body to find the locations it writes"""
        mods = set()
        outer = dict(mem={r: dict(m) for r, m in self.mem.items()}, pc=list(self.pc), writes=set(self.writes),
                     wlog=list(self.wlog), loopno=self.loopno, nroot=self.nroot, env=dict(self.fr.env),
                     names=dict(self.fr.names), prefix=self.prefix, pos=self.pos, alts=self._alts, frames=list(self.frames),
                     snaps=list(self.snaps), depth=self.depth, ghost=dict(self.ghost), npaths=self.npaths,
                     closures=dict(self.closures), refm=dict(self.refmembers), nfresh=self.nfresh, curstat=set(self.static_inited))
        roots0 = set(self.mem)
        self.dry += 1
        try:
            for _ in range(6):
                found = set()

                def once():
                    self.mem = {r: dict(m) for r, m in outer["mem"].items()}
                    self.pc = list(outer["pc"]); self.writes = set(); self.wlog = []
                    self.loopno = outer["loopno"]; self.nroot = outer["nroot"] + 1000
                    self.frames = list(outer["frames"])
                    self.fr.env = dict(outer["env"]); self.fr.names = dict(outer["names"])
                    self.snaps = []; self.depth = outer["depth"]; self.ghost = dict(outer["ghost"])
                    self.closures = dict(outer["closures"])
                    self.havoc_mods(mods)
                    self.writes = set()
                    try:
                        if not do and cond is not None and not self.cond(cond):
                            found.update(self.writes)
                            return
                        if var:
                            self.stmt(var)
                        try:
                            self.stmt(body)
                        except ContinueEx:
                            pass
                        if inc:
                            self.ev(inc)
                        if do:
                            self.cond(cond)
                    except (PathEnd, BreakEx, ReturnEx, ThrowEx):
                        pass
                    found.update(self.writes)
                self.explore(once)
                new = set((r, p) for r, p in found if (not r.startswith("%") or r in roots0) and r != "%exc")
                if new <= mods:
                    break
                mods |= new
            else:
                raise Unsupported("modified locations do not stabilise")
        finally:
            self.dry -= 1
            self.mem, self.pc, self.writes, self.wlog = outer["mem"], outer["pc"], outer["writes"], outer["wlog"]
            self.loopno, self.nroot = outer["loopno"], outer["nroot"]
            self.frames = outer["frames"]
            self.fr.env, self.fr.names = outer["env"], outer["names"]
            self.prefix, self.pos, self._alts = outer["prefix"], outer["pos"], outer["alts"]
            self.snaps, self.depth, self.ghost = outer["snaps"], outer["depth"], outer["ghost"]
            self.closures, self.refmembers = outer["closures"], outer["refm"]
            self.static_inited = outer["curstat"]
            self.nfresh = outer["nfresh"]
        return mods

    def havoc_mods(self, mods):
        for r, p in sorted(mods, key=repr):
            m = self.mem.setdefault(r, {})
            old = m.get(p)
            if old is None:
                # unknown so far: leave lazily initial but renamed
                so = self.leafsorts.get((r, p))
                if so is None:
                    continue
                old = z3.Const("x", so)
            if not z3.is_expr(old):
                # python pointer: containers do not change identity in loops
                if p and p[-1] == "cont":
                    continue
                raise Unsupported("loop changes a python pointer")
            so = old.sort()
            t = self.fresh("h:%s.%s" % (r, ".".join(p)), so)
            if p and p[-1] in ("len", "n") and so == z3.IntSort():
                self.pc.append(t >= 0)
            m[p] = t
            self.writes.add((r, p))
            self.wlog.append((r, p))

    # ---- expressions ------------------------------------------------------
    def ev(self, n):
        k = n["k"]
        if "l" in n:
            self.lastline = n["l"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n)

    def lval(self, n):
        x = self.ev(n)
        if isinstance(x, (LV, MapElt)):
            return x
        return self.tmp(x)

    def ty(self, n):
        return self.fr.tu.types[n["t"]]

    def shape(self, n):
        return self.st.of(self.ty(n))

    def e_MTE(self, n):
        x = self.ev(n["c"][0])
        return self.tolv(x)

    def e_IntegerLiteral(self, n):
        return self.vI(int(n["v"]))

    e_CharacterLiteral = e_IntegerLiteral

    def e_CXXBoolLiteralExpr(self, n):
        return self.vB(n["v"])

    def e_FloatingLiteral(self, n):
        return self.vR(Fraction(float.fromhex(n["h"])))

    def e_StringLiteral(self, n):
        return self.vS(n.get("v", ""))

    def e_PredefinedExpr(self, n):
        return self.vS("?")

    def e_CXXNullPtrLiteralExpr(self, n):
        return V(Ptr(None), {(): z3.IntVal(0)})

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXTypeidExpr(self, n):
        """dynamic type of an object: an unknown function of its identity"""
        x = self.ev(n["c"][0]) if n.get("c") else None
        if not isinstance(x, LV):
            raise Unsupported("typeid of a type")
        i = x.path[0][1] if x.root == "$heap" and len(x.path) == 1 else z3.IntVal(-1) if x.root == "this" and not x.path else None
        if i is None:
            raise Unsupported("typeid of %r" % (x,))
        return self.tmp(V(I, {(): z3.Function("dynamic type of", z3.IntSort(), z3.IntSort())(i)}), "typeid")

    def e_CXXThisExpr(self, n):
        t = self.fr.this
        ty = self.ty(n)
        return V(Ptr(ty.to), {(): PyPtr(t)})

    def e_DeclRefExpr(self, n):
        d = n["d"]
        dk = d["dk"]
        if dk == "enum":
            return self.vI(d["v"])
        if dk in ("parm", "var"):
            for fr in [self.fr] + self.closure_frames():
                if d["id"] in fr.env:
                    return fr.env[d["id"]]
            raise Unsupported("unknown variable " + d["n"])
        if dk == "fn":
            return V(Opaque("fn"), {(): FnVal(self.fr.tu.fdescs[d["f"]])})
        if dk == "glob":
            return self.global_lv(d)
        raise Unsupported("declref " + dk)

    def closure_frames(self):
        return getattr(self.fr, "outer", [])

    def global_lv(self, d):
        qn = d["qn"]
        ty = self.fr.tu.types[d["t"]]
        s = self.st.of(ty)
        h = self.unit.globals.get(qn)
        lv = LV("$g:" + qn, (), s)
        if h is not None:
            g = h(self) if callable(h) else V(s, {(): h})
            return g if isinstance(g, LV) else self.tmp(g)
        if lv.root not in self.glob_inited or (ty.const and not self.mem.get(lv.root)):
            self.glob_inited.add(lv.root)
            g = self.lib.global_value(self, qn, s)
            if g is not None:
                self.mem[lv.root] = dict(g.lv)
                if self.mem0 is not None:
                    self.mem0[lv.root] = dict(g.lv)
                return lv
            if ty.const:
                tu, gd = self.prog.globals.get(qn, (None, None))
                if gd is not None and "init" in gd:
                    self.frames.append(Frame(self.fr.fn, None, tu))
                    try:
                        v = self.convert(self.load(self.ev(gd["init"])), s)
                    finally:
                        self.frames.pop()
                    self.mem[lv.root] = dict(v.lv)
                    for snap in self.snaps + [self.mem0]:
                        snap[lv.root] = dict(v.lv)
        return lv

    def e_MemberExpr(self, n):
        if "fld" in n:
            base = self.ev(n["c"][0])
            if n["arrow"]:
                base = self.deref(base)
            return self.member(base, n["fcls"], n["fld"], n)
        if "d" in n:
            if n["d"]["dk"] == "enum":
                return self.vI(n["d"]["v"])
            return self.global_lv(n["d"])
        raise Unsupported("member function value")

    def member(self, base, fcls, fld, n):
        if isinstance(base, MapElt) and base.cont.shape.v is None:
            base = self.load(base)          # element of a set
        if isinstance(base, MapElt):
            if fld == "first":
                return V(base.cont.shape.k, unpackkey(base.cont.shape.k, base.key))
            if fld == "second":
                return base.cont.k(base.key)
            base = self.load(base)
        s = base.shape
        if s.kind != "struct":
            # universal heap access to an unknown class
            if isinstance(base, LV) and ("view", base.root) in self.ghost:
                return self.ghost[("view", base.root)]
            if isinstance(base, LV) and base.root == "$heap":
                return base.f(short(fcls) + "::" + fld, self.shape(n))
            raise Unsupported("member %s of %r" % (fld, s))
        key = fld if fld in s.fields else short(fcls) + "::" + fld
        if key not in s.fields:
            if isinstance(base, LV):
                return base.f(key, self.shape(n))
            raise Unsupported("no field %s in %r" % (key, s))
        if isinstance(base, LV):
            r = self.refmembers.get((base.root, base.static(), key))
            if r is not None:
                return r
            return base.f(key)
        return base.sub(key)

    def e_ArraySubscriptExpr(self, n):
        b = self.ev(n["c"][0])
        i = self.t(self.ev(n["c"][1]))
        b = self.load(b)
        p = b.lv.get(())
        if isinstance(p, PyPtr):
            lv = p.lv
            if lv.shape.kind == "struct" and repr(lv.shape).startswith("array"):
                return self.index_struct(lv, i)
            if lv.path and isinstance(lv.path[-1], tuple) and lv.path[-1][0] == "i":
                return LV(lv.root, lv.path[:-1] + (("i", lv.path[-1][1] + i),), lv.shape)
            if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
                return lv
        raise Unsupported("array subscript")

    def index_struct(self, lv, i):
        """element of a fixed-size array; symbolic index -> split"""
        s = lv.shape
        i = z3.simplify(i)
        names = list(s.fields)
        if z3.is_int_value(i):
            j = i.as_long()
            if not 0 <= j < len(names):
                self.check("array index in range", z3.BoolVal(False))
                raise PathEnd()
            return lv.f(names[j])
        self.check("array index in range", z3.And(i >= 0, i < len(names)))
        for j in range(len(names) - 1):
            if self.decide(i == j):
                return lv.f(names[j])
        return lv.f(names[-1])

    def e_UnaryOperator(self, n):
        op = n["op"]
        sub = n["c"][0]
        if op in ("++", "--"):
            lv = self.lval(sub)
            old = self.load(lv)
            t = old.lv.get(())
            d = 1 if op == "++" else -1
            if old.shape.kind == "iter":
                dd = -d if old.shape.rev else d
                new = V(old.shape, {("cont",): old.lv[("cont",)], ("idx",): old.lv[("idx",)] + dd})
                self.write(LV(lv.root, lv.path, old.shape), new)
                return old if n.get("post") else lv
            if isinstance(t, PyPtr):
                q = t.lv
                if q.path and isinstance(q.path[-1], tuple):
                    self.write(lv, V(old.shape, {(): PyPtr(LV(q.root, q.path[:-1] + (("i", q.path[-1][1] + d),), q.shape))}))
                    return old if n.get("post") else lv
                raise Unsupported("pointer increment")
            if t.sort() == z3.RealSort():
                new = t + d
            else:
                new = t + d
                if self.unit.intcheck == "wrap" and self.ty(sub).k == "b" and self.ty(sub).n == "long":
                    new = z3.If(new >= 2**63, new - 2**64, z3.If(new < -2**63, new + 2**64, new))
                else:
                    self.intrange(new, self.ty(sub), "++/--")
            self.write(lv, V(old.shape, {(): new}))
            return old if n.get("post") else lv
        if op == "*":
            return self.deref(self.ev(sub))
        if op == "&":
            x = self.ev(sub)
            if isinstance(x, V) and isinstance(x.lv.get(()), FnVal):
                return x
            return V(Ptr(self.ty(n).to), {(): PyPtr(self.tolv(x))})
        x = self.ev(sub)
        if op == "!":
            return self.vB(z3.Not(self.boolterm(x)))
        t = self.t(x)
        if op == "-":
            if t.sort() == z3.BoolSort():
                t = coerce(t, z3.IntSort())
            return self.mk(self.shape(n), -t)
        if op == "+":
            return self.mk(self.shape(n), t)
        if op == "~":
            return self.vI(bitop("~", t, None))
        raise Unsupported("unary " + op)

    def intrange(self, t, ty, what):
        """hook: machine-integer range obligations (unit option)"""
        if self.unit.intcheck and self.unit.intcheck != "wrap" and ty.k == "b" and ty.n in ("int", "long") and not self.dry:
            self.check("no signed overflow (%s)" % what, z3.And(t >= -2**31, t < 2**31) if ty.n == "int" else z3.And(t >= -2**63, t < 2**63))

    def e_BinaryOperator(self, n):
        op = n["op"]
        a, b = n["c"]
        if op == "=":
            if True:
                rv = self.ev(b)
                rv = self.load(rv)
                lv = self.lval(a)
            self.assign(lv, rv)
            return lv
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op in ("&&", "||"):
            x = self.boolterm(self.ev(a))
            xs = z3.simplify(x)
            if op == "&&" and z3.is_false(xs):
                return self.vB(False)
            if op == "||" and z3.is_true(xs):
                return self.vB(True)
            y = self.pure(b, x if op == "&&" else z3.Not(x))
            if y is None:
                if self.decide(x):
                    return self.vB(True) if op == "||" else self.vB(self.boolterm(self.ev(b)))
                return self.vB(False) if op == "&&" else self.vB(self.boolterm(self.ev(b)))
            y = self.boolterm(y)
            return self.vB(z3.And(x, y) if op == "&&" else z3.Or(x, y))
        x, y = self.load(self.ev(a)), self.load(self.ev(b))
        return self.arith(op, x, y, n)

    def pure(self, node, guard):
        """evaluate node speculatively under guard; None if it forks, writes or throws"""
        save = self.snapshot_state()
        alts = self._alts
        self._alts = []
        prefix, pos = self.prefix, self.pos
        closures = dict(self.closures)
        frames = list(self.frames)
        depth = self.depth
        loops = self.noloop
        self.noloop = True
        nobl = len(self.obls)
        prevdec = self.__dict__.get("decide")
        ok = True
        res = None

        class Fork(Exception):
            pass

        def nodecide(c):
            s = z3.simplify(c)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            raise Fork()
        self.decide = nodecide
        w0 = len(self.wlog)
        roots = set(self.mem)
        self.pc.append(guard)
        pcn = len(self.pc)
        try:
            res = self.load(self.ev(node))
            for r, p in self.wlog[w0:]:
                if r in roots and not r.startswith("$static"):
                    ok = False
        except (Fork, ThrowEx, PathEnd, Unsupported, Restart, BreakEx, ContinueEx):
            ok = False
        finally:
            if prevdec is None:
                del self.decide
            else:
                self.decide = prevdec
            self.noloop = loops
            self._alts = alts
            self.prefix, self.pos = prefix, pos
            self.frames = frames
            self.depth = depth
            self.closures = closures
        if not ok:
            self.restore_state(save)
            return None
        # keep facts learnt (guarded) and memory (lazy leaves only)
        extra = self.pc[pcn:]
        del self.pc[pcn - 1:]
        for f in extra:
            self.pc.append(z3.Implies(guard, f))
        return res

    def e_ConditionalOperator(self, n):
        c, a, b = n["c"]
        # assert() expands to (expr) ? void(0) : __assert_fail(...)
        fail = self.assert_fail(b)
        if fail:
            t = self.boolterm_pure(c)
            self.check("assert(%s)" % fail, t, "assert")
            return V(VOID, {})
        t = self.boolterm(self.ev(c))
        ts = z3.simplify(t)
        if z3.is_true(ts):
            return self.ev(a)
        if z3.is_false(ts):
            return self.ev(b)
        if n.get("lv"):
            return self.ev(a) if self.decide(t) else self.ev(b)
        x = self.pure(a, t)
        y = self.pure(b, z3.Not(t)) if x is not None else None
        if x is None or y is None:
            return self.ev(a) if self.decide(t) else self.ev(b)
        shp = self.shape(n)
        if x.shape.kind == "opaque" or shp.kind in ("void",):
            return self.ev(a) if self.decide(t) else self.ev(b)
        x, y = self.convert(x, shp), self.convert(y, shp)
        out = {}
        for p in x.lv:
            u, w = x.lv[p], y.lv.get(p)
            if not z3.is_expr(u) or not z3.is_expr(w):
                return self.ev(a) if self.decide(t) else self.ev(b)
            if u.sort() != w.sort():
                u, w = real(u), real(w)
            out[p] = u if u.eq(w) else z3.If(t, u, w)
        return V(x.shape, out)

    def boolterm_pure(self, c):
        return self.boolterm(self.ev(c))

    def assert_fail(self, b):
        while b and b["k"] in ("ImplicitCastExpr", "MTE"):
            b = b["c"][0]
        if b and b["k"] == "CallExpr" and "f" in b:
            fd = self.fr.tu.fdescs[b["f"]]
            if fd.n == "__assert_fail":
                a = b["c"][1]
                while a["k"] != "StringLiteral":
                    a = a["c"][0]
                return a.get("v", "?")
        return None

    def arith(self, op, x, y, n=None):
        if x.shape.kind == "iter":
            if y.shape.kind == "iter" and op == "-":
                return self.vI((x.lv[("idx",)] - y.lv[("idx",)]) * (-1 if x.shape.rev else 1))
            if y.shape.kind == "iter":
                return self.lib.itercmp(self, "operator" + op, x, y)
            dd = y.t if op == "+" else -y.t
            return V(x.shape, {("cont",): x.lv[("cont",)], ("idx",): x.lv[("idx",)] + (-dd if x.shape.rev else dd)})
        a, b = x.lv.get(()), y.lv.get(())
        if a is None or b is None:
            raise Unsupported("arith %s on %r,%r" % (op, x.shape, y.shape))
        if isinstance(a, PyPtr) or isinstance(b, PyPtr) or x.shape.kind == "ptr" or y.shape.kind == "ptr":
            if op == "==":
                return self.vB(self.leq(a, b))
            if op == "!=":
                return self.vB(z3.Not(self.leq(a, b)))
            if op in ("+", "-") and isinstance(a, PyPtr) and not isinstance(b, PyPtr):
                q = a.lv
                if q.path and isinstance(q.path[-1], tuple):
                    i = q.path[-1][1] + b if op == "+" else q.path[-1][1] - b
                    return V(x.shape, {(): PyPtr(LV(q.root, q.path[:-1] + (("i", i),), q.shape))})
                return self.ptroff(x, q, b)
            raise Unsupported("pointer arithmetic " + op)
        if a.sort() == z3.BoolSort() and op not in ("==", "!="):
            a = coerce(a, z3.IntSort())
        if b.sort() == z3.BoolSort() and op not in ("==", "!="):
            b = coerce(b, z3.IntSort())
        if a.sort() != b.sort():
            if z3.RealSort() in (a.sort(), b.sort()):
                a, b = coerce(a, z3.RealSort()), coerce(b, z3.RealSort())
            else:
                a, b = coerce(a, z3.IntSort()), coerce(b, z3.IntSort())
        isr = a.sort() == z3.RealSort()
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if a.sort() == z3.BoolSort() and op not in ("==", "!="):
                raise Unsupported("bool compare")
            f = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b,
                 "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
            return self.vB(f)
        shp = R if isr else I
        if op == "+":
            return self.mk(shp, a + b)
        if op == "-":
            return self.mk(shp, a - b)
        if op == "*":
            return self.mk(shp, a * b)
        if op == "/":
            if isr:
                self.divcheck(b)
                return self.mk(R, a / b)
            self.check("integer division by non-zero", b != 0)
            return self.mk(I, tdiv(a, b))
        if op == "%":
            self.check("integer modulo by non-zero", b != 0)
            if self.unit.mergeconds() and not z3.is_int_value(z3.simplify(b)):
                self.assume(CMOD(a, b) == tmod(a, b))        # named, its definition at hand
                return self.mk(I, CMOD(a, b))
            return self.mk(I, tmod(a, b))
        if op in ("&", "|", "^", "<<", ">>"):
            return self.mk(I, bitop(op, a, b))
        raise Unsupported("binary " + op)

    def ptroff(self, x, q, b):
        b = z3.simplify(b)
        if z3.is_int_value(b) and b.as_long() == 0:
            return x
        return V(x.shape, {(): PyPtr(LV(q.root, q.path + (("off", b),), q.shape))})

    def divcheck(self, b):
        if self.unit.divcheck:
            self.check("real division by non-zero", b != 0)

    def e_CompoundAssignOperator(self, n):
        a, b = n["c"]
        y = self.load(self.ev(b))
        lv = self.lval(a)
        x = self.load(lv)
        r = self.arith(n["op"][:-1], x, y, n)
        if r.shape is I and lv.shape is I:
            r = self.mk(I, self.narrow(r.t, self.ty(a)))
        self.write(lv, self.convert(r, lv.shape))
        if r.shape is I:
            self.intrange(r.t, self.ty(a), n["op"])
        return lv

    NARROW = {"signed char": (-128, 256), "short": (-32768, 65536), "unsigned char": (0, 256), "unsigned short": (0, 65536)}

    def narrow(self, t, ty):
        """values of the types shorter than int wrap around"""
        lo, m = self.NARROW.get(ty.n if ty.k == "b" else None, (0, 0))
        if not m or not z3.is_expr(t) or t.sort() != z3.IntSort():
            return t
        return z3.simplify(lo + (t - lo) % m) if z3.is_int_value(t) else lo + (t - lo) % m

    def cast(self, n):
        ck = n["ck"]
        sub = n["c"][0]
        if ck in ("LValueToRValue",):
            return self.load(self.ev(sub))
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "Dependent", "LValueBitCast", "FunctionToPointerDecay",
                  "BuiltinFnToFnPtr"):
            return self.ev(sub)
        if ck == "ArrayToPointerDecay":
            x = self.ev(sub)
            if isinstance(x, V) and x.shape is S:
                return x
            return V(Ptr(self.ty(n).to), {(): PyPtr(self.tolv(x))})
        if ck == "NullToPointer":
            return V(Ptr(self.ty(n).to), {(): z3.IntVal(0)})
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            x = self.ev(sub)
            return self.recast(x, n)
        if ck == "Dynamic":
            return self.dyncast(self.ev(sub), n)
        if ck == "ToVoid":
            self.ev(sub)
            return V(VOID, {})
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.vB(self.boolterm(self.ev(sub)))
        if ck == "IntegralToFloating":
            return self.vR(coerce(self.t(self.ev(sub)), z3.RealSort()))
        if ck == "FloatingToIntegral":
            return self.vI(self.trunc(self.t(self.ev(sub))))
        if ck in ("FloatingCast",):
            x = self.ev(sub)
            to, fr = self.ty(n), self.ty(sub)
            if to.k == "b" and to.n == "float" and fr.k == "b" and fr.n != "float" and sub["k"] not in ("FloatingLiteral", "IntegerLiteral"):
                x = self.load(x)
                f = z3.Function("rounded to float", z3.RealSort(), z3.RealSort())
                return V(x.shape, {(): f(real(x.lv[()]))})
            return x
        if ck in ("IntegralCast",):
            x = self.load(self.ev(sub))
            t = x.lv[()]
            if z3.is_expr(t) and t.sort() == z3.BoolSort():
                t = coerce(t, z3.IntSort())
            to, fr = self.ty(n), self.ty(sub)
            if self.unit.intcheck and to.k == "b" and to.n.startswith("unsigned") and not (fr.k == "b" and fr.n.startswith("unsigned")):
                self.check("non-negative when converted to unsigned", t >= 0)
            return self.mk(I, self.narrow(t, to))
        if ck == "BitCast":
            return self.ev(sub)
        if ck == "DerivedToBaseMemberPointer":
            return self.ev(sub)
        raise Unsupported("cast " + ck)

    e_ImplicitCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXStaticCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CXXConstCastExpr = cast
    e_CXXDynamicCastExpr = cast
    e_CXXReinterpretCastExpr = cast

    def trunc(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        f = self.floor(t)
        return z3.If(t >= 0, f, -self.floor(-t))

    def floor(self, t):
        """integer floor with defining facts"""
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            fr = s.as_fraction()
            return z3.IntVal(fr.numerator // fr.denominator)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        f = UF_floor(t)
        self.assume(z3.And(z3.ToReal(f) <= t, t < z3.ToReal(f) + 1))
        return f

    def recast(self, x, n):
        """derived <-> base conversions keep the location, change the static shape"""
        ty = self.ty(n)
        if isinstance(x, LV):
            if x.shape.kind == "ptr":
                x = self.load(x)
            elif ty.k == "c" and ty.s in self.prog.records and x.shape.kind == "struct":
                # keep the more derived shape when known: fields are a superset
                tgt = self.st.of(ty)
                names = set(self.prog.bases_of(x.shape.name))
                if ty.s in names:
                    return x
                return LV(x.root, x.path, tgt)
            else:
                return x
        if isinstance(x, V) and x.shape.kind == "ptr":
            p = x.lv[()]
            return V(Ptr(ty.to, x.shape.smart), {(): p})
        return x

    def dyncast(self, x, n):
        ty = self.ty(n)
        if ty.k == "p":
            v = self.load(x)
            p = v.lv[()]
            tgt = ty.to.s.replace("const ", "")
            if isinstance(p, PyPtr):
                nm = getattr(p.lv.shape, "name", None)
                if nm and tgt in self.prog.bases_of(nm):
                    return V(Ptr(ty.to), {(): p})
                raise Unsupported("dynamic_cast of known pointer")
            isa = z3.Function("isa:" + tgt, z3.IntSort(), z3.BoolSort())
            return V(Ptr(ty.to), {(): z3.If(z3.And(p != 0, isa(p)), p, z3.IntVal(0))})
        # reference cast
        lv = self.tolv(x)
        s = self.st.of(ty)
        return LV(lv.root, lv.path, s)

    def e_CXXDefaultArgExpr(self, n):
        return self.ev(n["c"][0])

    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return self.vI(int(n["v"]))

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero(self.shape(n))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_InitListExpr(self, n):
        s = self.shape(n)
        cs = n.get("c", [])
        if s.kind == "struct":
            d = {}
            names = list(s.fields)
            for f, c in zip(names, cs):
                v = self.convert(self.load(self.ev(c)), s.fields[f])
                for p, t in v.lv.items():
                    d[(f,) + p] = t
            for f in names[len(cs):]:
                for p, t in self.zero(s.fields[f]).lv.items():
                    d[(f,) + p] = t
            return V(s, d)
        if s.kind == "scalar":
            return self.convert(self.load(self.ev(cs[0])), s) if cs else self.zero(s)
        if s.kind == "seq":
            v = self.zero(s)
            lv = self.tmp(v)
            for i, c in enumerate(cs):
                self.write(lv.i(z3.IntVal(i)), self.convert(self.load(self.ev(c)), s.el))
            self.mem[lv.root][("len",)] = z3.IntVal(len(cs))
            return self.load(lv)
        raise Unsupported("init list of %r" % s)

    def e_CXXStdInitializerListExpr(self, n):
        sub = n["c"][0]
        while sub["k"] == "MTE":
            sub = sub["c"][0]
        el = self.shape(n).el
        s = Seq(el)
        lv = self.tmp(self.zero(s))
        cs = sub.get("c", [])
        for i, c in enumerate(cs):
            self.write(lv.i(z3.IntVal(i)), self.convert(self.load(self.ev(c)), el))
        self.mem[lv.root][("len",)] = z3.IntVal(len(cs))
        return self.load(lv)

    def e_CXXThrowExpr(self, n):
        c = n.get("c")
        tn = "rethrow"
        if c and c[0]:
            tn = self.ty(c[0]).s
        elif not c:
            e = getattr(self, "curexc", None)
            if e:
                raise e
        raise ThrowEx(tn)

    def e_CXXNewExpr(self, n):
        ty = self.fr.tu.types[n["at"]]
        s = self.st.of(ty)
        if n.get("array"):
            raise Unsupported("array new")
        self.nroot += 1
        root = "%%new%d" % self.nroot
        lv = LV(root, (), s)
        self.mem[root] = {}
        init = n.get("c", [None])[0]
        h = self.unit.new_hook(self, ty, init)
        if h is not None:
            return h
        if s.kind != "opaque":
            if init is not None:
                self.construct_new(lv, init, ty)
            else:
                self.assign(lv, self.zero(s, undef=True))
        return V(Ptr(ty), {(): PyPtr(lv)})

    def construct_new(self, lv, init, ty):
        self.construct_into(lv, init)

    def e_LambdaExpr(self, n):
        return V(Opaque("lambda"), {(): Closure(n, self.fr)})

    def call_closure(self, cl, args):
        fr = Frame(cl.frame.fn, cl.frame.this, cl.frame.tu)
        fr.outer = [cl.frame] + getattr(cl.frame, "outer", [])
        for p, a in zip(cl.node["params"], args):
            ty = fr.tu.types[p["t"]]
            self.bind(fr, p, ty, a)
        self.frames.append(fr)
        fr.is_lambda = True
        try:
            self.stmt(cl.node["body"])
            return V(VOID, {})
        except ReturnEx as e:
            return e.v if e.v is not None else V(VOID, {})
        finally:
            self.frames.pop()

    # ---- calls ------------------------------------------------------------------
    def args_for(self, fd, nodes):
        out = []
        for i, a in enumerate(nodes):
            pt = fd.params[i] if i < len(fd.params) else None
            if pt is not None and pt.k == "r":
                x = self.ev(a)
                out.append(x if isinstance(x, (LV, MapElt)) else x)
            else:
                x = self.ev(a)
                out.append(self.load(x) if not isinstance(x, MapElt) else self.load(x))
        return out

    def e_CallExpr(self, n):
        if "f" not in n:
            # call through a pointer
            callee = self.load(self.ev(n["c"][0]))
            f = callee.lv.get(())
            args = [self.ev(a) for a in n["c"][1:]]
            return self.apply_fn(f, args)
        fd = self.fr.tu.fdescs[n["f"]]
        if fd.n == "__assert_fail":
            self.check("assert", z3.BoolVal(False), "assert")
            raise PathEnd()
        args = self.args_for(fd, n["c"][1:])
        return self.call(fd, None, args, n)

    def apply_fn(self, f, args):
        if isinstance(f, Closure):
            return self.call_closure(f, args)
        if isinstance(f, FnVal):
            return self.call(f.fd, None, args, None)
        raise Unsupported("indirect call")

    def e_CXXMemberCallExpr(self, n):
        me = n["c"][0]
        while me["k"] in ("ImplicitCastExpr",):
            me = me["c"][0]
        if me["k"] != "MemberExpr":
            raise Unsupported("member call through " + me["k"])
        fd = self.fr.tu.fdescs[me["f"]]
        base = self.ev(me["c"][0])
        if me["arrow"]:
            base = self.deref(base)
        elif isinstance(base, V):
            base = self.tmp(base)
        args = self.args_for(fd, n["c"][1:])
        return self.call(fd, base, args, n, qual=me.get("qual", False))

    def e_CXXOperatorCallExpr(self, n):
        fd = self.fr.tu.fdescs[n["f"]] if "f" in n else None
        if fd is None:
            raise Unsupported("unresolved operator")
        nodes = n["c"][1:]
        if fd.cls is not None and not fd.static:
            base = self.ev(nodes[0])
            if isinstance(base, V) and isinstance(base.lv.get(()), Closure):
                return self.call_closure(base.lv[()], self.args_for(fd, nodes[1:]))
            if isinstance(base, LV) and base.root in self.closures:
                return self.call_closure(self.closures[base.root].lv[()], self.args_for(fd, nodes[1:]))
            base = self.tolv(base) if not isinstance(base, MapElt) else base
            if fd.copyassign and fd.implicit:
                v = self.load(self.ev(nodes[1]))
                self.assign(base, v)
                return base
            args = self.args_for(fd, nodes[1:])
            return self.call(fd, base, args, n)
        args = self.args_for(fd, nodes)
        return self.call(fd, None, args, n)

    def e_CXXConstructExpr(self, n):
        fd = self.fr.tu.fdescs[n["f"]]
        s = self.shape(n)
        cs = n.get("c", [])
        if fd.copy and len(cs) >= 1:
            x = self.ev(cs[0])
            return self.load(x)
        m = self.lib.ctor(self, fd, s, cs, n)
        if m is not None:
            return m
        if s.kind == "opaque":
            return V(s, {})
        body = self.prog.body_of(fd)
        lv = self.tmp(self.blank(s), "obj")
        if body is not None and not (fd.implicit and fd.defctor):
            args = self.args_for(fd, cs)
            self.inlined.add(fd.qn)
            self.run_body(body, lv, args)
        elif fd.defctor:
            self.default_init(lv, self.ty(n))
        else:
            raise Unsupported("constructor " + fd.qn)
        return self.load(lv)

    def blank(self, s):
        return V(s, {p: self.fresh("undef", so) for p, so in s.leaves()})

    def call(self, fd, this, args, n, qual=False):
        # dynamic dispatch on the known class of the receiver
        if isinstance(this, LV) and fd.virt and not qual and this.shape.kind == "struct":
            dyn = self.unit.dyn or this.shape.name
            if this.root == "this" and not this.path:
                dyn = self.unit.dyn or this.shape.name
            else:
                dyn = this.shape.name
            o = self.prog.override(dyn, fd)
            if o is not None and (this.root == "this" or this.root.startswith("%") or this.root in self.unit.known_dyn):
                fd = o
        # 1. contracts
        c = self.unit.contract_for(self, fd, this, qual)
        if c is not None:
            self.contracts_used.add(fd.qn)
            return c(self, Call(fd, this, args, n))
        # 2. library models
        m = self.lib.call(self, fd, this, args, n)
        if m is not NotImplemented:
            return m
        # 3. inline the extracted body
        body = self.prog.body_of(fd)
        if body is None:
            raise Unsupported("no contract, model or body for " + repr(fd))
        if fd.virt and not qual and isinstance(this, LV) and not (
                this.root == "this" or this.root.startswith("%") or this.root in self.unit.known_dyn):
            raise Unsupported("virtual call without contract: " + fd.qn)
        if sum(1 for f in self.frames if f.fn is body) > 1:
            raise Unsupported("recursion in " + fd.qn)
        self.inlined.add(fd.qn)
        if isinstance(this, V):
            this = self.tmp(this)
        rv = self.run_body(body, this, args)
        if rv is None:
            return V(VOID, {})
        return rv


class Call:
    def __init__(self, fd, this, args, n):
        self.fd = fd
        self.this = this
        self.args = args
        self.n = n


class Restart(Exception):
    pass


class LoopCtx:
    """what a loop invariant may talk about"""

    def __init__(self, ex, node, ordinal, key):
        self.ex = ex
        self.node = node
        self.ordinal = ordinal
        self.key = key
        self.mods = set()
        self.pre = None
        self.head = None
        self.end = False

    def counters(self):
        """(name, current term, entry term) of modified integer locals and iterator positions"""
        out = []
        for r, p in sorted(self.mods, key=repr):
            t = self.ex.mem.get(r, {}).get(p)
            t0 = self.pre.get(r, {}).get(p)
            if z3.is_expr(t) and t.sort() == z3.IntSort() and z3.is_expr(t0):
                if p and p[-1] == "cont":
                    continue
                nm = self.stable(r) + "." + ".".join(p)
                out.append((nm, t, t0))
        return out

    def stable(self, r):
        return r.split("@")[0]

    def lvs(self):
        """debug name -> LV of every variable in scope"""
        out = {}
        for fr in self.ex.frames:
            out.update(fr.names)
        return out


# ---- helpers ----------------------------------------------------------------
_qcache = {}


def has_quant(f):
    k = f.get_id()
    if k in _qcache:
        return _qcache[k][1]
    r = z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _qcache[k] = (f, r)
    return r


UF_floor = z3.Function("floor", z3.RealSort(), z3.IntSort())


def coerce(t, sort):
    if not z3.is_expr(t):
        return t
    s = t.sort()
    if s == sort:
        return t
    if sort == z3.RealSort():
        if s == z3.IntSort():
            return z3.ToReal(t)
        if s == z3.BoolSort():
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if sort == z3.IntSort():
        if s == z3.BoolSort():
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if sort == z3.BoolSort():
        return tobool(t)
    raise Unsupported("coerce %s to %s" % (s, sort))


def tobool(t):
    if t.sort() == z3.BoolSort():
        return t
    if t.sort() == z3.IntSort():
        return t != 0
    if t.sort() == z3.RealSort():
        return t != 0
    raise Unsupported("truth value of %s" % t.sort())


def store_chain(base, idx, new):
    if len(idx) == 1:
        return z3.Store(base, idx[0], new)
    return z3.Store(base, idx[0], store_chain(z3.Select(base, idx[0]), idx[1:], new))


def tdiv(a, b):
    sa, sb = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(sb) and sb.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / -b), (-a) / (-b)))


CMOD = z3.Function("cmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def tmod(a, b):
    return a - b * tdiv(a, b) if not z3.is_int_value(z3.simplify(b)) else z3.If(a >= 0, a % b, -((-a) % b))


UF_bit = {op: z3.Function("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort()) for op in "&|^"}


def bitop(op, a, b):
    if op == "<<":
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            return a * (2 ** sb.as_long())
        return a * UF_pow2(b)
    if op == ">>":
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            return a / (2 ** sb.as_long())
        raise Unsupported("shift by symbolic amount")
    w = 32
    if op == "~":
        return z3.BV2Int(~z3.Int2BV(a, w), True)
    x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
    r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
    return z3.BV2Int(r, True)


UF_pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
