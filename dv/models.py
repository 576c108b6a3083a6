"""Trusted models of library operations (std::, boost::, libm).

Each model states what the library call does to the verifier's state.  They are
the trusted base of the proofs and are listed in the evidence of every check
(`trusted_base`), restricted to those a check actually used.
"""
import re
import z3
from .shapes import *
from . import core
from .core import real, ival, coerce, PathEnd, ThrowEx, MapElt, Closure, FnVal, tobool, has_quant

RS, IS, BS, SS = z3.RealSort(), z3.IntSort(), z3.BoolSort(), z3.IntSort()
UF = {n: z3.Function(n, RS, RS) for n in
      "sqrt exp log sin cos acos asin erf log2 atan tan log10 cbrt".split()}
UF_pow = z3.Function("pow", RS, RS, RS)
UF_fmod = z3.Function("fmod", RS, RS, RS)
UF_remainder = z3.Function("remainder", RS, RS, RS)
EPS = z3.RealVal("1/4503599627370496")


def strip(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        if d == 0 and q.startswith("operator", i):
            m = re.match(r"(<<=|>>=|<=|>=|<<|>>|->|<|>)", q[i + 8:])
            if m:
                out.append("operator" + m.group(1))
                i += 8 + len(m.group(1))
                continue
        c = q[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_strip = {}


def S_(q):
    r = _strip.get(q)
    if r is None:
        r = _strip[q] = strip(q)
    return r


def det3(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


class Bound:
    """std::bind: a callable with some arguments fixed (values) and others passed on (positions)"""

    def __init__(self, fn, items):
        self.fn, self.items = fn, items


class Lib:
    def __init__(self):
        self.seqlike = ("std::vector", "std::list", "std::deque", "std::__cxx11::list", "std::basic_string")
        self.maplike = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "boost::unordered_set",
                        "boost::unordered::unordered_set", "boost::unordered::unordered_map")
        self.iters = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator",
                      "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
                      "std::__detail::_Node_const_iterator", "std::reverse_iterator",
                      "boost::numeric::ublas::vector::iterator", "boost::numeric::ublas::vector::const_iterator",
                      "boost::numeric::ublas::random_access_iterator_base",
                      "boost::numeric::ublas::bidirectional_iterator_base", "boost::numeric::ublas::forward_iterator_base",
                      "std::__detail::_Node_iterator_base")
        self.ptrs = ("boost::shared_ptr", "std::unique_ptr", "std::shared_ptr", "boost::scoped_ptr", "std::__uniq_ptr_impl",
                     "std::__shared_ptr_access", "std::__shared_ptr")

    # ---- globals -----------------------------------------------------------
    def global_value(self, ex, qn, shape):
        return None

    # ---- dispatch ------------------------------------------------------------
    def call(self, ex, fd, this, args, n):
        q = S_(fd.qn)
        cls, _, f = q.rpartition("::")
        r = NotImplemented
        if cls in self.iters:
            r = self.m_iter(ex, f, this, args, fd, n)
        elif cls in self.ptrs or cls == "boost::detail::sp_empty":
            r = self.m_ptr(ex, f, this, args, fd, n)
        elif this is not None and cls.startswith("boost::numeric::ublas"):
            r = self.m_ublas(ex, f, this, args, fd, n)
        elif cls == "std::basic_string":
            r = self.m_string(ex, f, this, args, fd, n)
        elif cls in self.seqlike and this is not None:
            r = self.m_seq(ex, f, this, args, fd, n)
        elif cls in self.maplike:
            r = self.m_map(ex, f, this, args, fd, n)
        elif cls == "std::pair":
            if f in ("operator=",):
                ex.assign(this, self.repair(ex, this.shape, ex.load(args[0])))
                r = this
        elif cls == "std::valarray" and this is not None:
            r = self.m_valarray(ex, f, this, args, fd, n)
        elif cls in ("", "std", "__gnu_cxx", "boost", "std::__detail", "boost::math", "std::rel_ops",
                     "boost::numeric::ublas", "std::__cxx11", "boost::unordered") and this is None:
            r = self.m_free(ex, f, args, fd, n, q)
        elif cls == "std::numeric_limits" or cls.startswith("std::numeric_limits"):
            r = self.limits(ex, fd, f)
        elif cls in ("std::plus", "std::multiplies", "std::minus", "std::less", "std::equal_to", "std::divides", "std::greater"):
            r = self.functor(ex, cls, args)
        elif cls == "boost::enable_shared_from_this" and f == "shared_from_this":
            ex.assumed.add(q)
            return V(Ptr(fd.cls.args[0] if fd.cls.args else None, True), {(): core.PyPtr(this)})
        elif re.match(r"std::(basic_)?[io]?(string)?stream|std::basic_|std::ios|std::(logic_error|runtime_error|exception|invalid_argument|out_of_range|domain_error)", cls):
            ex.assumed.add("stream/exception formatting (no effect)")
            if f == "str" or f == "what":
                return ex.freshV(S, "str")
            if f == "operator bool" or f == "operator!":
                return ex.freshV(B, "stream")
            s = ex.st.of(fd.ret)
            if isinstance(this, LV) and fd.ret.k == "r":
                return this
            if s.kind in ("void", "opaque"):
                return V(s, {})
            return ex.freshV(s, "stream")
        if r is not NotImplemented:
            ex.assumed.add(q)
        return r

    # ---- constructors ----------------------------------------------------------
    def ctor(self, ex, fd, s, nodes, n):
        q = S_(fd.qn)
        cls = q.rpartition("::")[0]
        if s.kind == "opaque":
            if s.n.startswith("(lambda") or "lambda" in s.n:
                return ex.load(ex.ev(nodes[0])) if nodes else None
            for c in nodes:
                # evaluate for effects only when cheap; formatting arguments are skipped
                pass
            return V(s, {})
        body = ex.prog.body_of(fd)
        if body is not None and not fd.implicit and s is not S:
            if s not in (V3, M3) or cls.startswith("diffpy"):
                if s in (V3, M3):
                    return self.r3ctor(ex, s, nodes, fd)
                return None
        if s in (V3, M3):
            return self.r3ctor(ex, s, nodes, fd)
        args = ex.args_for(fd, nodes)
        if s.kind == "scalar":
            if s is S:
                ex.assumed.add("std::string")
                args = [a for a, c in zip(args, nodes) if c["k"] != "CXXDefaultArgExpr"]
                if not args:
                    return ex.vS("")
                x = ex.load(args[0])
                if len(args) == 1 and x.shape is S:
                    return x
                if len(args) == 2 and x.shape is I:
                    raise Unsupported("string(n, c)")
                return ex.freshV(S, "str")
            if not args:
                return ex.zero(s)
            return ex.convert(ex.load(args[0]), s)
        if s.kind == "seq":
            ex.assumed.add(cls + " constructor")
            return self.seqctor(ex, s, args, nodes)
        if s.kind == "map":
            ex.assumed.add(cls + " constructor")
            args = [a for a, c in zip(args, nodes) if c["k"] != "CXXDefaultArgExpr"]
            args = [ex.load(a) for a in args]
            if args and args[0].shape.kind == "map":
                return args[0]
            if not args or args[0].shape.kind == "scalar":
                return ex.zero(s)
            lv = ex.tmp(ex.zero(s))
            if args[0].shape.kind == "seq":
                self.map_insert_seq(ex, lv, args[0])
                return ex.load(lv)
            raise Unsupported("map constructor")
        if s.kind == "ptr":
            ex.assumed.add("smart pointer constructor")
            args = [a for a, c in zip(args, nodes) if c["k"] != "CXXDefaultArgExpr"]
            if not args:
                return ex.zero(s)
            v = ex.load(args[0])
            if () not in v.lv:
                return ex.zero(s)
            return V(s, {(): v.lv[()]})
        if s.kind == "iter":
            if not args:
                return ex.zero(s)
            v = ex.load(args[0])
            if v.shape.kind == "iter":
                if s.rev and not v.shape.rev:
                    return V(Iter(v.shape.of, True), v.lv)
                return v
            raise Unsupported("iterator constructor from %r" % v.shape)
        if s.kind == "struct" and repr(s).startswith("pair<"):
            vs = [ex.load(a) for a in args]
            if not vs:
                return ex.zero(s)
            if len(vs) == 1:
                return self.repair(ex, s, vs[0])
            return self.mkpair(ex, s, vs[0], vs[1])
        return None

    def mkpair(self, ex, s, a, b):
        d = {}
        for f, v in (("first", a), ("second", b)):
            v = ex.convert(v, s.fields[f])
            for p, t in v.lv.items():
                d[(f,) + p] = t
        return V(s, d)

    def repair(self, ex, s, v):
        return self.mkpair(ex, s, v.sub("first"), v.sub("second"))

    def seqctor(self, ex, s, args, nodes):
        args = [a for a, c in zip(args, nodes) if c["k"] != "CXXDefaultArgExpr"]
        vs = [ex.load(a) for a in args]
        if not vs:
            return ex.zero(s)
        if len(vs) == 1:
            if vs[0].shape.kind == "seq":
                return V(s, vs[0].lv)
            if vs[0].shape.kind == "scalar":
                return self.filled(ex, s, vs[0].t, ex.zero(s.el))
        if len(vs) == 2:
            if vs[0].shape.kind == "iter" or vs[0].shape.kind == "ptr":
                return self.from_range(ex, s, vs[0], vs[1])
            if vs[0].shape.kind == "scalar":
                return self.filled(ex, s, vs[0].t, ex.convert(vs[1], s.el))
        if len(vs) == 3 and vs[0].shape.kind == "scalar":
            return self.filled(ex, s, vs[0].t, ex.convert(vs[1], s.el))
        raise Unsupported("sequence constructor")

    def filled(self, ex, s, n, el):
        n = coerce(n, IS)
        ex.check("container size is non-negative", n >= 0)
        d = {("len",): n}
        for p, so in s.el.leaves():
            if not z3.is_expr(el.lv[p]):
                raise Unsupported("fill with python pointer")
            d[("el",) + p] = z3.K(IS, coerce(el.lv[p], so))
        return V(s, d)

    def itercont(self, ex, it):
        c = it.lv[("cont",)]
        if isinstance(c, core.PyPtr):
            return c.lv
        raise Unsupported("iterator into an unknown container")

    def from_range(self, ex, s, a, b):
        if a.shape.kind != "iter":
            raise Unsupported("range from pointers")
        c = self.itercont(ex, a)
        i, j = a.lv[("idx",)], b.lv[("idx",)]
        if c.shape.kind == "seq":
            cv = ex.read(c)
            n = cv.lv[("len",)]
            ex.check("valid iterator range", z3.And(0 <= i, i <= j, j <= n))
            d = {("len",): j - i}
            for p, so in s.el.leaves():
                arr = cv.lv[("el",) + p]
                d[("el",) + p] = self.shifted(arr, i, so)
            return V(s, d)
        if c.shape.kind == "map" and c.shape.v is None:
            m = ex.read(c)
            self.mapfacts(ex, m)
            ks = c.shape.k
            d = {("len",): j - i}
            if len(ks.leaves()) == 1:
                d[("el",) + ks.leaves()[0][0]] = self.shifted(m.lv[("ord",)], i, ks.leaves()[0][1])
                return V(s, d)
        if c.shape in (V3, M3):
            raise Unsupported("range over fixed vector")
        raise Unsupported("from_range")

    def shifted(self, arr, i, so):
        si = z3.simplify(i)
        if z3.is_int_value(si) and si.as_long() == 0:
            r = arr
        else:
            k = z3.Int("k!sh")
            r = z3.Lambda([k], z3.Select(arr, k + i))
        if arr.sort().range() != so:
            k = z3.Int("k!co")
            r = z3.Lambda([k], coerce(z3.Select(r, k), so))
        return r

    # ---- iterators ----------------------------------------------------------
    def mkiter(self, ex, clv, idx, rev=False):
        return V(Iter(clv.shape, rev), {("cont",): core.PyPtr(clv), ("idx",): idx})

    def iderefs(self, ex, it):
        c = self.itercont(ex, it)
        i = it.lv[("idx",)]
        if it.shape.rev:
            i = i - 1
        if c.shape.kind == "seq":
            n = ex.read(c).lv[("len",)]
            ex.check("iterator dereferenced in range", z3.And(0 <= i, i < n))
            return c.i(i)
        if c.shape.kind == "map":
            m = ex.read(c)
            ex.check("iterator dereferenced in range", z3.And(0 <= i, i < m.lv[("n",)]))
            k = z3.Select(m.lv[("ord",)], i)
            ex.assume(z3.Select(m.lv[("dom",)], k))
            ex.assume(z3.Select(m.lv[("pos",)], k) == i)
            k2 = ex.known_key.get((c.root, c.static(), i.get_id()))
            if k2 is not None and k2[0].eq(i) and k2[1].eq(m.lv[("dom",)]):
                k = k2[2]
            if c.shape.proj:
                self.projfact(ex, c, k)
                return c.k(k)
            return MapElt(c, k)
        if c.shape in (V3, M3) or repr(c.shape).startswith("array"):
            return ex.index_struct(c, i)
        if c.shape is S:
            raise Unsupported("string iterator")
        raise Unsupported("dereference of iterator into %r" % c.shape)

    def m_iter(self, ex, f, this, args, fd, n):
        it = ex.load(this)
        if it.shape.kind == "ptr":
            raise Unsupported("iterator over pointer")
        if f in ("operator*", "operator->"):
            x = self.iderefs(ex, it)
            if f == "operator->":
                if isinstance(x, MapElt):
                    return V(Ptr(None), {(): core.PyPtr(x)})
                return V(Ptr(fd.ret.to if fd.ret.k == "p" else None), {(): core.PyPtr(ex.tolv(x))})
            return x
        i = it.lv[("idx",)]
        sg = -1 if it.shape.rev else 1
        if f in ("operator++", "operator--"):
            d = sg if f == "operator++" else -sg
            new = V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): i + d})
            self.setiter(ex, this, new)
            return it if args else this
        if f in ("operator+", "operator-"):
            o = ex.load(args[0])
            if o.shape.kind == "iter":
                return ex.vI((i - o.lv[("idx",)]) * sg)
            d = o.t
            return V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): i + (d if f == "operator+" else -d) * sg})
        if f in ("operator+=", "operator-="):
            d = ex.t(args[0])
            new = V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): i + (d if f == "operator+=" else -d) * sg})
            self.setiter(ex, this, new)
            return this
        if f == "operator=":
            self.setiter(ex, this, ex.load(args[0]))
            return this
        if f in ("operator!=", "operator==", "operator<", "operator<=", "operator>", "operator>="):
            return self.itercmp(ex, f, it, ex.load(args[0]))
        if f == "operator[]":
            d = ex.t(args[0])
            return self.iderefs(ex, V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): i + d * sg}))
        if f == "base":
            return V(Iter(it.shape.of, False), it.lv)
        return NotImplemented

    def setiter(self, ex, lv, v):
        lv2 = LV(lv.root, lv.path, v.shape if v.shape.kind == "iter" else lv.shape)
        ex.write(lv2, v)

    def itercmp(self, ex, f, a, b):
        i, j = a.lv[("idx",)], b.lv[("idx",)]
        if a.shape.rev:
            i, j = j, i
        op = f[8:]
        return ex.vB({"==": lambda: i == j, "!=": lambda: i != j, "<": lambda: i < j, "<=": lambda: i <= j,
                      ">": lambda: i > j, ">=": lambda: i >= j}[op]())

    # ---- smart pointers ----------------------------------------------------
    def m_ptr(self, ex, f, this, args, fd, n):
        v = ex.load(this)
        if v.shape.kind != "ptr":
            raise Unsupported("smart pointer of shape %r" % v.shape)
        p = v.lv[()]
        if f == "get":
            return V(Ptr(v.shape.to), {(): p})
        if f == "operator*":
            return ex.deref(v)
        if f == "operator->":
            return V(Ptr(v.shape.to), {(): p})
        if f in ("operator bool", "operator!"):
            t = z3.BoolVal(True) if isinstance(p, core.PyPtr) else p != 0
            return ex.vB(t if f == "operator bool" else z3.Not(t))
        if f == "operator=":
            w = ex.load(args[0])
            x = w.lv.get((), ival(0))
            ex.write(this, V(this.shape, {(): x}))
            return this
        if f == "reset":
            x = ex.load(args[0]).lv[()] if args else ival(0)
            ex.write(this, V(this.shape, {(): x}))
            return V(VOID, {})
        if f == "swap":
            w = ex.load(args[0])
            ex.write(args[0], v)
            ex.write(this, w)
            return V(VOID, {})
        return NotImplemented

    # ---- sequences -------------------------------------------------------------
    def inrange(self, ex, lv, i, what="index"):
        n = ex.read(lv).lv[("len",)]
        ex.check("%s in range" % what, z3.And(0 <= i, i < n))

    def len(self, ex, lv):
        return ex.getlen(lv)

    def setlen(self, ex, lv, t):
        ex.writeleaf(lv, ("len",), t)

    def m_seq(self, ex, f, this, args, fd, n):
        if not isinstance(this, LV):
            this = ex.tolv(this)
        if this.shape.kind != "seq":
            raise Unsupported("sequence method on %r" % this.shape)
        L = ex.read(LV(this.root, this.path + ("len",), I)).t
        if f == "size":
            return ex.vI(L)
        if f == "empty":
            return ex.vB(L == 0)
        if f in ("capacity", "max_size"):
            return ex.freshV(I)
        if f in ("operator[]", "at"):
            i = coerce(ex.t(args[0]), IS)
            if f == "at":
                if not ex.decide(z3.And(0 <= i, i < L)):
                    raise ThrowEx("std::out_of_range")
            else:
                ex.check("vector index in range", z3.And(0 <= i, i < L))
            return this.i(i)
        if f == "front":
            ex.check("front() of non-empty", L > 0)
            return this.i(ival(0))
        if f == "back":
            ex.check("back() of non-empty", L > 0)
            return this.i(L - 1)
        if f in ("begin", "cbegin"):
            return self.mkiter(ex, this, ival(0))
        if f in ("end", "cend"):
            return self.mkiter(ex, this, L)
        if f in ("rbegin", "crbegin"):
            return self.mkiter(ex, this, L, True)
        if f in ("rend", "crend"):
            return self.mkiter(ex, this, ival(0), True)
        if f == "data":
            return V(Ptr(fd.ret.to), {(): core.PyPtr(this.i(ival(0)))})
        if f in ("push_back", "emplace_back") and len(args) == 1:
            v = ex.convert(ex.load(args[0]), this.shape.el)
            ex.assign(this.i(L), v)
            self.setlen(ex, this, L + 1)
            return V(VOID, {})
        if f == "pop_back":
            ex.check("pop_back() of non-empty", L > 0)
            self.setlen(ex, this, L - 1)
            return V(VOID, {})
        if f == "push_front":
            v = ex.convert(ex.load(args[0]), this.shape.el)
            cur = ex.read(this)
            k = z3.Int("k!pf")
            d = {("len",): L + 1}
            for p, so in this.shape.el.leaves():
                d[("el",) + p] = z3.Lambda([k], z3.If(k == 0, coerce(v.lv[p], so), z3.Select(cur.lv[("el",) + p], k - 1)))
            ex.write(this, V(this.shape, d))
            return V(VOID, {})
        if f == "clear":
            self.setlen(ex, this, ival(0))
            return V(VOID, {})
        if f in ("reserve", "shrink_to_fit"):
            return V(VOID, {})
        if f == "resize":
            N = coerce(ex.t(args[0]), IS)
            ex.check("resize to non-negative size", N >= 0)
            v = ex.convert(ex.load(args[1]), this.shape.el) if len(args) > 1 else ex.zero(this.shape.el)
            cur = ex.read(this)
            k = z3.Int("k!rs")
            d = {("len",): N}
            sl = z3.simplify(L)
            for p, so in this.shape.el.leaves():
                if z3.is_int_value(sl) and sl.as_long() == 0:
                    d[("el",) + p] = z3.K(IS, coerce(v.lv[p], so))
                else:
                    d[("el",) + p] = z3.Lambda([k], z3.If(k < L, z3.Select(cur.lv[("el",) + p], k), coerce(v.lv[p], so)))
            ex.write(this, V(this.shape, d))
            return V(VOID, {})
        if f == "assign":
            a, b = ex.load(args[0]), ex.load(args[1])
            if a.shape.kind == "iter":
                ex.write(this, self.from_range(ex, this.shape, a, b))
            elif a.shape.kind == "scalar":
                ex.write(this, self.filled(ex, this.shape, a.t, ex.convert(b, this.shape.el)))
            else:
                raise Unsupported("assign")
            return V(VOID, {})
        if f == "swap":
            o = args[0]
            a, b = ex.read(this), ex.load(o)
            ex.write(this, V(this.shape, b.lv))
            ex.write(o, V(o.shape, a.lv))
            return V(VOID, {})
        if f == "operator=":
            v = ex.load(args[0])
            if v.shape.kind != "seq":
                raise Unsupported("assign")
            ex.write(this, V(this.shape, v.lv))
            return this
        if f == "insert":
            return self.seq_insert(ex, this, args)
        if f == "erase":
            return self.seq_erase(ex, this, args)
        return NotImplemented

    def seq_insert(self, ex, this, args):
        it = ex.load(args[0])
        pos = it.lv[("idx",)]
        cur = ex.read(this)
        L = cur.lv[("len",)]
        ex.check("insert position in range", z3.And(0 <= pos, pos <= L))
        k = z3.Int("k!in")
        if len(args) == 2:
            v = ex.convert(ex.load(args[1]), this.shape.el)
            m = ival(1)
            src = lambda p, so, k: coerce(v.lv[p], so)
        elif len(args) == 3 and ex.load(args[1]).shape.kind == "iter":
            r = self.from_range(ex, Seq(this.shape.el), ex.load(args[1]), ex.load(args[2]))
            m = r.lv[("len",)]
            src = lambda p, so, k: z3.Select(r.lv[("el",) + p], k)
        elif len(args) == 3:
            m = coerce(ex.t(args[1]), IS)
            v = ex.convert(ex.load(args[2]), this.shape.el)
            ex.check("insert count non-negative", m >= 0)
            src = lambda p, so, k: coerce(v.lv[p], so)
        else:
            raise Unsupported("insert")
        d = {("len",): L + m}
        for p, so in this.shape.el.leaves():
            old = cur.lv[("el",) + p]
            body = z3.If(k < pos, z3.Select(old, k), z3.If(k < pos + m, src(p, so, k - pos), z3.Select(old, k - m)))
            if ex.unit.mergeconds():
                arr = d[("el",) + p] = ex.fresh("inserted", old.sort())
                ex.assume(z3.ForAll([k], z3.Select(arr, k) == body, patterns=[z3.Select(arr, k)]))
            else:
                d[("el",) + p] = z3.Lambda([k], body)
        ex.write(this, V(this.shape, d))
        return self.mkiter(ex, this, pos)

    def seq_erase(self, ex, this, args):
        i = ex.load(args[0]).lv[("idx",)]
        j = ex.load(args[1]).lv[("idx",)] if len(args) > 1 else i + 1
        cur = ex.read(this)
        L = cur.lv[("len",)]
        ex.check("erase range valid", z3.And(0 <= i, i <= j, j <= L))
        k = z3.Int("k!er")
        d = {("len",): L - (j - i)}
        for p, so in this.shape.el.leaves():
            old = cur.lv[("el",) + p]
            d[("el",) + p] = z3.Lambda([k], z3.If(k < i, z3.Select(old, k), z3.Select(old, k + (j - i))))
        ex.write(this, V(this.shape, d))
        return self.mkiter(ex, this, i)

    # ---- maps and sets ---------------------------------------------------------
    def mapfacts(self, ex, m, ordered=None):
        """well-formedness of the ghost enumeration"""
        key = m.lv[("ord",)].get_id(), m.lv[("dom",)].get_id(), m.lv[("pos",)].get_id(), m.lv[("n",)].get_id()
        if key in ex.mapfact_done and ex.mapfact_done[key][0] <= len(ex.pc) and ex.mapfact_done[key][1] is ex.pc:
            return
        dom, n, od, pos = (m.lv[(x,)] for x in ("dom", "n", "ord", "pos"))
        i = z3.Int("i!mf")
        k = z3.Const("k!mf", pos.sort().domain())
        ex.assume(n >= 0)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(od, i)),
                            z3.Select(pos, z3.Select(od, i)) == i)), patterns=[z3.Select(od, i)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= z3.Select(pos, k), z3.Select(pos, k) < n,
                            z3.Select(od, z3.Select(pos, k)) == k)), patterns=[z3.Select(pos, k)]))
        if m.shape.kind == "map" and m.shape.ordered and keysort(m.shape.k) in (IS, RS):
            j = z3.Int("j!mf")
            ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(od, i) < z3.Select(od, j)),
                                patterns=[z3.MultiPattern(z3.Select(od, i), z3.Select(od, j))]))
        ex.mapfact_done[key] = (len(ex.pc), ex.pc)
        ex.keepalive.append(m)

    def reenum(self, ex, lv, dom, n):
        """new enumeration after a change of the domain"""
        ks = keysort(lv.shape.k)
        ex.writeleaf(lv, ("dom",), dom)
        ex.writeleaf(lv, ("n",), n)
        ex.writeleaf(lv, ("ord",), ex.fresh("ord", z3.ArraySort(IS, ks)))
        ex.writeleaf(lv, ("pos",), ex.fresh("pos", z3.ArraySort(ks, IS)))

    def projfact(self, ex, c, k):
        """an element is found under the members that the equality of the set compares"""
        v = ex.read(c.k(k))
        kl = unpackkey(c.shape.k, k)
        for p, so in c.shape.k.leaves():
            ex.assume(z3.Implies(z3.Select(ex.read(c).lv[("dom",)], k), v.lv[p] == kl[p]))

    def keyof(self, ex, lv, a):
        v = ex.load(a) if lv.shape.proj else ex.convert(ex.load(a), lv.shape.k)
        d = {}
        for p, so in lv.shape.k.leaves():
            t = v.lv[p]
            if not z3.is_expr(t):
                raise Unsupported("python pointer as key")
            t = coerce(t, so)
            if badpattern(t):
                t0, t = t, ex.fresh("key", so)
                ex.assume(t == t0)
            d[p] = t
        return packkey(lv.shape.k, d)

    def keyfact(self, ex, m, k):
        dom, n, od, pos = (m.lv[(x,)] for x in ("dom", "n", "ord", "pos"))
        ex.assume(z3.Implies(z3.Select(dom, k), z3.And(0 <= z3.Select(pos, k), z3.Select(pos, k) < n,
                                                      z3.Select(od, z3.Select(pos, k)) == k)))

    def map_add(self, ex, lv, k):
        """insert key k (value untouched)"""
        m = ex.read(lv)
        if z3.is_true(z3.simplify(z3.Select(m.lv[("dom",)], k))):
            return
        has = z3.Select(m.lv[("dom",)], k)
        s = z3.Solver()
        self.reenum(ex, lv, z3.Store(m.lv[("dom",)], k, True), m.lv[("n",)] + z3.If(has, 0, 1))

    def map_del(self, ex, lv, k):
        m = ex.read(lv)
        has = z3.Select(m.lv[("dom",)], k)
        self.keyfact(ex, m, k)
        self.reenum(ex, lv, z3.Store(m.lv[("dom",)], k, False), m.lv[("n",)] - z3.If(has, 1, 0))

    def map_insert_seq(self, ex, lv, sv):
        raise Unsupported("map from sequence")

    def m_map(self, ex, f, this, args, fd, n):
        if not isinstance(this, LV):
            this = ex.tolv(this)
        s = this.shape
        if s.kind != "map":
            raise Unsupported("map method on %r" % s)
        m = ex.read(this)
        dom, N = m.lv[("dom",)], m.lv[("n",)]
        if f == "size":
            ex.assume(N >= 0)
            return ex.vI(N)
        if f == "empty":
            self.emptyfact(ex, m)
            return ex.vB(N == 0)
        if f in ("begin", "cbegin"):
            self.mapfacts(ex, m)
            return self.mkiter(ex, this, ival(0))
        if f in ("end", "cend"):
            return self.mkiter(ex, this, N)
        if f == "clear":
            self.reenum(ex, this, z3.K(keysort(s.k), z3.BoolVal(False)), ival(0))
            return V(VOID, {})
        if f in ("count", "find"):
            k = self.keyof(ex, this, args[0])
            has = z3.Select(dom, k)
            if f == "count":
                return ex.vI(z3.If(has, ival(1), ival(0)))
            self.keyfact(ex, m, k)
            if ex.decide(has):
                i = z3.Select(m.lv[("pos",)], k)
                ex.known_key[(this.root, this.static(), i.get_id())] = (i, dom, k)
            else:
                i = N
            return self.mkiter(ex, this, i)
        if f == "at":
            k = self.keyof(ex, this, args[0])
            if not ex.decide(z3.Select(dom, k)):
                raise ThrowEx("std::out_of_range")
            return this.k(k)
        if f == "operator[]":
            k = self.keyof(ex, this, args[0])
            # default-construct when absent
            old = ex.read(this.k(k))
            z = ex.zero(s.v)
            d = {}
            has = z3.Select(dom, k)
            for p, so in s.v.leaves():
                a, b = old.lv[p], z.lv[p]
                if not z3.is_expr(b):
                    raise Unsupported("map default")
                d[p] = a if z3.is_true(z3.simplify(has)) else z3.If(has, a, coerce(b, so))
            if not z3.is_true(z3.simplify(has)):
                ex.write(this.k(k), V(s.v, d))
                self.map_add(ex, this, k)
            return this.k(k)
        if f in ("insert", "emplace"):
            if f == "emplace" and len(args) == 2:
                kv, vv = args[0], args[1]
            elif len(args) == 1:
                x = ex.load(args[0])
                if x.shape.kind == "seq":
                    raise Unsupported("insert list")
                if s.proj:
                    kv, vv = x, x
                elif s.v is None:
                    kv, vv = x, None
                else:
                    kv, vv = x.sub("first"), x.sub("second")
            elif len(args) == 2:
                a, b = ex.load(args[0]), ex.load(args[1])
                if a.shape.kind == "iter" and b.shape.kind == "iter":
                    return self.map_insert_range(ex, this, a, b)
                kv, vv = b, None       # hinted insert into a set
                if s.v is not None:
                    kv, vv = b.sub("first"), b.sub("second")
            else:
                raise Unsupported("map insert")
            k = self.keyof(ex, this, kv)
            has = z3.Select(dom, k)
            if s.v is not None:
                vv = ex.convert(ex.load(vv), s.v)
                old = ex.read(this.k(k))
                d = {}
                for p, so in s.v.leaves():
                    if not z3.is_expr(vv.lv[p]):
                        raise Unsupported("python pointer stored in map")
                    d[p] = z3.If(has, old.lv[p], coerce(vv.lv[p], so))
                ex.write(this.k(k), V(s.v, d))
            self.map_add(ex, this, k)
            m2 = ex.read(this)
            self.keyfact(ex, m2, k)
            i = z3.Select(m2.lv[("pos",)], k)
            it = self.mkiter(ex, this, i)
            ex.known_key[(this.root, this.static(), i.get_id())] = (i, m2.lv[("dom",)], k)
            if fd.ret.k == "c" and S_(fd.ret.n or "").endswith("pair"):
                ps = pair(it.shape, B)
                return V(ps, {("first", "cont"): it.lv[("cont",)], ("first", "idx"): i, ("second",): z3.Not(has)})
            return it
        if f == "erase":
            if len(args) == 2:
                raise Unsupported("map range erase")
            x = ex.load(args[0])
            if x.shape.kind == "iter":
                e = self.iderefs(ex, x)
                i, q = x.lv[("idx",)], z3.Int("q!er")
                self.map_del(ex, this, e.key)
                # other iterators keep their elements
                for r, mem in list(ex.mem.items()):
                    for pth, t in list(mem.items()):
                        if pth and pth[-1] == "cont" and isinstance(t, core.PyPtr) and t.lv.same(this):
                            t0 = mem.get(pth[:-1] + ("idx",))
                            if z3.is_expr(t0) and t0.sort() == IS:
                                ex.writeleaf(LV(r, pth[:-1], Iter(s)), ("idx",), z3.If(t0 > i, t0 - 1, t0))
                # the order of the other elements is preserved
                m2 = ex.read(this)
                od0, od1 = m.lv[("ord",)], m2.lv[("ord",)]
                ex.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N - 1), z3.Select(od1, q) == z3.If(
                    q < i, z3.Select(od0, q), z3.Select(od0, q + 1))), patterns=[z3.Select(od1, q)]))
                return self.mkiter(ex, this, i)
            k = self.keyof(ex, this, x)
            self.map_del(ex, this, k)
            return ex.vI(z3.If(z3.Select(dom, k), ival(1), ival(0)))
        if f == "swap":
            o = args[0]
            b = ex.load(o)
            ex.write(this, V(this.shape, b.lv))
            ex.write(o, V(o.shape, m.lv))
            return V(VOID, {})
        if f == "operator=":
            ex.write(this, V(this.shape, ex.load(args[0]).lv))
            return this
        if f in ("reserve", "rehash"):
            return V(VOID, {})
        return NotImplemented

    def emptyfact(self, ex, m):
        dom, N, od, pos = (m.lv[(x,)] for x in ("dom", "n", "ord", "pos"))
        k = z3.Const("k!em", pos.sort().domain())
        ex.assume(N >= 0)
        ex.assume((N == 0) == (dom == z3.K(pos.sort().domain(), z3.BoolVal(False))))

    def map_insert_range(self, ex, lv, a, b):
        c = self.itercont(ex, a)
        i, j = a.lv[("idx",)], b.lv[("idx",)]
        m = ex.read(lv)
        ks = keysort(lv.shape.k)
        k = z3.Const("k!ir", ks)
        if lv.shape.v is not None and not (lv.shape.proj and c.shape.kind == "map" and c.shape.proj):
            raise Unsupported("range insert into map")
        if c.shape.kind == "map":
            o = ex.read(c)
            si, sj = z3.simplify(i), z3.simplify(j)
            if z3.is_int_value(si) and si.as_long() == 0 and sj.eq(z3.simplify(o.lv[("n",)])):
                newdom = z3.Lambda([k], z3.Or(z3.Select(m.lv[("dom",)], k), z3.Select(o.lv[("dom",)], k)))
                n = ex.fresh("n", IS)
                ex.assume(n >= m.lv[("n",)])
                ex.assume(n >= o.lv[("n",)])
                if lv.shape.proj:       # elements that are there already stay
                    d = dict(ex.read(lv).lv)
                    for p in d:
                        if p[0] == "val":
                            d[p] = z3.Lambda([k], z3.If(z3.Select(m.lv[("dom",)], k), z3.Select(m.lv[p], k), z3.Select(o.lv[p], k)))
                    ex.write(lv, V(lv.shape, d))
                self.reenum(ex, lv, newdom, n)
                return V(VOID, {})
        if c.shape.kind == "seq" and len(lv.shape.k.leaves()) == 1:
            o = ex.read(c)
            arr = o.lv[("el",) + lv.shape.k.leaves()[0][0]]
            # membership characterised by a fresh witness function
            newdom = ex.fresh("dom", z3.ArraySort(ks, BS))
            wit = ex.fresh("wit", z3.ArraySort(ks, IS))
            q = z3.Int("q!ir")
            ex.assume(z3.ForAll([q], z3.Implies(z3.And(i <= q, q < j), z3.Select(newdom, z3.Select(arr, q))),
                                patterns=[z3.Select(arr, q)]))
            ex.assume(z3.ForAll([k], z3.Implies(z3.Select(m.lv[("dom",)], k), z3.Select(newdom, k)), patterns=[z3.Select(m.lv[("dom",)], k)]))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(newdom, k), z3.Not(z3.Select(m.lv[("dom",)], k))),
                      z3.And(i <= z3.Select(wit, k), z3.Select(wit, k) < j, z3.Select(arr, z3.Select(wit, k)) == k)),
                      patterns=[z3.Select(newdom, k)]))
            n = ex.fresh("n", IS)
            ex.assume(n >= m.lv[("n",)])
            self.reenum(ex, lv, newdom, n)
            return V(VOID, {})
        raise Unsupported("map insert range")

    # ---- strings ------------------------------------------------------------------
    def strlen(self, ex, t):
        v = strvalue(t)
        if v is not None:
            return ival(len(v.encode()))
        n = UF_strlen(t)
        ex.assume(n >= 0)
        ex.assume((n == 0) == (t == strconst("")))
        return n

    def m_string(self, ex, f, this, args, fd, n):
        v = ex.load(this)
        t = v.t
        if f == "empty":
            return ex.vB(t == strconst(""))
        if f in ("size", "length"):
            return ex.vI(self.strlen(ex, t))
        if f in ("c_str", "data"):
            return v
        if f == "operator=":
            x = ex.load(args[0])
            ex.write(this, ex.convert(x, S) if x.shape is S else ex.freshV(S))
            return this
        if f == "operator+=":
            x = ex.load(args[0])
            ex.write(this, ex.vS(UF_strcat(t, x.t)) if x.shape is S else ex.freshV(S))
            return this
        if f == "clear":
            ex.write(this, ex.vS(""))
            return V(VOID, {})
        if f == "substr":
            a = coerce(ex.t(args[0]), IS)
            b = ex.load(args[1])
            return ex.vS(UF_strsub(t, a, coerce(b.t, IS)))
        if f in ("begin", "end", "cbegin", "cend"):
            return self.mkiter(ex, this if isinstance(this, LV) else ex.tolv(this), ival(0) if "b" in f else self.strlen(ex, t))
        if f == "swap":
            o = args[0]
            w = ex.load(o)
            ex.write(this, w)
            ex.write(o, v)
            return V(VOID, {})
        return NotImplemented

    def m_valarray(self, ex, f, this, args, fd, n):
        return NotImplemented

    # ---- R3 / ublas --------------------------------------------------------------
    def r3ctor(self, ex, s, nodes, fd):
        q = S_(fd.qn)
        ex.assumed.add("boost ublas fixed vector/matrix arithmetic")
        if q.endswith("zero_matrix::zero_matrix"):
            return ex.zero(M3)
        if q.endswith("zero_vector::zero_vector"):
            return ex.zero(V3)
        if q.endswith("identity_matrix::identity_matrix"):
            return V(M3, {("%d%d" % (i, j),): z3.RealVal(1 if i == j else 0) for i in range(3) for j in range(3)})
        args = ex.args_for(fd, nodes)
        vs = []
        for a, c in zip(args, nodes):
            if c["k"] == "CXXDefaultArgExpr":
                continue
            vs.append(self.rl(ex, a))
        if not vs or (vs[0].shape is I):
            return ex.blank(s)
        if vs[0].shape is s:
            return V(s, vs[0].lv)
        if vs[0].shape.kind == "seq":
            sv = vs[0]
            ex.check("three-element source", sv.lv[("len",)] >= 3)
            return V(s, {(str(i),): coerce(z3.Select(sv.lv[("el",)], i), RS) for i in range(3)})
        if vs[0].shape.kind == "ptr" and s is V3:
            p = vs[0].lv[()]
            out = {}
            for i in range(3):
                x = ex.arith("+", vs[0], ex.vI(i)) if i else vs[0]
                out[(str(i),)] = coerce(ex.t(ex.deref(x, R)), RS)
            return V(s, out)
        if len(vs) == 3 and all(v.shape.kind == "scalar" for v in vs):
            return V(s, {(str(i),): coerce(v.t, RS) for i, v in enumerate(vs)})
        raise Unsupported("R3 constructor " + fd.qn)

    def m_ublas(self, ex, f, this, args, fd, n):
        if not isinstance(this, LV):
            this = ex.tolv(this)
        s = this.shape
        if s is V3:
            if f in ("operator[]", "operator()"):
                return ex.index_struct(this, coerce(ex.t(args[0]), IS))
            if f in ("begin", "end"):
                return self.mkiter(ex, this, ival(0 if f == "begin" else 3))
            if f == "size":
                return ex.vI(3)
            if f == "data":
                return this
        if s is M3:
            if f == "operator()":
                i, j = coerce(ex.t(args[0]), IS), coerce(ex.t(args[1]), IS)
                return ex.index_struct(this, i * 3 + j)
            if f == "data":
                return this
            if f == "operator[]":
                return ex.index_struct(this, coerce(ex.t(args[0]), IS))
            if f in ("begin", "end"):
                return self.mkiter(ex, this, ival(0 if f == "begin" else 9))
            if f in ("size1", "size2"):
                return ex.vI(3)
        if s in (V3, M3):
            v = self.rl(ex, args[0]) if args else None
            if f in ("operator=", "assign"):
                if v.shape is s:
                    ex.write(this, V(s, v.lv))
                    return this
                if v.shape.kind == "struct" and repr(v.shape).startswith("array"):
                    return NotImplemented
            if f in ("operator+=", "operator-=") and v.shape is s:
                cur = ex.read(this)
                ex.write(this, V(s, {p: (cur.lv[p] + v.lv[p] if f == "operator+=" else cur.lv[p] - v.lv[p]) for p in cur.lv}))
                return this
            if f in ("operator*=", "operator/=") and v.shape.kind == "scalar":
                cur = ex.read(this)
                k = coerce(v.t, RS)
                if f == "operator/=":
                    ex.divcheck(k)
                ex.write(this, V(s, {p: (t * k if f == "operator*=" else t / k) for p, t in cur.lv.items()}))
                return this
            if f == "clear":
                ex.write(this, ex.zero(s))
                return V(VOID, {})
        if s.kind == "struct" and s.name.startswith("proxy"):
            pass
        if s.kind == "opaque" and this.root in ex.proxies:
            kind, tgt, idx = ex.proxies[this.root]
            if f == "operator=":
                v = self.rl(ex, args[0])
                if v.shape is not V3:
                    raise Unsupported("row/column assignment")
                for c in range(3):
                    fld = "%d%d" % ((idx, c) if kind == "row" else (c, idx))
                    ex.write(tgt.f(fld), V(R, {(): v.lv[(str(c),)]}))
                return this
        return NotImplemented

    def rl(self, ex, x):
        if isinstance(x, LV) and x.root in ex.proxies:
            kind, tgt, idx = ex.proxies[x.root]
            return self.proxyread(ex, kind, ex.load(tgt), idx)
        return ex.load(x)

    def proxyread(self, ex, kind, m, idx):
        return V(V3, {(str(c),): m.lv[("%d%d" % ((idx, c) if kind == "row" else (c, idx)),)] for c in range(3)})

    # ---- free functions -----------------------------------------------------------
    def limits(self, ex, fd, f):
        t = fd.cls.args[0].n if fd.cls is not None and fd.cls.args else "double"
        ex.assumed.add("std::numeric_limits")
        if t in ("double", "float"):
            if f == "epsilon":
                return ex.vR(EPS)
            if f == "max":
                return ex.vR(ex.DMAX)
            if f == "infinity":
                return ex.vR(ex.DINF)
            if f == "min":
                return ex.vR(z3.RealVal("1/44942328371557897693232629769725618340449424473557664318357520289433168951375240783177119330601884005280028469967848339414697442203604155623211857659868531094441973356216371319075554900311523529863270738021251442209537670585615720368478277635206809290627627671146574559986811484619929076208839082406056034304"))
        if t in ("int",):
            return ex.vI({"max": 2**31 - 1, "min": -2**31}[f])
        if t in ("unsigned long",):
            return ex.vI({"max": 2**64 - 1, "min": 0}[f])
        if t in ("long",):
            return ex.vI({"max": 2**63 - 1, "min": -2**63}[f])
        if t in ("unsigned int",):
            return ex.vI({"max": 2**32 - 1, "min": 0}[f])
        return NotImplemented

    def functor(self, ex, cls, args):
        x, y = ex.load(args[0]), ex.load(args[1])
        op = {"std::plus": "+", "std::multiplies": "*", "std::minus": "-", "std::divides": "/", "std::less": "<",
              "std::greater": ">", "std::equal_to": "=="}[cls]
        if x.shape is S:
            if op == "==":
                return ex.vB(x.t == y.t)
            return ex.vB(x.t < y.t)
        return ex.arith(op, x, y)

    def gsl(self, ex, f, args, fd):
        """3x3 matrices of gsl: element access, LU determinant and inverse (trusted)"""
        if f == "gsl_permutation_alloc":
            return V(ex.st.of(fd.ret), {(): PyPtr(LV("%gslperm", (), Opaque("gsl_permutation")))})
        if f in ("gsl_permutation_free", "gsl_matrix_free"):
            return ex.vI(0)
        if f in ("gsl_matrix_alloc", "gsl_matrix_calloc"):
            if any(not z3.is_true(z3.simplify(coerce(ex.t(a), IS) == 3)) for a in args):
                raise Unsupported("gsl matrix that is not 3x3")
            ex.nroot += 1
            lv = LV("%%gsl%d" % ex.nroot, (), M3)
            ex.assign(lv, ex.zero(M3, undef=f == "gsl_matrix_alloc"))
            return V(ex.st.of(fd.ret), {(): PyPtr(lv)})
        if f in ("gsl_matrix_set", "gsl_matrix_get"):
            m = ex.deref(args[0])
            i, j = (coerce(ex.t(a), IS) for a in args[1:3])
            ex.check("gsl matrix index in range", z3.And(i >= 0, i < 3, j >= 0, j < 3))
            e = ex.index_struct(m, i * 3 + j)
            if f == "gsl_matrix_get":
                return ex.load(e)
            ex.assign(e, ex.vR(coerce(ex.t(args[3]), RS)))
            return ex.vI(0)
        if f == "gsl_linalg_LU_decomp":
            m = ex.deref(args[0])
            ex.ghost[("lu", m.root, m.static())] = ex.read(m)
            ex.havoc(m)
            sg = ex.deref(args[2])
            ex.havoc(sg)
            ex.ghost[("lusign", m.root, m.static())] = ex.load(sg).t
            return ex.vI(0)
        if f in ("gsl_linalg_LU_det", "gsl_linalg_LU_invert"):
            m = ex.deref(args[0])
            o = ex.ghost.get(("lu", m.root, m.static()))
            if o is None:
                raise Unsupported("gsl LU of an undecomposed matrix")
            A = [[o.lv[("%d%d" % (i, j),)] for j in range(3)] for i in range(3)]
            det = det3(A)
            ex.assumed.add("gsl LU decomposition: determinant and inverse (trusted)")
            if f == "gsl_linalg_LU_det":
                if not z3.is_true(z3.simplify(coerce(ex.t(args[1]), IS) == ex.ghost[("lusign", m.root, m.static())])):
                    return ex.freshV(R, "det")
                return ex.vR(det)
            ex.check("inverted matrix is not singular", det != 0)
            b = ex.deref(args[2])
            B = [[ex.fresh("inv%d%d" % (i, j), RS) for j in range(3)] for i in range(3)]
            for i in range(3):
                for j in range(3):
                    ex.assume(sum((A[i][k] * B[k][j] for k in range(1, 3)), A[i][0] * B[0][j]) == (1 if i == j else 0))
                    ex.assume(sum((B[i][k] * A[k][j] for k in range(1, 3)), B[i][0] * A[0][j]) == (1 if i == j else 0))
            ex.assign(b, V(M3, {("%d%d" % (i, j),): B[i][j] for i in range(3) for j in range(3)}))
            return ex.vI(0)
        if f == "gsl_matrix_view_array":
            if any(not z3.is_true(z3.simplify(coerce(ex.t(a), IS) == 3)) for a in args[1:3]):
                raise Unsupported("gsl view that is not 3x3")
            p0 = ex.load(args[0]).lv[()]
            if not isinstance(p0, PyPtr) or not p0.lv.path or p0.lv.path[-1] != "00":
                raise Unsupported("gsl view of an unknown array")
            v = V(Opaque("gsl_matrix_view"), {})
            v.ghost = LV(p0.lv.root, p0.lv.path[:-1], M3)
            return v
        raise Unsupported("gsl function " + f)

    def m_free(self, ex, f, args, fd, n, q):
        if f == "operator<<" and "basic_ostream" in fd.params[0].s:
            ex.assumed.add("stream/exception formatting (no effect)")
            return args[0]
        if f.startswith("gsl_") and f.split("_")[1] in ("matrix", "linalg", "permutation"):
            return self.gsl(ex, f, args, fd)
        if f in ("sqrt", "exp", "log", "sin", "cos", "acos", "asin", "erf", "log2", "tan", "atan", "log10", "gsl_sf_erf") and len(args) == 1:
            return self.math1(ex, "erf" if f == "gsl_sf_erf" else f, coerce(ex.t(args[0]), RS))
        if f in ("fabs", "abs", "fabsl"):
            t = ex.t(args[0])
            return ex.mk(R if t.sort() == RS else I, z3.If(t >= 0, t, -t))
        if f in ("floor", "ceil", "round", "trunc", "rint", "nearbyint"):
            t = coerce(ex.t(args[0]), RS)
            if f == "floor":
                return ex.vR(z3.ToReal(ex.floor(t)))
            if f == "ceil":
                return ex.vR(-z3.ToReal(ex.floor(-t)))
            if f == "round":
                return ex.vR(z3.If(t >= 0, z3.ToReal(ex.floor(t + z3.RealVal("1/2"))), -z3.ToReal(ex.floor(-t + z3.RealVal("1/2")))))
            if f == "trunc":
                return ex.vR(z3.ToReal(ex.trunc(t)))
        if f == "fmod":
            x, y = (coerce(ex.t(a), RS) for a in args)
            # fmod(x, y) = x - y*trunc(x/y)
            if z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).as_fraction() > 0:
                k = z3.ToReal(ex.floor(z3.If(x >= 0, x, -x) / y))
                return ex.vR(z3.If(x >= 0, x - y * k, x + y * k))
            k = ex.fresh("fmodk", IS)
            r = x - z3.ToReal(k) * y
            ay = z3.If(y >= 0, y, -y)
            ex.assume(z3.Implies(y != 0, z3.And(z3.If(r >= 0, r, -r) < ay, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0))))
            return ex.vR(r)
        if f == "remainder":
            x, y = (coerce(ex.t(a), RS) for a in args)
            if z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).as_fraction() > 0:
                f = ex.floor(x / y + z3.RealVal("1/2"))
                tie = z3.And(x / y + z3.RealVal("1/2") == z3.ToReal(f), f % 2 == 1)
                return ex.vR(x - y * z3.ToReal(z3.If(tie, f - 1, f)))
            k = ex.fresh("remk", IS)
            r = x - z3.ToReal(k) * y
            ay = z3.If(y >= 0, y, -y)
            ex.assume(z3.Implies(y != 0, z3.And(2 * r <= ay, 2 * r >= -ay)))
            return ex.vR(r)
        if f == "pow":
            return self.pow(ex, args)
        if f in ("isnan", "isinf"):
            return ex.vB(False)
        if f == "isfinite":
            return ex.vB(True)
        if f == "bind" and q.startswith("std::"):
            items = []
            for t, x in zip(fd.params[1:], args[1:]):
                m = re.search(r"std::_Placeholder<(\d+)>", t.s)
                items.append(int(m.group(1)) - 1 if m else ex.load(x))
            b = V(Opaque("std::bind"), {})
            b.ghost = Bound(ex.load(args[0]), items)
            return b
        if f in ("min", "max") and len(args) == 2:
            a, b = ex.load(args[0]), ex.load(args[1])
            if a.shape.kind != "scalar":
                raise Unsupported("min/max")
            x, y = a.t, b.t
            if x.sort() != y.sort():
                x, y = coerce(x, RS), coerce(y, RS)
            # std::max(a,b): (a<b)?b:a ; std::min(a,b): (b<a)?b:a
            return V(a.shape, {(): z3.If(x < y, y, x) if f == "max" else z3.If(y < x, y, x)})
        if f == "hypot":
            x, y = (coerce(ex.t(a), RS) for a in args)
            return self.math1(ex, "sqrt", x * x + y * y)
        if f in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
            r = self.compare(ex, f, args)
            return r
        if f == "operator+" and len(args) == 2:
            a, b = ex.load(args[0]), ex.load(args[1])
            if a.shape is S or b.shape is S:
                if a.shape is S and b.shape is S:
                    return ex.vS(UF_strcat(a.t, b.t))
                return ex.freshV(S, "cat")
        if f in ("operator+", "operator-", "operator*", "operator/") and len(args) in (1, 2):
            r = self.vecarith(ex, f[8:], [self.rl(ex, a) for a in args])
            if r is not None:
                return r
            a, b = (ex.load(x) for x in args[:2]) if len(args) == 2 else (None, None)
            if a is not None and a.shape.kind == "iter" and b.shape.kind == "iter" and f == "operator-":
                d = a.lv[("idx",)] - b.lv[("idx",)]
                return ex.vI(-d if a.shape.rev else d)
            if a is not None and a.shape.kind == "iter":
                return self.m_iter(ex, f, args[0], args[1:], fd, n)
            return NotImplemented
        if f in ("prod",):
            return self.prod(ex, self.rl(ex, args[0]), self.rl(ex, args[1]))
        if f == "trans":
            m = ex.load(args[0])
            return V(M3, {("%d%d" % (i, j),): m.lv[("%d%d" % (j, i),)] for i in range(3) for j in range(3)})
        if f == "inner_prod":
            a, b = ex.load(args[0]), ex.load(args[1])
            return ex.vR(sum((a.lv[(str(i),)] * b.lv[(str(i),)] for i in range(3)), z3.RealVal(0)))
        if f == "norm_2":
            a = ex.load(args[0])
            return self.math1(ex, "sqrt", sum((a.lv[(str(i),)] * a.lv[(str(i),)] for i in range(3)), z3.RealVal(0)))
        if f in ("row", "column"):
            m = args[0]
            idx = z3.simplify(coerce(ex.t(args[1]), IS))
            if not z3.is_int_value(idx):
                raise Unsupported("symbolic row/column index")
            idx = idx.as_long()
            mv = ex.load(m)
            ty = S_(fd.ret.s).replace("const ", "")
            if isinstance(m, LV) and "matrix_" in fd.ret.s and not fd.ret.to:
                lv = ex.tmp(V(V3, self.proxyread(ex, f, mv, idx).lv))
                lv = LV(lv.root, (), Opaque("proxy"))
                ex.proxies[lv.root] = (f, m, idx)
                return lv
            return self.proxyread(ex, f, mv, idx)
        if f in ("make_pair",):
            a, b = ex.load(args[0]), ex.load(args[1])
            return self.mkpair(ex, pair(a.shape, b.shape), a, b)
        if f in ("move", "forward", "ref", "cref", "addressof"):
            return args[0]
        if f == "swap":
            a, b = args
            va, vb = ex.load(a), ex.load(b)
            ex.assign(a, vb)
            ex.assign(b, va)
            return V(VOID, {})
        if f in ("const_pointer_cast", "static_pointer_cast"):
            v = ex.load(args[0])
            return V(ex.st.of(fd.ret), {(): v.lv[()]})
        if f == "dynamic_pointer_cast":
            v = ex.load(args[0])
            p = v.lv[()]
            sh = ex.st.of(fd.ret)
            tgt = sh.to.s.replace("const ", "")
            if isinstance(p, core.PyPtr):
                nm = getattr(p.lv.shape, "name", None)
                if nm and tgt in ex.prog.bases_of(nm):
                    return V(sh, {(): p})
                raise Unsupported("dynamic_pointer_cast of known pointer")
            isa = z3.Function("isa:" + tgt, IS, BS)
            return V(sh, {(): z3.If(z3.And(p != 0, isa(p)), p, z3.IntVal(0))})
        if f == "make_shared" or f == "make_unique":
            return self.make_shared(ex, fd, args)
        if f == "fill":
            a, b, v = (ex.load(x) for x in args)
            c = self.itercont(ex, a)
            i, j = a.lv[("idx",)], b.lv[("idx",)]
            cur = ex.read(c)
            if c.shape in (V3, M3):
                raise Unsupported("fill of fixed")
            k = z3.Int("k!fi")
            v = ex.convert(v, c.shape.el)
            ex.check("fill range valid", z3.And(0 <= i, i <= j, j <= cur.lv[("len",)]))
            for p, so in c.shape.el.leaves():
                arr = cur.lv[("el",) + p]
                ex.writeleaf(c, ("el",) + p, z3.Lambda([k], z3.If(z3.And(i <= k, k < j), coerce(v.lv[p], so), z3.Select(arr, k))))
            return V(VOID, {})
        if f == "back_inserter":
            return V(Opaque("back_inserter"), {(): core.PyPtr(args[0])})
        if f in ("toupper", "tolower") :
            return ex.freshV(I, "chr")
        if f == "advance":
            it = ex.load(args[0])
            d = ex.t(args[1])
            self.setiter(ex, args[0], V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): it.lv[("idx",)] + (-d if it.shape.rev else d)}))
            return V(VOID, {})
        if f == "distance":
            a, b = ex.load(args[0]), ex.load(args[1])
            d = b.lv[("idx",)] - a.lv[("idx",)]
            return ex.vI(-d if a.shape.rev else d)
        if f in ("next", "prev"):
            it = ex.load(args[0])
            d = ex.t(args[1]) if len(args) > 1 else ival(1)
            return V(it.shape, {("cont",): it.lv[("cont",)], ("idx",): it.lv[("idx",)] + (d if f == "next" else -d)})
        if f in ("max_element", "min_element"):
            a, b = ex.load(args[0]), ex.load(args[1])
            if a.shape.kind != "iter" or len(args) > 2:
                raise Unsupported(f)
            c = self.itercont(ex, a)
            cv = ex.read(c)
            i, j = a.lv[("idx",)], b.lv[("idx",)]
            r = ex.fresh(f, IS)
            q_ = z3.Int("q!me")
            arr = cv.lv[("el",)]
            cmp_ = (lambda u, w: u <= w) if f == "max_element" else (lambda u, w: u >= w)
            ex.assume(z3.If(i < j, z3.And(i <= r, r < j), r == j))
            ex.assume(z3.ForAll([q_], z3.Implies(z3.And(i <= q_, q_ < j), cmp_(z3.Select(arr, q_), z3.Select(arr, r))), patterns=[z3.Select(arr, q_)]))
            ex.assume(z3.ForAll([q_], z3.Implies(z3.And(i <= q_, q_ < r), z3.Select(arr, q_) != z3.Select(arr, r)), patterns=[z3.Select(arr, q_)]))
            return self.mkiter(ex, c, r)
        if f == "equal" and len(args) in (3, 4):
            a, b, c2 = (ex.load(x) for x in args[:3])
            if a.shape.kind == "iter":
                ca, cb = self.itercont(ex, a), self.itercont(ex, c2)
                if ca.shape in (V3, M3) and cb.shape in (V3, M3):
                    i, j, o = (z3.simplify(x.lv[("idx",)]) for x in (a, b, c2))
                    if all(z3.is_int_value(x) for x in (i, j, o)):
                        es = []
                        for k in range(j.as_long() - i.as_long()):
                            x = ex.load(ex.index_struct(ca, ival(i.as_long() + k)))
                            y = ex.load(ex.index_struct(cb, ival(o.as_long() + k)))
                            es.append(ex.load(self.apply_pure(ex, ex.load(args[3]), [x, y], args[3])).t if len(args) == 4 else x.t == y.t)
                        return ex.vB(z3.And(es))
                if ca.shape.kind == "seq" and cb.shape.kind == "seq":
                    i, j, o = a.lv[("idx",)], b.lv[("idx",)], c2.lv[("idx",)]
                    va, vb = ex.read(ca), ex.read(cb)
                    ex.check("equal: ranges valid", z3.And(0 <= i, i <= j, j <= va.lv[("len",)], o >= 0, o + (j - i) <= vb.lv[("len",)]))
                    k = z3.Int("k!eq")
                    if len(args) == 4:
                        x = V(ca.shape.el, {p: z3.Select(va.lv[("el",) + p], i + k) for p, _ in ca.shape.el.leaves()})
                        y = V(cb.shape.el, {p: z3.Select(vb.lv[("el",) + p], o + k) for p, _ in cb.shape.el.leaves()})
                        es = [ex.load(self.apply_pure(ex, ex.load(args[3]), [x, y], args[3])).t]
                    else:
                        es = [z3.Select(va.lv[("el",) + p], i + k) == z3.Select(vb.lv[("el",) + p], o + k) for p, _ in ca.shape.el.leaves()]
                    return ex.vB(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j - i), z3.And(*es))))
        if f == "lexicographical_compare" and len(args) in (4, 5):
            vs = [ex.load(x) for x in args[:4]]
            if all(v.shape.kind == "iter" for v in vs):
                ca, cb = self.itercont(ex, vs[0]), self.itercont(ex, vs[2])
                if ca.shape in (V3, M3) and cb.shape in (V3, M3):
                    i, i2, j, j2 = (z3.simplify(v.lv[("idx",)]) for v in vs)
                    if all(z3.is_int_value(x) for x in (i, i2, j, j2)) and i2.as_long() - i.as_long() == j2.as_long() - j.as_long():
                        res = z3.BoolVal(False)
                        for k in reversed(range(i2.as_long() - i.as_long())):
                            x = ex.load(ex.index_struct(ca, ival(i.as_long() + k)))
                            y = ex.load(ex.index_struct(cb, ival(j.as_long() + k)))
                            lt = lambda p, q: ex.load(self.apply_pure(ex, ex.load(args[4]), [p, q], args[4])).t if len(args) == 5 else p.t < q.t
                            res = z3.If(lt(x, y), True, z3.If(lt(y, x), False, res))
                        return ex.vB(res)
                if ca.shape.kind == "seq" and cb.shape.kind == "seq":
                    i, i2, j, j2 = (v.lv[("idx",)] for v in vs)
                    va, vb = ex.read(ca), ex.read(cb)
                    ex.check("lexicographical_compare: ranges valid", z3.And(0 <= i, i <= i2, i2 <= va.lv[("len",)], 0 <= j, j <= j2, j2 <= vb.lv[("len",)]))

                    def less(k, flip):
                        x = V(ca.shape.el, {p: z3.Select(va.lv[("el",) + p], i + k) for p, _ in ca.shape.el.leaves()})
                        y = V(cb.shape.el, {p: z3.Select(vb.lv[("el",) + p], j + k) for p, _ in cb.shape.el.leaves()})
                        a = [y, x] if flip else [x, y]
                        if len(args) == 5:
                            return ex.load(self.apply_pure(ex, ex.load(args[4]), a, args[4])).t
                        return ex.load(ex.arith("<", a[0], a[1])).t
                    k = z3.Int("k!lc")
                    m = ex.fresh("lexpos", IS)
                    na, nb = i2 - i, j2 - j
                    mn = z3.If(na < nb, na, nb)
                    ex.assume(z3.And(0 <= m, m <= mn, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(z3.Not(less(k, False)), z3.Not(less(k, True)))))))
                    ex.assume(z3.Or(m == mn, less(m, False), less(m, True)))
                    return ex.vB(z3.If(m == mn, na < nb, less(m, False)))
        if f == "transform":
            return self.transform(ex, args)
        if f == "copy" and len(args) == 3:
            a, b, o = (ex.load(x) for x in args)
            if a.shape.kind == "iter" and o.shape.kind == "iter":
                ca, co = self.itercont(ex, a), self.itercont(ex, o)
                i, j, w = a.lv[("idx",)], b.lv[("idx",)], o.lv[("idx",)]
                va, vo = ex.read(ca), ex.read(co)
                if ca.shape.kind == "seq" and co.shape.kind == "seq":
                    ex.check("copy: ranges valid", z3.And(0 <= i, i <= j, j <= va.lv[("len",)], w >= 0, w + (j - i) <= vo.lv[("len",)]))
                    k = z3.Int("k!cp")
                    for p, so in co.shape.el.leaves():
                        src, dst = va.lv[("el",) + p], vo.lv[("el",) + p]
                        ex.writeleaf(co, ("el",) + p, z3.Lambda([k], z3.If(z3.And(w <= k, k < w + (j - i)), z3.Select(src, k - w + i), z3.Select(dst, k))))
                    return self.mkiter(ex, co, w + (j - i))
        if f == "accumulate":
            raise Unsupported("accumulate")
        return NotImplemented

    def transform(self, ex, args):
        vs = [ex.load(x) for x in args]
        if len(vs) == 5 and all(v.shape.kind == "iter" for v in vs[:4]):
            a, b, c, o, fn = vs
            ca, cc, co = (self.itercont(ex, x) for x in (a, c, o))
            i, j, m, w = (x.lv[("idx",)] for x in (a, b, c, o))
            va, vc, vo = ex.read(ca), ex.read(cc), ex.read(co)
            ex.check("transform: ranges valid", z3.And(0 <= i, i <= j, j <= va.lv[("len",)], m >= 0, m + (j - i) <= vc.lv[("len",)],
                                                       w >= 0, w + (j - i) <= vo.lv[("len",)]))
            k = z3.Int("k!tr")
            x = V(ca.shape.el, {p: z3.Select(va.lv[("el",) + p], k - w + i) for p, _ in ca.shape.el.leaves()})
            y = V(cc.shape.el, {p: z3.Select(vc.lv[("el",) + p], k - w + m) for p, _ in cc.shape.el.leaves()})
            r = ex.convert(self.apply_pure(ex, fn, [x, y]), co.shape.el)
            for p, so in co.shape.el.leaves():
                ex.writeleaf(co, ("el",) + p, z3.Lambda([k], z3.If(z3.And(w <= k, k < w + (j - i)), r.lv[p], z3.Select(vo.lv[("el",) + p], k))))
            return self.mkiter(ex, co, w + (j - i))
        if len(vs) == 4 and all(v.shape.kind == "iter" for v in vs[:3]):
            a, b, o, fn = vs
            ca, co = self.itercont(ex, a), self.itercont(ex, o)
            if ca.shape is S:
                if ca.same(co) and "toupper" in repr(getattr(fn.lv.get(()), "fd", None)):
                    t = ex.load(ca).t
                    v = strvalue(t)
                    ex.write(ca, ex.vS(v.upper() if v is not None else UF_strupper(t)))
                    return self.mkiter(ex, co, o.lv[("idx",)])
                raise Unsupported("transform of a string %r %r" % (fn, getattr(fn,"lv",None)))
            i, j, w = (x.lv[("idx",)] for x in (a, b, o))
            va, vo = ex.read(ca), ex.read(co)
            ex.check("transform: ranges valid", z3.And(0 <= i, i <= j, j <= va.lv[("len",)], w >= 0, w + (j - i) <= vo.lv[("len",)]))
            k = z3.Int("k!tr")
            x = V(ca.shape.el, {p: z3.Select(va.lv[("el",) + p], k - w + i) for p, _ in ca.shape.el.leaves()})
            r = ex.convert(self.apply_pure(ex, fn, [x]), co.shape.el)
            for p, so in co.shape.el.leaves():
                ex.writeleaf(co, ("el",) + p, z3.Lambda([k], z3.If(z3.And(w <= k, k < w + (j - i)), r.lv[p], z3.Select(vo.lv[("el",) + p], k))))
            return self.mkiter(ex, co, w + (j - i))
        raise Unsupported("transform")

    def apply_pure(self, ex, fn, vals, lv=None):
        """value of a callback on symbolic elements: no branching, no fresh symbols (they would not be functions of the index)"""
        def nodecide(c):
            s = z3.simplify(c)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            raise Unsupported("branch inside a callback")
        prev = ex.__dict__.get("decide")
        ex.decide = nodecide
        n0 = ex.nfresh
        try:
            r = self.apply_pure_(ex, fn, vals, lv)
        finally:
            if prev is None:
                del ex.decide
            else:
                ex.decide = prev
        if ex.nfresh != n0:
            raise Unsupported("callback needs fresh symbols")
        return r

    def apply_pure_(self, ex, fn, vals, lv):
        f = fn.lv.get(())
        if isinstance(f, (Closure, FnVal)):
            return ex.load(ex.apply_fn(f, vals))
        if isinstance(fn.ghost, Bound):
            f = fn.ghost
            return self.apply_pure_(ex, f.fn, [vals[x] if isinstance(x, int) else x for x in f.items], lv)
        n = getattr(fn.shape, "n", "") or getattr(fn.shape, "name", "")
        m = re.match(r"(?:struct |class )?(std::(plus|minus|multiplies|divides|less|greater|equal_to))", n)
        if m:
            return self.functor(ex, m.group(1), vals)
        # a functor class of /repo
        cands = []
        for g in ex.prog.byqn.get(n + "::operator()", []):
            if len(g.fd.params) == len(vals) and all(ex.st.of(t) is v.shape for t, v in zip(g.fd.params, vals)):
                cands.append(g)
        if len(cands) == 1:
            this = lv if isinstance(lv, LV) else ex.tmp(fn, "functor")
            args = [ex.tmp(v, "cb") if t.k == "r" else v for t, v in zip(cands[0].fd.params, vals)]
            ex.inlined.add(cands[0].fd.qn)
            return ex.load(ex.run_body(cands[0], this, args))
        raise Unsupported("callable " + n)

    def make_shared(self, ex, fd, args):
        to = fd.ret.args[0] if fd.ret.args else None
        if to is None:
            raise Unsupported("make_shared")
        s = ex.st.of(to)
        h = ex.unit.new_hook(ex, to, None)
        if h is not None:
            return h
        ex.nroot += 1
        lv = LV("%%new%d" % ex.nroot, (), s)
        ex.mem[lv.root] = {}
        if len(args) == 1 and ex.load(args[0]).shape is s:
            ex.assign(lv, ex.load(args[0]))
        elif not args and s.kind != "opaque":
            if to.s in ex.prog.records:
                ex.default_init_class(lv, to)
            else:
                ex.assign(lv, ex.zero(s))
        elif s.kind != "opaque":
            cands = [f for f in ex.prog.byqn.get(to.n + "::" + short(to.n), []) if len(f.fd.params) == len(args) and not f.fd.copy]
            if len(cands) != 1:
                raise Unsupported("make_shared<%s>" % to.s)
            ex.run_body(cands[0], lv, args)
        return V(Ptr(to, True), {(): core.PyPtr(lv)})

    def math1(self, ex, f, x):
        r = UF[f](x)
        if f == "sqrt":
            s = z3.simplify(x)
            ex.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif f == "exp":
            ex.assume(r > 0)
            ex.assume(z3.Implies(x >= 0, r >= 1))
            ex.assume(z3.Implies(x <= 0, r <= 1))
            ex.assume(z3.Implies(x == 0, r == 1))
        elif f in ("sin", "cos"):
            ex.assume(z3.And(r >= -1, r <= 1))
            if f == "sin":
                ex.assume(z3.Implies(x == 0, r == 0))
            else:
                ex.assume(z3.Implies(x == 0, r == 1))
        elif f == "acos":
            ex.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= z3.RealVal("3.1415926535897932385"), UF["cos"](r) == x)))
        elif f == "asin":
            ex.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= -z3.RealVal("1.5707963267948966193"), r <= z3.RealVal("1.5707963267948966193"), UF["sin"](r) == x)))
        elif f == "log":
            ex.assume(z3.Implies(x > 0, UF["exp"](r) == x))
            ex.assume(z3.Implies(x > 1, r > 0))
            ex.assume(z3.Implies(x == 1, r == 0))
            ex.assume(z3.Implies(z3.And(x > 0, x < 1), r < 0))
        elif f == "erf":
            ex.assume(z3.And(r > -1, r < 1, z3.Implies(x > 0, r > 0), z3.Implies(x == 0, r == 0), z3.Implies(x < 0, r < 0)))
        ex.assumed.add("libm " + f + " (uninterpreted with stated facts)")
        return ex.vR(r)

    def pow(self, ex, args):
        x = coerce(ex.t(args[0]), RS)
        y = ex.t(args[1])
        sy = z3.simplify(coerce(y, RS))
        if z3.is_rational_value(sy):
            fr = sy.as_fraction()
            if fr.denominator == 1 and 0 <= fr.numerator <= 8:
                r = z3.RealVal(1)
                for _ in range(fr.numerator):
                    r = r * x
                return ex.vR(r)
            if fr == core.Fraction(1, 2):
                return self.math1(ex, "sqrt", x)
            if fr.denominator == 1 and -4 <= fr.numerator < 0:
                r = z3.RealVal(1)
                for _ in range(-fr.numerator):
                    r = r * x
                ex.divcheck(r)
                return ex.vR(1 / r)
        sx = z3.simplify(x)
        if z3.is_rational_value(sx) and sx.as_fraction() == 2 and y.sort() == IS:
            return ex.vR(z3.ToReal(core.UF_pow2(y)))
        return ex.vR(UF_pow(x, coerce(y, RS)))

    def compare(self, ex, f, args):
        op = f[8:]
        a, b = ex.load(args[0]), ex.load(args[1])
        if a.shape.kind == "iter" and b.shape.kind == "iter":
            return self.itercmp(ex, f, a, b)
        if a.shape is S or b.shape is S:
            x, y = a.t, b.t
            if x.sort() != SS or y.sort() != SS:
                raise Unsupported("string comparison")
            if op == "==":
                return ex.vB(x == y)
            if op == "!=":
                return ex.vB(x != y)
            return ex.vB({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if a.shape.kind == "ptr" or b.shape.kind == "ptr":
            return ex.arith(op, a, b)
        if op in ("==", "!="):
            if a.shape.kind in ("seq", "map", "struct"):
                e = ex.eq(a, b)
                return ex.vB(e if op == "==" else z3.Not(e))
        if a.shape.kind == "struct" and repr(a.shape).startswith("pair<") and op in ("<", ">", "<=", ">="):
            if op in (">", "<="):
                a, b = b, a
            x1, x2, y1, y2 = a.sub("first"), a.sub("second"), b.sub("first"), b.sub("second")
            if all(v.shape.kind == "scalar" for v in (x1, x2)):
                r = z3.Or(x1.t < y1.t, z3.And(x1.t == y1.t, x2.t < y2.t))
                return ex.vB(r if op in ("<", ">") else z3.Not(r))
        return NotImplemented

    def vecarith(self, ex, op, vs):
        a = vs[0]
        b = vs[1] if len(vs) > 1 else None
        fixed = lambda v: v is not None and v.shape in (V3, M3)
        if b is None:
            if fixed(a) and op == "-":
                return V(a.shape, {p: -t for p, t in a.lv.items()})
            return None
        if fixed(a) and fixed(b) and a.shape is b.shape and op in ("+", "-"):
            return V(a.shape, {p: (t + b.lv[p] if op == "+" else t - b.lv[p]) for p, t in a.lv.items()})
        if fixed(a) and b.shape.kind == "scalar" and op in ("*", "/"):
            k = coerce(b.t, RS)
            if op == "/":
                ex.divcheck(k)
            return V(a.shape, {p: (t * k if op == "*" else t / k) for p, t in a.lv.items()})
        if fixed(b) and a.shape.kind == "scalar" and op == "*":
            k = coerce(a.t, RS)
            return V(b.shape, {p: k * t for p, t in b.lv.items()})
        return None

    def prod(self, ex, a, b):
        if a.shape is M3 and b.shape is M3:
            return V(M3, {("%d%d" % (i, j),): sum((a.lv[("%d%d" % (i, k),)] * b.lv[("%d%d" % (k, j),)] for k in range(1, 3)),
                          a.lv[("%d0" % i,)] * b.lv[("0%d" % j,)]) for i in range(3) for j in range(3)})
        if a.shape is M3 and b.shape is V3:
            return V(V3, {(str(i),): sum((a.lv[("%d%d" % (i, k),)] * b.lv[(str(k),)] for k in range(1, 3)), a.lv[("%d0" % i,)] * b.lv[("0",)]) for i in range(3)})
        if a.shape is V3 and b.shape is M3:
            return V(V3, {(str(j),): sum((a.lv[(str(k),)] * b.lv[("%d%d" % (k, j),)] for k in range(1, 3)), a.lv[("0",)] * b.lv[("0%d" % j,)]) for j in range(3)})
        raise Unsupported("prod")
