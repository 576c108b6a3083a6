from dv.contract import *
from dv import core
from dv.shapes import packkey, keysort, pair
import z3
ID = "C03"
LEVEL = "proof"
TUS = ["srreal/PairQuantity.cpp", "srreal/PQEvaluator.cpp"]
HARNESS = "C03.cpp"
BOUNDED = ["PairQuantity::updateMaskData with type masks (propagation of type masks to the sites of a structure): random histories, structures of up to 7 sites",
           "evaluation with masks through BondCalculator, PairCounter and a recording quantity: the same histories"]
ASSUMPTIONS = ["std::unordered_map/set enumerate each key once, erase(it) keeps the other elements and returns the next one (dv/models.py)",
               "strings are values with a total order; toupper(\"all\") is \"ALL\"",
               "no atom type is called \"all\"; index and type masks are not mixed without a mask for all pairs in between"]
N = "diffpy::srreal::"
Q = N + "PairQuantity::"
Is, Bs = z3.IntSort(), z3.BoolSort()
II = pair(I, I)
SS = pair(S, S)
ALL = strconst("all")


def K(i, j):
    return packkey(II, {("first",): i, ("second",): j})


def KS(i, j):
    return packkey(SS, {("first",): i, ("second",): j})


def srt(mk, i, j):
    return z3.If(i > j, mk(j, i), mk(i, j))


TK = z3.Function("TK", Is, Is, keysort(SS))


def tkdef():
    """TK(a, b): the sorted pair of types"""
    a, b = z3.Ints("a!tk b!tk")
    return [z3.ForAll([a, b], TK(a, b) == srt(KS, a, b), patterns=[TK(a, b)])]


def comp(k, n, shape=None):
    from dv.shapes import unpackkey
    return unpackkey(shape or II, k)[(("first",), ("second",))[n]]


class State:
    """mask state of a PairQuantity in the given memory"""

    def __init__(self, c, mem=None):
        g = lambda n: c.ex.read(c.m(n), mem) if mem is not None else c.v(n)
        self.d = g("mdefaultpairmask").lv[()]
        self.inv = g("minvertpairmask").lv[("dom",)]
        a, s, t = g("msiteallmask"), g("msitepairmask"), g("mtypemask")
        self.all, self.allv = a.lv[("dom",)], a.lv[("val",)]
        self.sp, self.spv = s.lv[("dom",)], s.lv[("val",)]
        self.t, self.tv, self.tn = t.lv[("dom",)], t.lv[("val",)], t.lv[("n",)]

    def pair(self, k):
        """what getPairMask returns for the sorted pair k"""
        return z3.Select(self.inv, k) != self.d

    def eff(self, i, j):
        """what was asked for the pair i <= j"""
        k = K(i, j)
        return z3.If(z3.Select(self.sp, k), z3.Select(self.spv, k), z3.If(
            z3.Select(self.all, i), z3.Select(self.allv, i), z3.If(z3.Select(self.all, j), z3.Select(self.allv, j), self.pair(k))))

    def teff(self, a, b):
        """what was asked for the pair of types a, b"""
        k, ka, kb = TK(a, b), TK(a, ALL), TK(b, ALL)
        return z3.If(z3.Select(self.t, k), z3.Select(self.tv, k), z3.If(
            z3.Select(self.t, ka), z3.Select(self.tv, ka), z3.If(z3.Select(self.t, kb), z3.Select(self.tv, kb), self.d)))

    def invariant(self):
        """two sites with opposite masks for 'all' have an explicit entry for their pair"""
        i, j = z3.Ints("i! j!")
        return [("opposite masks for all have an explicit pair mask", z3.ForAll([i, j], z3.Implies(
            z3.And(i < j, z3.Select(self.all, i), z3.Select(self.all, j), z3.Select(self.allv, i) != z3.Select(self.allv, j)),
            z3.Select(self.sp, K(i, j))), patterns=[z3.MultiPattern(z3.Select(self.all, i), z3.Select(self.all, j))])),
            ("explicit pair masks have sorted indices and override the mask of a site", z3.ForAll([i, j], z3.Implies(z3.Select(self.sp, K(i, j)), z3.And(
                0 <= i, i <= j, z3.Or(z3.Select(self.all, i), z3.Select(self.all, j)))), patterns=[z3.Select(self.sp, K(i, j))]))]

    def tinvariant(self):
        a, b = z3.Ints("a! b!")
        oppo = z3.And(z3.Select(self.t, TK(a, ALL)), z3.Select(self.t, TK(b, ALL)),
                      z3.Select(self.tv, TK(a, ALL)) != z3.Select(self.tv, TK(b, ALL)))
        return [("opposite type masks for all have an explicit pair mask", z3.ForAll([a, b], z3.Implies(
            z3.And(a != b, a != ALL, b != ALL, oppo), z3.Select(self.t, TK(a, b))), patterns=[z3.MultiPattern(TK(a, ALL), TK(b, ALL))])),
            ("type masks have sorted types", z3.ForAll([a, b], z3.Implies(z3.Select(self.t, KS(a, b)), a <= b), patterns=[z3.Select(self.t, KS(a, b))])),
            ("the mask for all pairs is the default", z3.Not(z3.Select(self.t, KS(ALL, ALL))))]


def frame(*names):
    return lambda c: [c.lv(n) for n in names]


CNT = z3.Int("CNT")
countSites = Assumed(Q + "countSites", post=lambda c: [("", z3.And(c.rt == CNT, CNT >= 0))], name="PairQuantity::countSites")
clicked = z3.Function("clicked", Is, Is)


def click(ex, call):
    ex.write(CLICKS, ex.vI(ex.load(CLICKS).lv[()] + 1))
    return V(VOID, {})


CLICKS = LV("$clicks", (), I)
CLICK = Custom(N.replace("srreal::", "eventticker::") + "EventTicker::click", click, trusted="C19", name="EventTicker::click")

sortedPair = Spec(Q + "sortedIndexPair", post=lambda c: [("the two indices in order", z3.And(
    c.r.lv[("first",)] <= c.r.lv[("second",)], z3.Or(z3.And(c.r.lv[("first",)] == c.at(0), c.r.lv[("second",)] == c.at(1)),
                                                     z3.And(c.r.lv[("first",)] == c.at(1), c.r.lv[("second",)] == c.at(0)))))], frame=lambda c: [])


def svalue_post(c):
    s0, s1 = State(c, c.pre), State(c)
    k = srt(K, c.at(0), c.at(1))
    q = z3.Const("q!", keysort(II))
    return [("the pair has the mask", s1.pair(k) == c.at(2)),
            ("no other pair changes", z3.ForAll([q], z3.Implies(q != k, z3.Select(s1.inv, q) == z3.Select(s0.inv, q)), patterns=[z3.Select(s1.inv, q)])),
            ("true when the mask changed", c.rt == (s0.pair(k) != c.at(2)))]


setValue = Spec(Q + "setPairMaskValue", use=[sortedPair], pre=lambda c: [("valid indices", z3.And(c.at(0) >= 0, c.at(1) >= 0))],
                post=svalue_post, frame=frame("minvertpairmask"), noexcept=True)
getMask = Spec(Q + "getPairMask", use=[sortedPair], frame=lambda c: [], noexcept=True,
               post=lambda c: [("the mask of the pair, whatever the order of indices", c.rt == State(c).pair(srt(K, c.at(0), c.at(1))))])


def allpairs(c, f):
    """f(state before, state after, i, j) for all pairs i <= j"""
    i, j = z3.Ints("i! j!")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), f(State(c, c.pre), State(c), i, j)))


def alltypes(c, f):
    a, b = z3.Ints("a! b!")
    return z3.ForAll([a, b], z3.Implies(z3.And(a != ALL, b != ALL), f(State(c, c.pre), State(c), a, b)))


MASKS = ("minvertpairmask", "msiteallmask", "msitepairmask", "mtypemask")


def noop(c):
    """state unchanged"""
    s0, s1 = State(c, c.pre), State(c)


maskAll = Spec(Q + "maskAllPairs", axioms=tkdef, use=[CLICK], noexcept=True,
               post=lambda c: [("every pair has the mask", allpairs(c, lambda s0, s1, i, j: z3.And(s1.eff(i, j) == c.at(0), s1.pair(K(i, j)) == c.at(0)))),
                               ("every pair of types has the mask", alltypes(c, lambda s0, s1, a, b: s1.teff(a, b) == c.at(0))),
                               ("no type mask is left", State(c).tn == 0),
                               ("no mask of a site is left", State(c).all == z3.K(Is, z3.BoolVal(False)))] + State(c).invariant() + State(c).tinvariant(),
               frame=lambda c: [c.lv(n) for n in MASKS + ("mdefaultpairmask",)] + [CLICKS])


def loopiter(c, l):
    """(container member, position) of the iterators a loop advances"""
    out = []
    for r, p in sorted(l.mods, key=repr):
        if p and p[-1] == "idx":
            q = c.ex.mem.get(r, {}).get(p[:-1] + ("cont",))
            t = c.ex.mem.get(r, {}).get(p)
            if isinstance(q, core.PyPtr) and z3.is_expr(t):
                out.append((q.lv, t, r.split("@")[0]))
    return out


def inv_loops(c, l):
    ex = c.ex
    out = []
    for lv, p, nm in loopiter(c, l):
        m, m0 = ex.read(lv), ex.read(lv, c.pre)
        q = z3.Const("q!il", m.lv[("pos",)].sort().domain())
        pos = z3.Select(m.lv[("pos",)], q)
        out.append(("same keys", m.lv[("dom",)] == m0.lv[("dom",)]))
        out.append(("in range", z3.And(0 <= p, p <= m.lv[("n",)])))
        out.append(("inverted up to the current one", z3.ForAll([q], z3.Implies(z3.Select(m.lv[("dom",)], q), z3.Select(m.lv[("val",)], q) == z3.If(
            pos < p, z3.Not(z3.Select(m0.lv[("val",)], q)), z3.Select(m0.lv[("val",)], q))), patterns=[pos])))
    return out


invert = Spec(Q + "invertMask", axioms=tkdef, autoinv=False, use=[CLICK], loops=inv_loops, noexcept=True,
              pre=lambda c: State(c).invariant() + State(c).tinvariant(),
              post=lambda c: [("every pair is inverted", allpairs(c, lambda s0, s1, i, j: z3.And(s1.eff(i, j) == z3.Not(s0.eff(i, j)), s1.pair(K(i, j)) == z3.Not(s0.pair(K(i, j)))))),
                              ("every pair of types is inverted", alltypes(c, lambda s0, s1, a, b: s1.teff(a, b) == z3.Not(s0.teff(a, b)))),
                              ("the masking mode stays", State(c).tn == State(c, c.pre).tn)] + State(c).invariant() + State(c).tinvariant(),
              frame=lambda c: [c.lv(n) for n in MASKS + ("mdefaultpairmask",)] + [CLICKS])



# ---- setPairMask ---------------------------------------------------------------------------------


def has(k, q):
    return z3.Or(comp(q, 0) == k, comp(q, 1) == k)


def spm_args(c):
    i, j = c.at(0), c.at(1)
    return i, j, c.at(2)


def spm_pre(c):
    s = State(c)
    i = z3.Int("i!")
    return s.invariant() + [("sites are valid", z3.ForAll([i], z3.Implies(z3.Select(s.all, i), i >= 0), patterns=[z3.Select(s.all, i)]))]


def spm_post(c):
    i0, j0, m = spm_args(c)
    alli, allj = i0 < 0, j0 < 0

    def asked(i, j):
        return z3.If(z3.And(alli, allj), True, z3.If(alli, z3.Or(i == j0, j == j0), z3.If(allj, z3.Or(i == i0, j == i0), z3.Or(
            z3.And(i == i0, j == j0), z3.And(i == j0, j == i0)))))

    def synced(s, i, j):
        return s.pair(K(i, j)) == s.eff(i, j)
    return [("exactly the pairs of this call get the mask", allpairs(c, lambda s0, s1, i, j: s1.eff(i, j) == z3.If(asked(i, j), m, s0.eff(i, j)))),
            ("the pairs of existing sites follow", allpairs(c, lambda s0, s1, i, j: z3.Implies(
                z3.And(j < CNT, synced(s0, i, j)), synced(s1, i, j)))),
            ("index masks are in use", State(c).tn == 0)] + spm_pre(c)


def spm_loops(c, l):
    ex = c.ex
    s = State(c)
    s0 = State(c, l.pre)
    out = []
    m = c.at(2)
    i0, j0 = c.at(0), c.at(1)
    k = z3.If(i0 >= 0, i0, j0)
    mods = set(x[1][0].split("::")[-1] for x in l.mods if x[0] == "this" and x[1])
    q = z3.Const("q!sl", keysort(II))
    its = loopiter(c, l)
    if "msitepairmask" in mods and its:
        lv, p, nm = its[0]
        cont = lv.path[-1].split("::")[-1] if isinstance(lv.path[-1], str) else ""
        mm = ex.read(lv)
        if cont == "msitepairmask":
            # erasing the explicit masks of site k
            od, n = mm.lv[("ord",)], mm.lv[("n",)]
            x = z3.Int("x!sl")
            LIB.mapfacts(ex, mm)
            pos = z3.Select(mm.lv[("pos",)], q)
            out += [("in range", z3.And(0 <= p, p <= n)),
                    ("nothing is added", z3.ForAll([q], z3.Implies(z3.Select(s.sp, q), z3.And(z3.Select(s0.sp, q), z3.Select(s.spv, q) == z3.Select(s0.spv, q))), patterns=[z3.Select(s.sp, q)])),
                    ("masks of other sites stay", z3.ForAll([q], z3.Implies(z3.And(z3.Select(s0.sp, q), z3.Not(has(k, q))), z3.And(z3.Select(s.sp, q), z3.Select(s.spv, q) == z3.Select(s0.spv, q))), patterns=[z3.Select(s0.sp, q)])),
                    ("enumeration", z3.ForAll([q], z3.Implies(z3.Select(s.sp, q), z3.And(0 <= pos, pos < n, z3.Select(od, pos) == q)), patterns=[z3.Select(s.sp, q)])),
                    ("visited masks are of other sites", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p), z3.Not(has(k, z3.Select(od, x)))), patterns=[z3.Select(od, x)]))]
        elif cont == "msiteallmask":
            od = mm.lv[("ord",)]
            x = z3.Int("x!sl")
            ox = z3.Select(od, x)
            out += [("in range", z3.And(0 <= p, p <= mm.lv[("n",)])),
                    ("masks of other sites stay", z3.ForAll([q], z3.Implies(z3.Not(has(k, q)), z3.And(
                        z3.Select(s.sp, q) == z3.Select(s0.sp, q), z3.Select(s.spv, q) == z3.Select(s0.spv, q))), patterns=[z3.Select(s.sp, q)])),
                    ("masks of the site agree with this call", z3.ForAll([q], z3.Implies(z3.And(z3.Select(s.sp, q), has(k, q)), z3.And(
                        z3.Select(s.spv, q) == m, 0 <= comp(q, 0), comp(q, 0) <= comp(q, 1))), patterns=[z3.Select(s.sp, q)])),
                    ("exceptions override the mask of a site", z3.ForAll([q], z3.Implies(z3.And(z3.Select(s.sp, q), has(k, q)), z3.Or(
                        z3.Select(s.all, comp(q, 0)), z3.Select(s.all, comp(q, 1)))), patterns=[z3.Select(s.sp, q)])),
                    ("exceptions are recorded", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p, z3.Select(s.allv, ox) != m),
                                                                          z3.Select(s.sp, srt(K, k, ox))), patterns=[ox]))]
    elif "minvertpairmask" in mods:
        x = z3.Int("x!sl")
        cn = [t for nm, t, t0 in l.counters() if not nm.startswith("this") and not nm.startswith("$")]
        for t in cn:
            out += [("counter", z3.And(0 <= t, t <= CNT)),
                    ("pairs of the other sites stay", z3.ForAll([q], z3.Implies(z3.Not(has(k, q)), z3.Select(s.inv, q) == z3.Select(s0.inv, q)), patterns=[z3.Select(s.inv, q)])),
                    ("pairs of this site so far", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < t), s.pair(srt(K, k, x)) == m)))]
    return out


setPair = Spec(Q + "setPairMask", use=[CLICK, maskAll, setValue, countSites, sortedPair], noexcept=True, pre=spm_pre, post=spm_post, loops=spm_loops, autoinv=False,
               frame=lambda c: [c.lv(n) for n in MASKS + ("mdefaultpairmask",)] + [CLICKS])


# ---- updateMaskData ------------------------------------------------------------------------------
def umd_pre(c):
    return spm_pre(c) + [("index masks are in use", State(c).tn == 0),
                         ("no type masks", State(c).t == z3.K(keysort(SS), z3.BoolVal(False)))]


def umd_loops(c, l):
    ex = c.ex
    s, s0 = State(c), State(c, l.pre)
    q = z3.Const("q!ul", keysort(II))
    x, y = z3.Ints("x!ul y!ul")
    out = []
    its = loopiter(c, l)
    conts = dict((lv.path[-1].split("::")[-1], (lv, p)) for lv, p, nm in its if lv.path and isinstance(lv.path[-1], str))
    if "msiteallmask" in conts:
        lv, p = conts["msiteallmask"]
        mm = ex.read(lv)
        LIB.mapfacts(ex, mm)
        od, n, pos = mm.lv[("ord",)], mm.lv[("n",)], mm.lv[("pos",)]
        ox = z3.Select(od, x)
        out += [("in range", z3.And(0 <= p, p <= n)),
                ("pairs without a mask for all stay", z3.ForAll([q], z3.Implies(z3.Not(z3.Or(z3.Select(s.all, comp(q, 0)), z3.Select(s.all, comp(q, 1)))),
                                                                                z3.Select(s.inv, q) == z3.Select(s0.inv, q)), patterns=[z3.Select(s.inv, q)])),
                ("visited sites are propagated", z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < p, 0 <= y, y < CNT), z3.Or(
                    s.pair(srt(K, ox, y)) == z3.Select(s.allv, ox), z3.And(z3.Select(s.all, y), z3.Select(s.allv, y) != z3.Select(s.allv, ox)))), patterns=[z3.MultiPattern(ox, z3.Select(s.all, y))]))]
    elif "msitepairmask" in conts:
        lv, p = conts["msitepairmask"]
        mm = ex.read(lv)
        LIB.mapfacts(ex, mm)
        od, n, pos = mm.lv[("ord",)], mm.lv[("n",)], z3.Select(mm.lv[("pos",)], q)
        out += [("in range", z3.And(0 <= p, p <= n)),
                ("explicit masks are applied in turn", z3.ForAll([q], s.pair(q) == z3.If(
                    z3.And(z3.Select(s.sp, q), pos < p), z3.Select(s.spv, q), s0.pair(q)), patterns=[z3.Select(s.inv, q)]))]
    else:
        # inner loop over the sites j for one site with a mask for all
        lv = [v for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind == "iter"]
        cur = [(v, ex.load(v)) for v in lv]
        cur = [(v, w) for v, w in cur if isinstance(w.lv[("cont",)], core.PyPtr) and w.lv[("cont",)].lv.path and str(w.lv[("cont",)].lv.path[-1]).endswith("msiteallmask")]
        for v, w in cur[:1]:
            mm = ex.read(w.lv[("cont",)].lv)
            a = z3.Select(mm.lv[("ord",)], w.lv[("idx",)])
            for nm, t, t0 in l.counters():
                if nm.startswith("this") or nm.startswith("$"):
                    continue
                oth = z3.If(comp(q, 0) == a, comp(q, 1), comp(q, 0))
                done = z3.And(has(a, q), comp(q, 0) <= comp(q, 1), 0 <= oth, oth < t)
                out += [("counter", z3.And(0 <= t, t <= CNT)),
                        ("pairs so far", z3.ForAll([q], z3.If(done, s.pair(q) == z3.Select(s.allv, a), s.pair(q) == s0.pair(q)), patterns=[z3.Select(s.inv, q)])),
                        ("pairs of the site so far", z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < t), s.pair(srt(K, a, y)) == z3.Select(s.allv, a)), patterns=[z3.Select(s.all, y)]))]
    return out


def umd_post(c):
    return [("what was asked for stays", allpairs(c, lambda s0, s1, i, j: s1.eff(i, j) == s0.eff(i, j))),
            ("every pair of existing sites gets the mask that was asked for", allpairs(c, lambda s0, s1, i, j: z3.Implies(
                j < CNT, s1.pair(K(i, j)) == s1.eff(i, j))))]


update = Spec(Q + "updateMaskData", use=[setValue, countSites], pre=umd_pre, post=umd_post, loops=umd_loops, autoinv=False,
              frame=frame("minvertpairmask"), name="PairQuantity::updateMaskData (index masks)")


# ---- type masks ----------------------------------------------------------------------------------
def tpair(c):
    return c.at(0), c.at(1)


def keq(a, b):
    return a == b


getType = Spec(Q + "getTypeMask", axioms=tkdef, noexcept=True, frame=lambda c: [], pre=lambda c: State(c).tinvariant(),
               post=lambda c: [("what was asked for the two types", z3.Implies(z3.And(c.at(0) != ALL, c.at(1) != ALL), c.rt == State(c).teff(c.at(0), c.at(1)))),
                               ("whatever their order", z3.Implies(z3.And(c.at(0) != ALL, c.at(1) != ALL), c.rt == State(c).teff(c.at(1), c.at(0))))])

UPPERALL = strconst("ALL")


def norm(t):
    return z3.If(t == UPPERALL, ALL, t)


def upstatic(ex, lv):
    t = ex.load(lv).lv[()]
    ex.assume(z3.Or(t == strconst(""), t == UPPERALL))


def stm_post(c):
    a0, b0, m = norm(c.at(0)), norm(c.at(1)), c.at(2)

    def asked(a, b):
        return z3.If(z3.And(a0 == ALL, b0 == ALL), True, z3.If(a0 == ALL, z3.Or(a == b0, b == b0), z3.If(b0 == ALL, z3.Or(a == a0, b == a0), z3.Or(
            z3.And(a == a0, b == b0), z3.And(a == b0, b == a0)))))
    st = [ex_static(c, r) for r in list(c.ex.mem) if r.startswith("$static") and () in c.ex.mem[r]]
    return [("exactly the pairs of this call get the mask", alltypes(c, lambda s0, s1, a, b: s1.teff(a, b) == z3.If(asked(a, b), m, s0.teff(a, b))))] + \
        State(c).tinvariant() + st


def ex_static(c, r):
    t = c.ex.mem[r][()]
    return ("the upper-case name for all types", z3.Or(t == strconst(""), t == UPPERALL))


def hast(k, q):
    return z3.Or(comp(q, 0, SS) == k, comp(q, 1, SS) == k)


def stm_loops(c, l):
    ex = c.ex
    s, s0 = State(c), State(c, l.pre)
    a0, b0, m = norm(c.at(0)), norm(c.at(1)), c.at(2)
    sk = z3.If(a0 != ALL, a0, b0)
    key = TK(a0, b0)
    q = z3.Const("q!tl", keysort(SS))
    x, y = z3.Ints("x!tl y!tl")
    tin = lambda st, k: z3.Select(st.t, k)
    out = []
    its = loopiter(c, l)
    mods = set(x[1][0].split("::")[-1] for x in l.mods if x[0] == "this" and x[1])
    lists = [v for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind == "seq" and v.root.startswith("%")]
    mains = [(lv, p) for lv, p, nm in its if lv.path and str(lv.path[-1]).endswith("mtypemask")]
    if "mtypemask" in mods and mains:
        lv = mains[0][0]
        mm = ex.read(lv)
        LIB.mapfacts(ex, mm)
        od, n = mm.lv[("ord",)], mm.lv[("n",)]
        pos = z3.Select(mm.lv[("pos",)], q)
        # the loop iterator starts at the first element; the other one marks the mask of this call
        allits = [(v, ex.load(v)) for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind == "iter" and v.root.startswith("%")]
        for lv_, p in mains:
            p0 = [l.pre.get(r, {}).get(pp) for r, pp in l.mods if pp and pp[-1] == "idx" and ex.mem.get(r, {}).get(pp) is p]
            first = any(t is not None and z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 0 for t in p0)
            if not first:
                continue
            out += [("in range", z3.And(0 <= p, p <= n)),
                    ("visited masks are of other types", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p), z3.Or(
                        z3.Not(hast(sk, z3.Select(od, x))), z3.Select(od, x) == key)), patterns=[z3.Select(od, x)]))]
        for v, w in allits:
            i = w.lv[("idx",)]
            if isinstance(w.lv[("cont",)], core.PyPtr) and w.lv[("cont",)].lv.same(lv) and not any(i is p for lv_, p in mains if z3.is_const(p) is None):
                pre = l.pre.get(v.root, {}).get(v.static() + ("idx",))
                if pre is not None and z3.is_int_value(z3.simplify(pre)):
                    continue
                if pre is None:
                    continue
                n0 = ex.read(lv, l.pre).lv[("n",)]
                out += [("mark of this call's mask", z3.If(tin(s, key), z3.And(0 <= i, i < n, z3.Select(od, i) == key), i == n))]
        out += [("nothing is added", z3.ForAll([q], z3.Implies(tin(s, q), z3.And(tin(s0, q), z3.Select(s.tv, q) == z3.Select(s0.tv, q))), patterns=[tin(s, q)])),
                ("masks of other types stay", z3.ForAll([q], z3.Implies(z3.And(tin(s0, q), z3.Or(q == key, z3.Not(hast(sk, q)))), z3.And(
                    tin(s, q), z3.Select(s.tv, q) == z3.Select(s0.tv, q))), patterns=[tin(s0, q)])),
                ("enumeration", z3.ForAll([q], z3.Implies(tin(s, q), z3.And(0 <= pos, pos < n, z3.Select(od, pos) == q)), patterns=[tin(s, q)]))]
    elif "mtypemask" in mods:
        for lst in lists:
            w = ex.load(lst)
            e = KS(z3.Select(w.lv[("el", "first")], x), z3.Select(w.lv[("el", "second")], x))
            for lv, p, nm in its:
                if lv.same(lst):
                    out += [("in range", z3.And(0 <= p, p <= w.lv[("len",)])),
                            ("masks of other types stay", z3.ForAll([q], z3.Implies(z3.Not(hast(sk, q)), z3.And(
                                tin(s, q) == tin(s0, q), z3.Select(s.tv, q) == z3.Select(s0.tv, q))), patterns=[tin(s, q)])),
                            ("masks of this type agree with this call", z3.ForAll([q], z3.Implies(z3.And(tin(s, q), hast(sk, q)), z3.And(
                                z3.Select(s.tv, q) == m, comp(q, 0, SS) <= comp(q, 1, SS))), patterns=[tin(s, q)])),
                            ("the mask of this call stays", z3.And(tin(s, key), z3.Not(tin(s, KS(ALL, ALL))))),
                            ("all-masks stay", z3.ForAll([q], z3.Implies(hast(ALL, q), tin(s, q) == tin(s0, q)), patterns=[tin(s, q)])),
                            ("exceptions so far", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < p), tin(s, e)), patterns=[z3.Select(w.lv[("el", "first")], x)]))]
    else:
        for lst in lists:
            w = ex.load(lst)
            ln = w.lv[("len",)]
            ef, es = z3.Select(w.lv[("el", "first")], y), z3.Select(w.lv[("el", "second")], y)
            e = KS(ef, es)
            for lv, p in mains:
                mm = ex.read(lv)
                LIB.mapfacts(ex, mm)
                ox = z3.Select(mm.lv[("ord",)], x)
                sm = z3.If(comp(ox, 0, SS) != ALL, comp(ox, 0, SS), comp(ox, 1, SS))
                out += [("in range", z3.And(0 <= p, p <= mm.lv[("n",)], ln >= 0)),
                        ("exceptions are of this type", z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < ln), z3.And(
                            ef <= es, z3.Or(ef == sk, es == sk), ef != ALL, es != ALL)), patterns=[ef])),
                        ("opposite masks for all become exceptions", z3.ForAll([x], z3.Implies(z3.And(
                            0 <= x, x < p, hast(ALL, ox), z3.Select(s.tv, ox) != m), z3.Exists([y], z3.And(0 <= y, y < ln, e == TK(sk, sm)))), patterns=[ox]))]
    return out


setType = Spec(Q + "setTypeMask", axioms=tkdef, use=[CLICK, maskAll], noexcept=True, pre=lambda c: State(c).tinvariant(), post=stm_post, loops=stm_loops,
               autoinv=False, statics={"*S": upstatic}, frame=lambda c: [c.lv(n) for n in MASKS + ("mdefaultpairmask",)] + [CLICKS])

hasMask = Spec(Q + "hasMask", frame=lambda c: [], noexcept=True, pre=lambda c: State(c).invariant(),
               post=lambda c: [("false only when no pair is masked", z3.Implies(z3.Not(c.rt), allpairs(c, lambda s0, s1, i, j: z3.And(
                   s1.pair(K(i, j)), z3.Implies(s1.tn == 0, s1.eff(i, j))))))])
from props import evalbasic
SPECS = [evalbasic.update, hasMask, getType, setType, update, setPair, sortedPair, setValue, getMask, maskAll, invert]
