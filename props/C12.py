"""C12: bond valence sums"""
from dv.contract import *
from dv.core import Unsupported, PyPtr
from dv.models import UF
from dv.shapes import *
from props.C07 import N, pid
from props.C14 import rv
import z3
ID = "C12"
LEVEL = "proof"
HARNESS = "C12.cpp"
TUS = ["srreal/BVParam.cpp", "srreal/BVParametersTable.cpp", "srreal/BVSCalculator.cpp"]
BOUNDED = ["loading and parsing of the standard parameters; end-to-end: random structures (symmetric crystals included), valences, custom parameters and precisions against sums over brute-force bonds"]
ASSUMPTIONS = ["unordered_set keeps one element for every key (the equality is proved to compare just the key)", "the standard table is a fixed set of bond parameters", "pairs and distances as given by the bond generator (C04)",
               "exp and log are uninterpreted, with exp(log(x)) = x for x > 0; real arithmetic for double"]
BP, BT, BV, G = N + "BVParam::", N + "BVParametersTable::", N + "BVSCalculator::", N + "BaseBondGenerator::"
Is, Bs, Rs = z3.IntSort(), z3.BoolSort(), z3.RealSort()
KEY = ("matom0", "mvalence0", "matom1", "mvalence1")
ALLF = KEY + ("mRo", "mB", "mref_id")


def fl(v, f):
    return [t for p, t in v.lv.items() if p and str(p[-1]).split("::")[-1] == f][0]


def fls(v, fs=ALLF):
    return [fl(v, f) for f in fs]


def eqs(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def norm(a0, v0, a1, v1):
    sw = z3.Or(v0 < v1, z3.And(v0 == v1, a1 < a0))
    return [z3.If(sw, a1, a0), z3.If(sw, v1, v0), z3.If(sw, a0, a1), z3.If(sw, v0, v1)]


# ---- one set of bond parameters ---------------------------------------------------------------------
def ctor_post(c):
    k = [c.at(i) for i in range(4)]
    me = c.v(c.this)
    x = [z3.Int("k!%d" % i) for i in range(4)]
    return [("the atoms with their valences, the same for either order", eqs(fls(me, KEY), norm(*k))), ("either order gives the same key", eqs(norm(*x), norm(x[2], x[3], x[0], x[1]))),
            ("the parameters as given", z3.And(fl(me, "mRo") == c.at(4), fl(me, "mB") == c.at(5), fl(me, "mref_id") == c.at(6)))]


def ordered(v):
    return eqs(fls(v, KEY), norm(*fls(v, KEY)))


CTOR = Spec(BP + "BVParam", params=["string", "int", "string", "int", "double", "double", "string"], post=ctor_post, frame=lambda c: [c.this])
CTOR0 = Spec(BP + "BVParam", params=[], post=lambda c: [("no parameters", z3.And(*[fl(c.v(c.this), f) == 0 for f in ("mvalence0", "mvalence1", "mRo", "mB")]))], frame=lambda c: [c.this], name="BVParam::BVParam()")


def hash_combine(ex, call):
    s, x = ex.load(call.args[0]), ex.load(call.args[1])
    f = z3.Function("hash_combine", Is, Is, Is)
    ex.assign(call.args[0], V(s.shape, {(): f(s.lv[()], x.lv[()])}))
    return V(VOID, {})


HC = Custom("boost::hash_combine", hash_combine, trusted="a function of seed and value")


def hash_post(c):
    v = c.a(0)
    rest = [(fl(v, f), z3.FreshConst(fl(v, f).sort(), "other")) for f in ("mRo", "mB", "mref_id")]
    return [("depends on the key only", c.rt == z3.substitute(c.rt, *rest))]


EQ = Spec(BP + "BondEqual::operator()", post=lambda c: [("compares the key", c.rt == eqs(fls(c.a(0), KEY), fls(c.a(1), KEY)))], frame=lambda c: [])
HASH = Spec(BP + "BondHash::operator()", use=[HC], post=hash_post, frame=lambda c: [])
SAME = Spec(BP + "operator==", post=lambda c: [("compares everything", c.rt == eqs(fls(c.v(c.this)), fls(c.a(0))))], frame=lambda c: [])
DIFF = Spec(BP + "operator!=", use=[SAME], post=lambda c: [("compares everything", c.rt != eqs(fls(c.v(c.this)), fls(c.a(0))))], frame=lambda c: [])
EXP, LOG = UF["exp"], UF["log"]


def bval(ro, b, d):
    return z3.If(b > 0, EXP((ro - d) / b), 0)


def todist_post(c):
    v = c.v(c.this)
    ro, b, x = fl(v, "mRo"), fl(v, "mB"), c.at(0)
    d, e = z3.Real("d!far"), z3.Real("e!")
    mono = z3.Implies(d > c.rt, EXP((ro - d) / b) < EXP(LOG(x)))       # exp is increasing
    return [("the law solved for the distance", c.rt == ro - b * LOG(x)),
            ("lemma quotient", z3.Implies(b > 0, (ro - c.rt) / b == LOG(x))), ("the bond of this length has this valence", z3.Implies(z3.And(b > 0, x > 0), bval(ro, b, c.rt) == x))]


x_ = z3.Real("x!el")
EXPLOG = lambda: [z3.ForAll([x_], z3.Implies(x_ > 0, EXP(LOG(x_)) == x_), patterns=[EXP(LOG(x_))])]
SPECS = [CTOR, CTOR0, EQ, HASH, SAME, DIFF,
         Spec(BP + "bondvalence", frame=lambda c: [], noexcept=True, post=lambda c: [("the bond valence law", c.rt == bval(fl(c.v(c.this), "mRo"), fl(c.v(c.this), "mB"), c.at(0)))]),
         Spec(BP + "bondvalenceToDistance", frame=lambda c: [], noexcept=True, axioms=EXPLOG, post=todist_post)]
BVAL, TODIST = SPECS[-2:]

# ---- tables -----------------------------------------------------------------------------------------
def none_(ex, call):
    sh = ex.st.of(call.fd.ret)
    lv = LV("$none", (), getattr(sh, "to", sh))
    v = ex.read(lv)
    ex.assume(fl(v, "matom0") == NOSYM)
    for f in ("mvalence0", "mvalence1", "mRo", "mB"):
        ex.assume(fl(v, f) == 0)
    return lv


NONE = Custom(BT + "none", none_, trusted="an object of its own without parameters")


def std(ex, call):
    lv = LV("$std", (), Ctx(ex, None, call.this, [], ex.mem).m("mcustomtable").shape)
    return lv


STD = Custom(BT + "getStandardSetOfBVParam", std, trusted="the fixed set of standard parameters")


def table(c, old=False):
    m = c.m("mcustomtable")
    cu = c.old(m) if old else c.v(m)
    st = c.ex.read(LV("$std", (), m.shape))
    return m.shape, cu, st


def pack(sh, k):
    d = {p: x for p, x in zip([p for f in KEY for p, so in sh.k.leaves() if p[-1].split("::")[-1] == f], k)}
    return packkey(sh.k, d)


def entry(sh, m, k):
    """(present, fields) of the set m at key k"""
    q = pack(sh, k)
    return z3.Select(m.lv[("dom",)], q), [z3.Select([t for p, t in m.lv.items() if p[0] == "val" and p[-1].split("::")[-1] == f][0], q) for f in ALLF]


def wellkept(c):
    """what a set holds under a key has this key"""
    sh, cu, st = table(c, True)
    k = [z3.Int("k%d!w" % i) for i in range(4)]
    out = []
    for m in (cu, st):
        d, v = entry(sh, m, k)
        out.append(z3.ForAll(k, z3.Implies(d, eqs(v[:4], k))))
    return [("sets of bond parameters", z3.And(*out))]


def choose(c, k, old=False):
    """[(condition, fields)] in order of preference"""
    sh, cu, st = table(c, old)
    k9 = [k[0], z3.IntVal(9), k[2], k[3]]
    out = []
    for kk, g in ((k, True), (k9, k[1] > 0)):
        for m in (cu, st):
            d, v = entry(sh, m, kk)
            out.append((z3.And(d, g), v))
    return out


def look_post(key):
    def post(c):
        ch = choose(c, key(c), True)
        r = fls(c.r)
        isnone = isinstance(c.ret, LV) and c.ret.root == "$none"
        found = z3.Or(*[d for d, v in ch])
        spec = z3.BoolVal(True)
        for d, v in reversed(ch):
            spec = z3.If(d, eqs(r, v), spec)
        sh, cu, st = table(c)
        rk = r[:4]
        (dc, vc), (ds, vs) = entry(sh, cu, rk), entry(sh, st, rk)
        return [("custom before standard, exact valence before any valence", spec), ("nothing is found only when nothing is tabulated", found != z3.BoolVal(isnone)),
                ("the one in use for its own key", z3.Implies(found, z3.If(dc, eqs(r, vc), z3.And(ds, eqs(r, vs)))))]
    return post


LOOK = Spec(BT + "lookup", params=["BVParam"], use=[NONE, STD], pre=wellkept, frame=lambda c: [], post=look_post(lambda c: fls(c.a(0), KEY)), T=20)
SPECS += [LOOK]


# lookups that go through the one above
FOUND = z3.Function("tabulated", Is, Is, Is, Is, Bs)
KK = [z3.Function("found_" + f, Is, Is, Is, Is, Is) for f in KEY]
RO, BB = (z3.Function(f, Is, Is, Is, Is, Rs) for f in ("Ro", "B"))
BARE, VALU = z3.Function("bare_symbol", Is, Is), z3.Function("valence_of", Is, Is)
SMBOK = z3.Function("bare_ok", Is, Bs)


def found(ex, call, k):
    if not ex.decide(FOUND(*k)):
        return none_(ex, call)
    sh = ex.st.of(call.fd.ret)
    v = ex.freshV(getattr(sh, "to", sh), "bp")
    kk = [f(*k) for f in KK]
    for t, x in zip(fls(v), kk + [RO(*kk), BB(*kk)]):
        ex.assume(t == x)
    return ex.tmp(v, "bp")


LK1 = Custom(BT + "lookup", lambda ex, call: found(ex, call, fls(ex.load(call.args[0]), KEY)), params=["BVParam"], name="BVParametersTable::lookup", trusted="under contract above")
LK4 = Custom(BT + "lookup", lambda ex, call: found(ex, call, norm(*[ex.t(a) for a in call.args])), params=["string", "int", "string", "int"], name="BVParametersTable::lookup", trusted="under contract above")


def via(key):
    def post(c):
        k = key(c)
        kk = [f(*k) for f in KK]
        isnone = isinstance(c.ret, LV) and c.ret.root == "$none"
        return [("found when tabulated", FOUND(*k) != z3.BoolVal(isnone)), ("the parameters of this bond", z3.Implies(FOUND(*k), eqs(fls(c.r)[:6], kk + [RO(*kk), BB(*kk)])))]
    return post


def bare(ex, call):
    v = ex.freshV(S, "bare")
    ex.assume(v.lv[()] == BARE(ex.t(call.args[0])))
    return v


ABARE = Custom(N + "atomBareSymbol", bare, trusted="C13", name="atomBareSymbol")
GETV = Custom(BT + "getAtomValence", lambda ex, call: ex.vI(VALU(ex.t(call.args[0]))), name="BVParametersTable::getAtomValence", trusted="under contract below")
SPECS += [Spec(BT + "lookup", params=["string", "int", "string", "int"], use=[LK1, NONE], frame=lambda c: [], post=via(lambda c: norm(*[c.at(i) for i in range(4)])), name="BVParametersTable::lookup(4)"),
          Spec(BT + "lookup", params=["string", "string"], use=[LK1, LK4, NONE, ABARE, GETV], frame=lambda c: [], name="BVParametersTable::lookup(2)",
               post=via(lambda c: norm(BARE(c.at(0)), VALU(c.at(0)), BARE(c.at(1)), VALU(c.at(1)))))]


def others(c, k):
    """entries under other keys stay"""
    m = c.m("mcustomtable")
    q = [z3.Int("k%d!o" % i) for i in range(4)]
    (d0, v0), (d1, v1) = entry(m.shape, c.old(m), q), entry(m.shape, c.v(m), q)
    same = z3.And(d0 == d1, z3.Implies(d0, eqs(v0, v1)))
    return ("entries of other bonds stay", z3.ForAll(q, z3.Implies(z3.Not(eqs(q, k)), same) if k is not None else same))


def now(c, k):
    m = c.m("mcustomtable")
    return entry(m.shape, c.v(m), k)


FRT = lambda c: [c.lv("mcustomtable")]
arg = lambda c: fls(c.a(0))
k4 = lambda c: norm(*[c.at(i) for i in range(4)])
RES1 = Spec(BT + "resetCustom", params=["BVParam"], frame=FRT, noexcept=True, post=lambda c: [("no custom entry is left for the bond", z3.Not(now(c, arg(c)[:4])[0])), others(c, arg(c)[:4])])
SET1 = Spec(BT + "setCustom", params=["BVParam"], use=[RES1], frame=FRT, noexcept=True, post=lambda c: [("the custom entry is the one given", z3.And(now(c, arg(c)[:4])[0], eqs(now(c, arg(c)[:4])[1], arg(c)))), others(c, arg(c)[:4])])
SPECS += [RES1, SET1,
          Spec(BT + "setCustom", params=["string", "int", "string", "int", "double", "double", "string"], use=[SET1, RES1], frame=FRT, noexcept=True, name="BVParametersTable::setCustom(7)",
               post=lambda c: [("the custom entry is the one given", z3.And(now(c, k4(c))[0], eqs(now(c, k4(c))[1][4:6], [c.at(4), c.at(5)]))), others(c, k4(c))]),
          Spec(BT + "resetCustom", params=["string", "int", "string", "int"], use=[RES1], frame=FRT, noexcept=True, name="BVParametersTable::resetCustom(4)",
               post=lambda c: [("no custom entry is left for the bond", z3.Not(now(c, k4(c))[0])), others(c, k4(c))]),
          Spec(BT + "resetAll", frame=FRT, noexcept=True, post=lambda c: [("no custom entry is left", z3.ForAll([z3.Int("k%d!o" % i) for i in range(4)], z3.Not(now(c, [z3.Int("k%d!o" % i) for i in range(4)])[0])))]),
          Spec(BT + "getAllCustom", frame=lambda c: [], post=lambda c: [("the custom set itself", z3.BoolVal(isinstance(c.ret, LV) and c.ret.same(c.m("mcustomtable"))))])]

STDVAL = z3.Function("valence_in_symbol", Is, Is)
AVAL = Custom(N + "atomValence", lambda ex, call: ex.vI(STDVAL(ex.t(call.args[0]))), name="atomValence", trusted="C13")


def av(c, k, old=False):
    m = c.old("matomvalence") if old else c.v("matomvalence")
    return z3.Select(m.lv[("dom",)], k), z3.Select(m.lv[("val",)], k)


q_ = z3.Int("q!v")
SPECS += [Spec(BT + "getAtomValence", use=[AVAL], frame=lambda c: [], post=lambda c: [("the valence that was set, or the one in the symbol", c.rt == z3.If(av(c, c.at(0))[0], av(c, c.at(0))[1], STDVAL(c.at(0))))]),
          Spec(BT + "setAtomValence", frame=lambda c: [c.lv("matomvalence")], noexcept=True, post=lambda c: [("the valence is set", z3.And(av(c, c.at(0))[0], av(c, c.at(0))[1] == c.at(1))),
               ("others stay", z3.ForAll([q_], z3.Implies(q_ != c.at(0), z3.And(av(c, q_)[0] == av(c, q_, True)[0], z3.Implies(av(c, q_)[0], av(c, q_)[1] == av(c, q_, True)[1])))))]),
          Spec(BT + "resetAtomValences", frame=lambda c: [c.lv("matomvalence")], noexcept=True, post=lambda c: [("no valence is set", z3.ForAll([q_], z3.Not(av(c, q_)[0])))])]


def all_post(c):
    sh, cu, st = table(c)
    k = [z3.Int("k%d!o" % i) for i in range(4)]
    (d, v), (dc, vc), (ds, vs) = entry(sh, c.r, k), entry(sh, cu, k), entry(sh, st, k)
    return [("custom entries and the standard ones they do not replace", z3.ForAll(k, z3.And(d == z3.Or(dc, ds), z3.Implies(dc, eqs(v, vc)), z3.Implies(z3.And(ds, z3.Not(dc)), eqs(v, vs)))))]


SPECS += [Spec(BT + "getAll", use=[STD], frame=lambda c: [], post=all_post)]

# ---- sums -------------------------------------------------------------------------------------------
DIST = z3.Real("dist")
S0, S1, CNT = z3.Ints("site0 site1 count_sites")
OCC, MUL, TYP = z3.Function("occupancy", Is, Rs), z3.Function("multiplicity", Is, Is), z3.Function("site_type", Is, Is)
SA, PQ = N + "StructureAdapter::", N + "PairQuantity::"


def gen(f, t):
    return Custom(G + f, lambda ex, call: V(R if t.sort() == Rs else I, {(): t}), trusted="C04", name="BaseBondGenerator::" + f)


def styp(ex, call):
    v = ex.freshV(S, "type")
    ex.assume(v.lv[()] == TYP(ex.t(call.args[0])))
    return ex.tmp(v, "type")


def smul(ex, call):
    t = MUL(ex.t(call.args[0]))
    ex.assume(t >= 1)
    return ex.vI(t)


GEN = [gen("distance", DIST), gen("site0", S0), gen("site1", S1)]
SAS = [Custom(SA + "siteOccupancy", lambda ex, call: ex.vR(OCC(ex.t(call.args[0]))), name="StructureAdapter::siteOccupancy", trusted="of the structure"),
       Custom(SA + "siteMultiplicity", smul, name="StructureAdapter::siteMultiplicity", trusted="of the structure, positive"),
       Custom(SA + "siteAtomType", styp, name="StructureAdapter::siteAtomType", trusted="of the structure")]
COUNT = [Custom(PQ + "countSites", lambda ex, call: ex.vI(CNT), name="PairQuantity::countSites", trusted="number of sites, not negative")]


def cache(c, f, old=False):
    m = c.m(f, c.lv("mstructure_cache"))
    return c.old(m) if old else c.v(m)


VALS = lambda c, i: z3.Select(cache(c, "valences", True).lv[("el",)], i)
SYMS = lambda c, i: z3.Select(cache(c, "baresymbols", True).lv[("el",)], i)


def bond(c):
    k = norm(SYMS(c, S0), VALS(c, S0), SYMS(c, S1), VALS(c, S1))
    kk = [f(*k) for f in KK]
    return FOUND(*k), bval(RO(*kk), BB(*kk), DIST)


i_ = z3.Int("i!b")
objs = lambda c: [("objects are set", z3.And(pid(c.v("mbvptable")) != 0, pid(c.v("mstructure")) != 0))]


def apc_post(c):
    v, v0 = c.v("mvalue"), c.old("mvalue")
    has, b = bond(c)
    sg = lambda i: z3.If(VALS(c, i) >= 0, z3.RealVal(1), z3.RealVal(-1))
    sc = z3.ToReal(c.at(1))
    half0 = sc * sg(S0) * (b / 2) * OCC(S1)
    half1 = sc * sg(S1) * (b / 2) * OCC(S0) * (z3.ToReal(MUL(S0)) / z3.ToReal(MUL(S1)))
    at = lambda w, i: z3.Select(w.lv[("el",)], i)
    same = v.lv[("len",)] == v0.lv[("len",)]
    return [("same length", same), ("a bond without parameters adds nothing", z3.Implies(z3.Not(has), z3.ForAll([i_], at(v, i_) == at(v0, i_)))),
            ("both sites share the valence of the bond, weighted by occupancy", z3.Implies(has, z3.If(S0 == S1, at(v, S0) == at(v0, S0) + half0 + half1, z3.And(
                at(v, S0) == at(v0, S0) + half0, at(v, S1) == at(v0, S1) + half1)))),
            ("other sites get nothing", z3.ForAll([i_], z3.Implies(z3.And(i_ != S0, i_ != S1), at(v, i_) == at(v0, i_))))]


def apc_pre(c):
    n = c.olen("mvalue")
    return objs(c) + [("sites of the structure", z3.And(0 <= S0, S0 < n, 0 <= S1, S1 < n, n == cache(c, "valences").lv[("len",)], n == cache(c, "baresymbols").lv[("len",)])),
                      ("multiplicities are positive", z3.And(MUL(S0) >= 1, MUL(S1) >= 1))]


def cs_post(n=None):
    def f(c, k):
        a, b = cache(c, "valences"), cache(c, "baresymbols")
        return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), z3.And(z3.Select(a.lv[("el",)], i_) == VALU(TYP(i_)), z3.Select(b.lv[("el",)], i_) == BARE(TYP(i_)))))
    return f


sizes = lambda c: z3.And(cache(c, "valences").lv[("len",)] == CNT, cache(c, "baresymbols").lv[("len",)] == CNT)
icount = lambda l: [t for nm, t, t0 in l.counters()]
APC = Spec(BV + "addPairContribution", use=GEN + SAS + [LK4, LK1, NONE, BVAL], pre=apc_pre, post=apc_post, frame=lambda c: [c.lv("mvalue")], T=20)
CACHE = Spec(BV + "cacheStructureData", use=SAS + COUNT + [ABARE, GETV], pre=lambda c: objs(c) + [("sites", CNT >= 0)], frame=lambda c: [c.lv("mstructure_cache")],
             loops=lambda c, l: [("sites", z3.And(0 <= icount(l)[0], icount(l)[0] <= CNT)), ("sizes", sizes(c)), ("sites so far", cs_post()(c, icount(l)[0]))],
             post=lambda c: [("an entry for every site", sizes(c)), ("valence and symbol of every site", cs_post()(c, CNT))])
SPECS += [APC, CACHE]

# ---- results ----------------------------------------------------------------------------------------
VOBS = z3.Function("abs_real", Rs, Rs)
at = lambda w, i: z3.Select(w.lv[("el",)], i)
real_ = lambda t: z3.ToReal(t) if t.sort() == Is else t
ab = lambda x: z3.If(x < 0, -x, x)
VALS_ = Spec(BV + "valences", frame=lambda c: [], post=lambda c: [("one for every site", c.r.lv[("len",)] == cache(c, "valences").lv[("len",)]),
             ("the expected valence of every site", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < c.r.lv[("len",)]), at(c.r, i_) == real_(at(cache(c, "valences"), i_)))))])
evald = lambda c: [("evaluated", z3.And(CNT >= 0, c.olen("mvalue") == CNT, sizes(c)))]
dif = lambda c, i: ab(real_(VALS(c, i))) - ab(at(c.old("mvalue"), i))
VAL_ = Custom(PQ + "value", lambda ex, call: Ctx(ex, call.fd, call.this, call.args, ex.mem).m("mvalue"), name="PairQuantity::value", trusted="the value itself")


def bd_loops(c, l):
    i = icount(l)
    vs = [(r, p) for r, p in sorted(l.mods, key=repr) if p and p[-1] == "el"]
    if not i or not vs:
        return []
    m = l.ex.mem[vs[0][0]]
    i = i[0]
    return [("sites", z3.And(0 <= i, i <= CNT, m[vs[0][1][:-1] + ("len",)] == CNT)), ("differences so far", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < i), z3.Select(m[vs[0][1]], i_) == dif(c, i_))))]


BVD = Spec(BV + "bvdiff", use=COUNT + [VALS_, VAL_], pre=evald, frame=lambda c: [], loops=bd_loops,
           post=lambda c: [("one for every site", c.r.lv[("len",)] == CNT), ("expected less found valence, both without sign", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < CNT), at(c.r, i_) == dif(c, i_))))])
PS = z3.Function("sum_of_squares", Is, Rs)
TOT = z3.Real("total_occupancy")
SAS += [Custom(SA + "totalOccupancy", lambda ex, call: ex.vR(TOT), name="StructureAdapter::totalOccupancy", trusted="of the structure")]
partial = lambda c: [PS(0) == 0, z3.ForAll([i_], z3.Implies(0 <= i_, PS(i_ + 1) == PS(i_) + z3.ToReal(MUL(i_)) * OCC(i_) * dif(c, i_) * dif(c, i_)), patterns=[PS(i_ + 1)])]


def ms_loops(c, l):
    i = icount(l)
    s = [(l.ex.mem[r][p]) for r, p in sorted(l.mods, key=repr) if r.startswith("%") and z3.is_expr(l.ex.mem[r][p]) and l.ex.mem[r][p].sort() == Rs]
    if not i or not s:
        return []
    return [("sites", z3.And(0 <= i[0], i[0] <= CNT)), ("next partial sum", PS(i[0] + 1) == PS(i[0]) + z3.ToReal(MUL(i[0])) * OCC(i[0]) * dif(c, i[0]) * dif(c, i[0])), ("sum so far", s[0] == PS(i[0]))]


MSD = Spec(BV + "bvmsdiff", use=COUNT + SAS + [BVD], pre=lambda c: evald(c) + objs(c) + [("partial sums", f) for f in partial(c)], frame=lambda c: [], loops=ms_loops,
           post=lambda c: [("mean of the squared differences, weighted by multiplicity and occupancy", c.rt == z3.If(TOT > 0, PS(CNT) / TOT, 0))])
SQ = UF["sqrt"]
SPECS += [VALS_, BVD, MSD, Spec(BV + "bvrmsdiff", use=[MSD], pre=lambda c: MSD.pre(c), frame=lambda c: [], post=lambda c: [("root of the mean square", c.rt == SQ(z3.If(TOT > 0, PS(CNT) / TOT, 0)))])]

PREC = z3.Function("rmax_from_precision", Rs, Rs)
RFPC = Custom(BV + "rmaxFromPrecision", lambda ex, call: ex.vR(PREC(ex.t(call.args[0]))), name="BVSCalculator::rmaxFromPrecision", trusted="under contract below")
GETR = [Custom(PQ + f, lambda ex, call, m=m: Ctx(ex, call.fd, call.this, call.args, ex.mem).m(m), name="PairQuantity::" + f, trusted="the stored value") for f, m in (("getRmin", "mrmin"), ("getRmax", "mrmax"))]
mn = lambda a, b: z3.If(b < a, b, a)
USED = Spec(BV + "getRmaxUsed", use=[RFPC] + GETR, frame=lambda c: [], post=lambda c: [("the shorter of the limits", c.rt == mn(c.t("mrmax"), PREC(c.t("mvalenceprecision"))))])
BSET = [Assumed(G + f, name="BaseBondGenerator::" + f) for f in ("setRmin", "setRmax")]


def cfg_post(c):
    lo, hi = ([x.at(0) for x in c.calls("BaseBondGenerator::" + f)] for f in ("setRmin", "setRmax"))
    return [("bonds from the lower limit", z3.BoolVal(bool(lo)) if not lo else lo[-1] == c.t("mrmin")), ("bonds to the upper limit in use", z3.BoolVal(False) if not hi else hi[-1] == mn(c.t("mrmax"), PREC(c.t("mvalenceprecision"))))]


CFG = Spec(BV + "configureBondGenerator", use=[USED] + BSET + GETR, post=cfg_post)
PQR = [Assumed(PQ + "resetValue", name="PairQuantity::resetValue", frame=lambda c: [c.lv("mmergedvaluescount"), c.lv("mvalue")],
               post=lambda c: [("", z3.And(c.len("mvalue") == c.olen("mvalue"), z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < c.len("mvalue")), at(c.v("mvalue"), i_) == 0))))])]
PQS = [Assumed(PQ + "resizeValue", name="PairQuantity::resizeValue", frame=lambda c: [c.lv("mvalue")], post=lambda c: [("", c.len("mvalue") == c.at(0))])]
RESET = Spec(BV + "resetValue", use=COUNT + PQR + PQS + [CACHE], pre=lambda c: objs(c) + [("sites", CNT >= 0)], post=lambda c: [("a sum for every site, of nothing yet", z3.And(c.len("mvalue") == CNT, z3.ForAll([i_], z3.Implies(
    z3.And(0 <= i_, i_ < CNT), at(c.v("mvalue"), i_) == 0)))), ("an entry for every site", sizes(c)), ("valence and symbol of every site", cs_post()(c, CNT))])
SPECS += [USED, CFG, RESET]

# every tabulated pair of site types is within the limit
m0, m1 = z3.Ints("i!p j!p")


def rf_covered(c, rv, p0, p1):
    """the limit rv covers the parameters of the (symbol, valence) pairs p0, p1"""
    k = norm(p0[0], p0[1], p1[0], p1[1])
    kk = [f(*k) for f in KK]
    return z3.Implies(FOUND(*k), rv >= RO(*kk) - BB(*kk) * LOG(c.at(0)))


def rf_post(c):
    s = lambda i: (SYMS(c, i), VALS(c, i))
    return [("not negative", c.rt >= 0), ("no bond with a larger valence is out of reach", z3.ForAll([m0, m1], z3.Implies(z3.And(0 <= m0, m0 < CNT, 0 <= m1, m1 < CNT), rf_covered(c, c.rt, s(m0), s(m1)))))]


def rf_sets(mem):
    """(pairs of symbol and valence, bond parameters in use) among the local sets"""
    out = [None, None]
    for r in sorted(mem):
        if r.startswith("%") and ("dom",) in mem[r]:
            out[any(p[0] == "val" for p in mem[r])] = (r, mem[r])
    return out


def rf_key(prs, x):
    """the components of element x of the set of pairs"""
    srt = prs[1][("ord",)].sort().range()
    return [srt.accessor(0, j)(x) for j in range(srt.num_args() if hasattr(srt, "num_args") else 2)]


def rf_loops(c, l):
    mem, pre = l.ex.mem, l.pre
    prs, used = rf_sets(mem)
    if prs is None or not l.mods:
        return []
    idx = [(r, p) for r in sorted(mem) if r.startswith("%") and not r.startswith("%tmp") for p in sorted(mem[r], key=repr) if p and p[-1] == "idx" and isinstance(mem[r].get(p[:-1] + ("cont",)), PyPtr)]
    over = lambda x, s: s is not None and mem[x[0]][x[1][:-1] + ("cont",)].lv.root == s[0]
    mod = lambda x: x in l.mods
    val = lambda x: mem[x[0]][x[1]]
    P, mk = prs[1], None
    srt = P[("ord",)].sort().range()
    mkp = lambda a, b: srt.constructor(0)(a, b)
    if (prs[0], ("dom",)) in l.mods:                    # sites
        i = [mem[r][p] for r, p in sorted(l.mods, key=repr) if p == () and mem[r][p].sort() == Is][0]
        return [("sites", z3.And(0 <= i, i <= CNT)), ("types so far", z3.ForAll([m0], z3.Implies(z3.And(0 <= m0, m0 < i), z3.Select(P[("dom",)], mkp(SYMS(c, m0), VALS(c, m0))))))]
    U = used[1] if used else None
    if U is None:
        return []
    usrt = U[("ord",)].sort().range()
    order = [f for p, so in KSH(c).k.leaves() for f in [p[-1].split("::")[-1]]]
    ukey = lambda k: usrt.constructor(0)(*[k[KEY.index(f)] for f in order])
    ufld = lambda q, f: z3.Select([t for p, t in U.items() if p[0] == "val" and p[-1].split("::")[-1] == f][0], q)
    q = z3.Const("q!u", usrt)
    comp = lambda q: [usrt.accessor(0, order.index(f))(q) for f in KEY]
    lim = lambda k: RO(*k) - BB(*k) * LOG(c.at(0))
    real_el = lambda q: z3.And(comp(q)[0] != NOSYM, ufld(q, "mRo") == RO(*comp(q)), ufld(q, "mB") == BB(*comp(q)))
    elems = ("parameters in use are those of their bonds", z3.ForAll([q], z3.Implies(z3.And(z3.Select(U[("dom",)], q), comp(q)[0] != NOSYM), z3.And(ufld(q, "mRo") == RO(*comp(q)), ufld(q, "mB") == BB(*comp(q))))))

    def inuse(a, b):
        x, y = (z3.Select(P[("ord",)], t) for t in (a, b))
        k = norm(srt.accessor(0, 0)(x), srt.accessor(0, 1)(x), srt.accessor(0, 0)(y), srt.accessor(0, 1)(y))
        return z3.Implies(FOUND(*k), z3.Select(U[("dom",)], ukey([f(*k) for f in KK])))
    n = P[("n",)]
    fa2 = lambda g: z3.ForAll([m0, m1], g, patterns=[z3.MultiPattern(z3.Select(P[("ord",)], m0), z3.Select(P[("ord",)], m1))])
    pit = [x for x in idx if over(x, prs)]
    if (used[0], ("dom",)) in l.mods:
        outer = [x for x in pit if mod(x) and x[0] in pre and x[1] in pre[x[0]] and z3.is_expr(pre[x[0]][x[1]]) and z3.is_int_value(z3.simplify(pre[x[0]][x[1]]))]
        if not [x for x in pit if not mod(x)] and outer:           # first type of the pair
            i = val(outer[0])
            return [("types", z3.And(0 <= i, i <= n)), elems, ("pairs so far", fa2(z3.Implies(z3.And(0 <= m0, m0 < i, m0 <= m1, m1 < n), inuse(m0, m1))))]
        fixed, moving = [x for x in pit if not mod(x)], [x for x in pit if mod(x)]
        if not fixed or not moving:
            return []
        i, j = val(fixed[0]), val(moving[0])
        return [("types", z3.And(0 <= i, i < n, i <= j, j <= n)), elems, ("pairs so far", fa2(z3.Implies(z3.And(0 <= m0, m0 < i, m0 <= m1, m1 < n), inuse(m0, m1)))),
                ("pairs with this type so far", z3.ForAll([m1], z3.Implies(z3.And(i <= m1, m1 < j), inuse(i, m1)), patterns=[z3.Select(P[("ord",)], m1)]))]
    uit = [x for x in idx if over(x, used) and mod(x)]
    rv_ = [mem[r][p] for r, p in sorted(l.mods, key=repr) if r.startswith("%") and z3.is_expr(mem[r][p]) and mem[r][p].sort() == Rs]
    if not uit or not rv_:
        return []
    i, rv1 = val(uit[0]), rv_[0]
    return [("parameters", z3.And(0 <= i, i <= U[("n",)], rv1 >= 0)), ("limits so far", z3.ForAll([m0], z3.Implies(z3.And(0 <= m0, m0 < i, comp(z3.Select(U[("ord",)], m0))[0] != NOSYM), rv1 >= lim(comp(z3.Select(U[("ord",)], m0)))),
            patterns=[z3.Select(U[("ord",)], m0)]))]


NOSYM = z3.Int("no_symbol")
k_ = [z3.Int("k%d!n" % i) for i in range(4)]


def KSH(c):
    return c.m("mcustomtable", LV("$t", (), c.ex.st.of(c.lv("mbvptable").shape.to))).shape


named = lambda c: [("tabulated bonds name their atoms", z3.ForAll(k_, z3.Implies(FOUND(*k_), KK[0](*k_) != NOSYM)))]
RFP = Spec(BV + "rmaxFromPrecision", use=COUNT + [LK4, TODIST], pre=lambda c: objs(c) + [("sites", CNT >= 0), ("cached", sizes(c))] + named(c), frame=lambda c: [], post=rf_post, loops=rf_loops, T=20, autoinv=False)
SPECS += [RFP]
