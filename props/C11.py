"""C11: overlaps of atoms"""
from dv.contract import *
from dv.core import Unsupported, PyPtr
from dv.shapes import *
from props.C07 import N, pid
import z3
ID = "C11"
LEVEL = "proof"
HARNESS = "C11.cpp"
TUS = ["srreal/OverlapCalculator.cpp"]
BOUNDED = ["neighborhoods as connected components; the list of neighbors of every site; parallel merges and reloading; predicted changes equal the changes after an actual exchange of types; end-to-end: random structures, radii, masks and ranges against brute-force pairs"]
ASSUMPTIONS = ["pairs and their geometry as given by the bond generator (C04), the set of pairs visited by the evaluator (C02, C03)", "std::max_element does what the standard says", "real arithmetic for double, whole numbers exact in it"]
OC, G, SA, PQ = N + "OverlapCalculator::", N + "BaseBondGenerator::", N + "StructureAdapter::", N + "PairQuantity::"
Is, Bs, Rs = z3.IntSort(), z3.BoolSort(), z3.RealSort()
FN = lambda nm, *s: z3.Function(nm, *s)
# the pair with the index k
D, S0, S1 = FN("pair_distance", Is, Rs), FN("pair_site0", Is, Is), FN("pair_site1", Is, Is)
DIR = [FN("pair_direction%d" % i, Is, Rs) for i in range(3)]
CNT, NB = z3.Ints("count_sites pairs")
OCC, MUL, TYP = FN("occupancy", Is, Rs), FN("multiplicity", Is, Is), FN("site_type", Is, Is)
TOT = z3.Real("total_occupancy")
i_, k_, j_ = z3.Ints("i!o k!o j!o")
CHUNK = 6


def gen(f, t):
    return Custom(G + f, lambda ex, call: V(R if t.sort() == Rs else I, {(): t}), trusted="C04", name="BaseBondGenerator::" + f)


def styp(ex, call):
    v = ex.freshV(S, "type")
    ex.assume(v.lv[()] == TYP(ex.t(call.args[0])))
    return ex.tmp(v, "type")


def smul(ex, call):
    t = MUL(ex.t(call.args[0]))
    ex.assume(t >= 1)
    return ex.vI(t)


SAS = [Custom(SA + "siteOccupancy", lambda ex, call: ex.vR(OCC(ex.t(call.args[0]))), name="StructureAdapter::siteOccupancy", trusted="of the structure"),
       Custom(SA + "siteMultiplicity", smul, name="StructureAdapter::siteMultiplicity", trusted="of the structure, positive"),
       Custom(SA + "siteAtomType", styp, name="StructureAdapter::siteAtomType", trusted="of the structure"),
       Custom(SA + "totalOccupancy", lambda ex, call: ex.vR(TOT), name="StructureAdapter::totalOccupancy", trusted="of the structure")]
COUNT = [Custom(PQ + "countSites", lambda ex, call: ex.vI(CNT), name="PairQuantity::countSites", trusted="number of sites, not negative")]


def cache(c, f, old=True):
    m = c.m(f, c.lv("mstructure_cache"))
    return c.old(m) if old else c.v(m)


at = lambda w, i: z3.Select(w.lv[("el",)], i)
rad = lambda c, i: at(cache(c, "siteradii"), i)


def olp(c, k, fi=None, fj=None):
    """overlap of pair k, with the radii of two sites exchanged"""
    def r(s):
        return rad(c, s) if fi is None else rad(c, z3.If(s == fi, fj, z3.If(s == fj, fi, s)))
    x = r(S0(k)) + r(S1(k)) - D(k)
    return z3.If(x > 0, x, 0)


def stored(c):
    v = c.old("mvalue")
    e = v.lv[("el",)]
    g = z3.And(z3.Select(e, CHUNK * k_) == D(k_), *[z3.Select(e, CHUNK * k_ + 1 + q) == DIR[q](k_) for q in range(3)],
               z3.Select(e, CHUNK * k_ + 4) == z3.ToReal(S0(k_)), z3.Select(e, CHUNK * k_ + 5) == z3.ToReal(S1(k_)), 0 <= S0(k_), S0(k_) < CNT, 0 <= S1(k_), S1(k_) < CNT)
    return [("whole pairs", z3.And(NB >= 0, v.lv[("len",)] == CHUNK * NB)), ("sites", CNT >= 0), ("a radius for every site", cache(c, "siteradii").lv[("len",)] == CNT),
            ("pairs of sites of the structure", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB), g), patterns=[S0(k_)]))]


CNTB = Spec(OC + "count", frame=lambda c: [], noexcept=True, post=lambda c: [("whole pairs only", z3.And(CHUNK * c.rt <= c.olen("mvalue"), c.olen("mvalue") < CHUNK * c.rt + CHUNK))])
field = lambda o, k: z3.If(o == 0, D(k), z3.If(o == 1, DIR[0](k), z3.If(o == 2, DIR[1](k), z3.If(o == 3, DIR[2](k), z3.If(o == 4, z3.ToReal(S0(k)), z3.ToReal(S1(k)))))))
inlist = lambda o, k: ("a value of a pair", z3.And(0 <= o, o < CHUNK, 0 <= k, k < NB, S0(k) == S0(k)))
SUBV = Spec(OC + "subvalue", pre=lambda c: stored(c) + [inlist(c.at(0), c.at(1))], use=[CNTB], frame=lambda c: [], noexcept=True,
            post=lambda c: [("the value of the pair", z3.Implies(S0(c.at(1)) == S0(c.at(1)), c.rt == field(c.at(0), c.at(1))))])
pairok = lambda c, k: z3.And(0 <= S0(k), S0(k) < CNT, 0 <= S1(k), S1(k) < CNT)


def v3(v):
    return [t for p, t in sorted(v.lv.items(), key=repr) if p != ("len",)]


SUBD = Spec(OC + "subdirection", pre=lambda c: stored(c) + [inlist(z3.IntVal(0), c.at(0))], use=[SUBV, CNTB], noexcept=True, frame=lambda c: [],
            post=lambda c: [("the direction of the pair", z3.And(*[x == f(c.at(0)) for x, f in zip(v3(c.r), DIR)]))])
SUBO = Spec(OC + "suboverlap", pre=lambda c: stored(c) + [inlist(z3.IntVal(0), c.at(0)), ("flipped sites of the structure, or none", z3.Or(z3.And(c.at(1) == 0, c.at(2) == 0), z3.And(0 <= c.at(1), c.at(1) < CNT, 0 <= c.at(2), c.at(2) < CNT)))],
            use=[SUBV, CNTB] + COUNT, frame=lambda c: [], noexcept=True,
            post=lambda c: [("radii in excess of the distance, the radii of two sites exchanged", c.rt == olp(c, c.at(0), c.at(1), c.at(2))), ("lemma sites of the pair", pairok(c, c.at(0))),
                            ("no flip of a site with itself", z3.Implies(c.at(1) == c.at(2), c.rt == olp(c, c.at(0)))), ("never negative", c.rt >= 0)])
SPECS = [CNTB, SUBV, SUBD, SUBO]

# ---- lists of overlapping pairs -----------------------------------------------------------------------
RANK = FN("overlapping_before", Is, Is)


def step(c, k):
    return RANK(k + 1) == RANK(k) + z3.If(olp(c, k) > 0, 1, 0)


def ranks(c):
    return [("ranks", z3.And(RANK(0) == 0, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB), step(c, k_)), patterns=[RANK(k_ + 1)]))),
            ("lemma ranks rise", z3.ForAll([i_, k_], z3.Implies(z3.And(0 <= i_, i_ < k_, k_ <= NB), RANK(i_) + z3.If(olp(c, i_) > 0, 1, 0) <= RANK(k_)), patterns=[z3.MultiPattern(RANK(i_), RANK(k_))]))]


def mem(l, c):
    """modified local objects by their kinds"""
    seqs, ints, reals = [], [], []
    for r, p in sorted(l.mods, key=repr):
        t = l.ex.mem[r][p]
        if not z3.is_expr(t):
            continue
        if p and p[-1] == "len":
            b = p[:-1]
            seqs.append(V(None, {q[len(b):]: x for q, x in l.ex.mem[r].items() if q[:len(b)] == b}))
    return seqs


icount = lambda l: [t for nm, t, t0 in l.counters()]
els = lambda v, i: [z3.Select(t, i) for p, t in sorted(v.lv.items(), key=repr) if p[0] == "el"]


def filtered(f, elems, all_=None, **kw):
    """the function lists elems(k) for all overlapping pairs k, in order"""
    yes = lambda c: z3.BoolVal(False) if all_ is None else all_(c)
    ind = lambda c, k: z3.If(yes(c), k, RANK(k))
    has = lambda c, k: z3.Or(yes(c), olp(c, k) > 0)
    sofar = lambda c, v, n: [("one entry for every overlapping pair", v.lv[("len",)] == ind(c, n)),
                             ("the value of the pair", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n, has(c, k_)), z3.And(*[x == y for x, y in zip(els(v, ind(c, k_)), elems(c, k_))])), patterns=[RANK(k_)]))]

    def loops(c, l):
        vs, i = mem(l, c), icount(l)
        if not vs or not i:
            return []
        return [("pairs", z3.And(0 <= i[0], i[0] <= NB)), ("next rank", z3.And(z3.Implies(i[0] < NB, z3.And(step(c, i[0]), pairok(c, i[0]))), RANK(i[0]) >= 0))] + sofar(c, vs[0], i[0])
    return Spec(OC + f, use=[CNTB, SUBV, SUBO, SUBD], pre=lambda c: stored(c) + ranks(c) + kw.get("pre", lambda c: [])(c), frame=lambda c: [], loops=loops, post=lambda c: sofar(c, c.r, NB), T=20)


SUBVEC = filtered("subvector", lambda c, k: [field(c.at(0), k)], lambda c: c.at(1) == 0, pre=lambda c: [("a field of the pairs", z3.And(0 <= c.at(0), c.at(0) < CHUNK)), ("flag", z3.Or(c.at(1) == 0, c.at(1) == 1))])
OVL = filtered("overlaps", lambda c, k: [olp(c, k)])
DIRS = filtered("directions", lambda c, k: [f(k) for f in DIR])
SPECS += [OVL, SUBVEC, DIRS]
svpost = lambda o: (lambda c, v: [("one entry for every overlapping pair", v.lv[("len",)] == RANK(NB)), ("the value of the pair", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB, olp(c, k_) > 0), at(v, RANK(k_)) == o(k_)), patterns=[RANK(k_)]))])
DST = Spec(OC + "distances", use=[SUBVEC], pre=lambda c: stored(c) + ranks(c), frame=lambda c: [], post=lambda c: svpost(lambda k: D(k))(c, c.r))
# conversion of whole lists to other types, element by element
SITES = []
for f, g in (("sites0", S0), ("sites1", S1)):
    def loops(c, l, g=g):
        vs = mem(l, c)
        idx = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"] + icount(l)
        if not vs or not idx:
            return []
        n = vs[0].lv[("len",)]
        return [("position", z3.And(0 <= idx[0], idx[0] <= RANK(NB), n == idx[0])),
                ("so far", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB, olp(c, k_) > 0, RANK(k_) < idx[0]), at(vs[0], RANK(k_)) == g(k_)), patterns=[RANK(k_)]))]
    SITES.append(Spec(OC + f, use=[SUBVEC], pre=lambda c: stored(c) + ranks(c), frame=lambda c: [], loops=loops, post=lambda c, g=g: svpost(lambda k: g(k))(c, c.r), T=20))
SPECS += [DST] + SITES

# ---- sums ---------------------------------------------------------------------------------------------
SQS, COO = FN("square_overlaps_before", Is, Is, Rs), FN("coordination_before", Is, Is, Rs)
TSQ = FN("total_of_sites_before", Is, Rs)
sqterm = lambda c, k, i: z3.If(z3.And(S0(k) == i, olp(c, k) > 0), olp(c, k) * olp(c, k) * OCC(S1(k)), 0)
coterm = lambda c, k, i: z3.If(z3.And(S0(k) == i, olp(c, k) > 0), OCC(S1(k)), 0)


def sums(F, term):
    return lambda c: [("partial sums", z3.And(z3.ForAll([i_], F(0, i_) == 0, patterns=[F(0, i_)]), z3.ForAll([k_, i_], z3.Implies(z3.And(0 <= k_, k_ < NB), F(k_ + 1, i_) == F(k_, i_) + term(c, k_, i_)), patterns=[F(k_ + 1, i_)])))]


def sloops(F, term, div=None):
    def loops(c, l):
        vs = mem(l, c) or [V(None, {q[len(p[:-1]):]: x for q, x in l.ex.mem[r].items() if q[:len(p[:-1])] == p[:-1]} | {("el",): l.ex.mem[r][p]}) for r, p in sorted(l.mods, key=repr) if p and p[-1] == "el" and ("len",) == p[:-1] + ("len",)]
        vs = vs or [V(None, dict(l.ex.mem[r])) for r, p in sorted(l.mods, key=repr) if p == ("el",)]
        if not vs:
            return []
        v = vs[0]
        idx = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]
        i = idx or icount(l)
        if not i:
            return []
        i = i[0]
        if div is not None and idx:                    # the pass over sites
            return [("position", z3.And(0 <= i, i <= CNT, v.lv[("len",)] == CNT)), ("sums of sites, shared by two atoms", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < CNT), at(v, j_) == z3.If(j_ < i, F(NB, j_) / div, F(NB, j_)))))]
        return [("pairs", z3.And(0 <= i, i <= NB, v.lv[("len",)] == CNT)), ("the pair", z3.Implies(i < NB, z3.And(pairok(c, i), z3.ForAll([j_], F(i + 1, j_) == F(i, j_) + term(c, i, j_), patterns=[F(i + 1, j_)])))),
                ("sums so far", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < CNT), at(v, j_) == F(i, j_))))]
    return loops


SSQ = Spec(OC + "siteSquareOverlaps", use=[CNTB, SUBV, SUBO] + COUNT + SAS, pre=lambda c: stored(c) + sums(SQS, sqterm)(c) + [("a structure", pid(c.v("mstructure")) != 0)], frame=lambda c: [], loops=sloops(SQS, sqterm, 2), T=20,
           post=lambda c: [("one for every site", c.r.lv[("len",)] == CNT), ("half of the squared overlaps, weighted by occupancy", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < CNT), at(c.r, j_) == SQS(NB, j_) / 2)))])
COR = Spec(OC + "coordinations", use=[CNTB, SUBV, SUBO] + COUNT + SAS, pre=lambda c: stored(c) + sums(COO, coterm)(c) + [("a structure", pid(c.v("mstructure")) != 0)], frame=lambda c: [], loops=sloops(COO, coterm), T=20,
           post=lambda c: [("one for every site", c.r.lv[("len",)] == CNT), ("overlapping neighbors, weighted by occupancy", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < CNT), at(c.r, j_) == COO(NB, j_))))])
tterm = lambda i: SQS(NB, i) / 2 * z3.ToReal(MUL(i)) * OCC(i)


def tloops(c, l):
    i = icount(l)
    s = [(l.ex.mem[r][p]) for r, p in sorted(l.mods, key=repr) if r.startswith("%") and z3.is_expr(l.ex.mem[r][p]) and l.ex.mem[r][p].sort() == Rs]
    if not i or not s:
        return []
    return [("sites", z3.And(0 <= i[0], i[0] <= CNT)), ("next partial sum", z3.Implies(i[0] < CNT, TSQ(i[0] + 1) == TSQ(i[0]) + tterm(i[0]))), ("sum so far", s[0] == TSQ(i[0]))]


tot = lambda c: [("partial sums of sites", z3.And(TSQ(0) == 0, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < CNT), TSQ(i_ + 1) == TSQ(i_) + tterm(i_)), patterns=[TSQ(i_ + 1)])))]
TSO = Spec(OC + "totalSquareOverlap", use=[SSQ] + COUNT + SAS, pre=lambda c: SSQ.pre(c) + tot(c), frame=lambda c: [], loops=tloops, post=lambda c: [("sum over sites, weighted by multiplicity and occupancy", c.rt == TSQ(CNT))], T=20)
MSO = Spec(OC + "meanSquareOverlap", use=[TSO] + SAS, pre=lambda c: TSO.pre(c), frame=lambda c: [], post=lambda c: [("total per atom, nothing without atoms", c.rt == z3.If(TOT > 0, TSQ(CNT) / TOT, 0))])
SPECS += [SSQ, COR, TSO, MSO]

# ---- neighbors of one site ------------------------------------------------------------------------------
NN, NBI = FN("pairs_of_site", Is, Is), FN("pair_of_site", Is, Is, Is)
m_, q_ = z3.Ints("m!o q!o")


def nbids(ex, call):
    sh = ex.st.of(call.fd.ret)
    sh = getattr(sh, "to", sh)
    v = ex.freshV(sh, "ids")
    k = ex.t(call.args[0])
    ex.check("neighbors of a site of the structure", z3.And(0 <= k, k < CNT))
    ex.assume(v.lv[("len",)] == NN(k))
    ex.assume(NN(k) >= 0)
    ex.assume(z3.ForAll([m_], z3.Implies(z3.And(0 <= m_, m_ < NN(k)), z3.And(at(v, m_) == NBI(k, m_), 0 <= NBI(k, m_), NBI(k, m_) < NB, S0(NBI(k, m_)) == k)), patterns=[at(v, m_)]))
    ex.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB, S0(k_) == k), z3.Exists([m_], z3.And(0 <= m_, m_ < NN(k), NBI(k, m_) == k_)))))
    return ex.tmp(v, "ids")


NBRS = Custom(OC + "getNeighborIds", nbids, name="OverlapCalculator::getNeighborIds", trusted="the pairs whose first site is the one given; checked by the harness")
dom = lambda v, q: z3.Select(v.lv[("dom",)], q)


def setmods(l):
    out = []
    for r, p in sorted(l.mods, key=repr):
        if p and p[-1] == "dom":
            b = p[:-1]
            out.append(V(None, {q[len(b):]: x for q, x in l.ex.mem[r].items() if q[:len(b)] == b}))
    return out


idxs = lambda l: [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"] + icount(l)


def gns_loops(c, l):
    ss, i = setmods(l), idxs(l)
    if not ss or not i:
        return []
    s, n, i = c.at(0), NN(c.at(0)), i[0]
    return [("position", z3.And(0 <= i, i <= n)), ("neighbors so far", z3.ForAll([m_], z3.Implies(z3.And(0 <= m_, m_ < i, olp(c, NBI(s, m_)) > 0), dom(ss[0], S1(NBI(s, m_)))), patterns=[NBI(s, m_)])),
            ("nothing else so far", z3.ForAll([q_], z3.Implies(dom(ss[0], q_), z3.Exists([m_], z3.And(0 <= m_, m_ < i, olp(c, NBI(s, m_)) > 0, S1(NBI(s, m_)) == q_)))))]


siteok = lambda i: ("a site of the structure", z3.And(0 <= i, i < CNT))
GNS = Spec(OC + "getNeighborSites", use=[CNTB, SUBV, SUBO, NBRS] + COUNT, pre=lambda c: stored(c) + [siteok(c.at(0))], frame=lambda c: [], loops=gns_loops, T=20,
           post=lambda c: [("sites of all overlapping neighbors", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB, S0(k_) == c.at(0), olp(c, k_) > 0), dom(c.r, S1(k_))), patterns=[S0(k_)])),
                           ("no other sites", z3.ForAll([q_], z3.Implies(dom(c.r, q_), z3.Exists([k_], z3.And(0 <= k_, k_ < NB, S0(k_) == c.at(0), S1(k_) == q_, olp(c, k_) > 0)))))])
CBT = FN("coordination_by_type_before", Is, Is, Is, Rs)      # site, position in its list, type
ANY = FN("type_before", Is, Is, Is, Bs)
cbt = lambda c, s, m, q: z3.And(TYP(S1(NBI(s, m))) == q, olp(c, NBI(s, m)) > 0)


def cstep(c, s, m, q):
    return z3.And(CBT(s, m + 1, q) == CBT(s, m, q) + z3.If(cbt(c, s, m, q), OCC(S1(NBI(s, m))), 0), ANY(s, m + 1, q) == z3.Or(ANY(s, m, q), cbt(c, s, m, q)))


def ct_pre(c):
    s = c.at(0)
    return stored(c) + [siteok(s), ("a structure", pid(c.v("mstructure")) != 0), ("partial sums by type", z3.And(z3.ForAll([q_], z3.And(CBT(s, 0, q_) == 0, z3.Not(ANY(s, 0, q_)))), z3.ForAll([m_, q_], z3.Implies(z3.And(0 <= m_, m_ < NN(s)), cstep(c, s, m_, q_)), patterns=[CBT(s, m_ + 1, q_)])))]


def ctis(v, s, m):
    return z3.ForAll([q_], z3.And(dom(v, q_) == ANY(s, m, q_), z3.Implies(ANY(s, m, q_), z3.Select(v.lv[("val",)], q_) == CBT(s, m, q_)), z3.Implies(z3.Not(ANY(s, m, q_)), CBT(s, m, q_) == 0)))


def ct_loops(c, l):
    ss, i = setmods(l), idxs(l)
    if not ss or not i:
        return []
    s, i = c.at(0), i[0]
    return [("position", z3.And(0 <= i, i <= NN(s))), ("next neighbor", z3.Implies(i < NN(s), z3.And(z3.ForAll([q_], cstep(c, s, i, q_)), pairok(c, NBI(s, i))))), ("coordination so far", ctis(ss[0], s, i))]


CTY = Spec(OC + "coordinationByTypes", use=[CNTB, SUBV, SUBO, NBRS] + COUNT + SAS, pre=ct_pre, frame=lambda c: [], loops=ct_loops, T=20, post=lambda c: [("occupancy of overlapping neighbors of every type, no other types", ctis(c.r, c.at(0), NN(c.at(0))))])
SPECS += [GNS, CTY]

# ---- flips ------------------------------------------------------------------------------------------------
ARR = z3.ArraySort(Is, Is)
FLIP = FN("change_of_first", ARR, Is, Rs)          # sum over the first pairs of an enumeration
scale = lambda k: z3.If(S0(k) == S1(k), z3.RealVal(1), z3.RealVal(2)) * OCC(S0(k)) * OCC(S1(k)) * z3.ToReal(MUL(S0(k))) / 2
fterm = lambda c, k, i, j: scale(k) * (olp(c, k, i, j) * olp(c, k, i, j) - olp(c, k) * olp(c, k))
FT = FN("change_of_pair", Is, Rs)
fstep = lambda c, a, m: FLIP(a, m + 1) == FLIP(a, m) + FT(z3.Select(a, m))
fsum = lambda c: [("change of a pair", z3.ForAll([k_], FT(k_) == fterm(c, k_, c.at(0), c.at(1)), patterns=[FT(k_)]))]


def idset(mem):
    st = [V(None, dict(mem[r])) for r in sorted(mem) if r.startswith("%") and not r.startswith("%tmp") and ("dom",) in mem[r] and ("ord",) in mem[r]]
    return st[0] if st else None


def ofboth(c, st):
    return z3.ForAll([k_], dom(st, k_) == z3.And(0 <= k_, k_ < NB, z3.Or(S0(k_) == c.at(0), S0(k_) == c.at(1))), patterns=[dom(st, k_)])


def fl_loops(c, l):
    i = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]
    s = [(l.ex.mem[r][p]) for r, p in sorted(l.mods, key=repr) if r.startswith("%") and z3.is_expr(l.ex.mem[r][p]) and l.ex.mem[r][p].sort() == Rs]
    st = idset(l.ex.mem)
    if not i or not s or st is None:
        return []
    i, s = i[0], s[0]
    o, n = st.lv[("ord",)], st.lv[("n",)]
    for f in (FLIP(o, 0) == 0, z3.Implies(i >= 0, fstep(c, o, i)), z3.Implies(i >= 1, fstep(c, o, i - 1))):       # the definition of the sum
        c.ex.assume(f)
    return [("position", z3.And(0 <= i, i <= n)), ("pairs of either site, every one once", ofboth(c, st)), ("sites of the next pair", z3.Implies(i < n, pairok(c, z3.Select(o, i)))), ("sum so far", s == FLIP(o, i))]


same = lambda c: z3.Or(c.at(0) == c.at(1), rad(c, c.at(0)) == rad(c, c.at(1)))
inr = lambda i: z3.And(0 <= i, i < CNT)


def fl_post(c):
    st = idset(c.ex.mem)
    a, b = c.at(0), c.at(1)
    unb = z3.Or(z3.And(S0(k_) != a, S0(k_) != b, S1(k_) != a, S1(k_) != b), z3.And(S0(k_) == a, S1(k_) == b), z3.And(S0(k_) == b, S1(k_) == a))
    what = [("no change for equal radii", z3.Implies(same(c), c.rt == 0)), ("only sites of the structure", z3.And(inr(a), inr(b))),
            ("pairs of other sites, or of the flipped sites with each other, do not change", z3.ForAll([k_], z3.Implies(z3.And(pairok(c, k_), unb), olp(c, k_, a, b) == olp(c, k_)))),
            ("no pair changes for equal radii", z3.Implies(same(c), z3.ForAll([k_], z3.Implies(pairok(c, k_), olp(c, k_, a, b) == olp(c, k_)))))]
    if st is None:
        return what + [("nothing to add up", same(c))]
    return what + [("pairs of either site, every one once", z3.Or(same(c), ofboth(c, st))), ("sum of their changes", z3.Or(same(c), c.rt == FLIP(st.lv[("ord",)], st.lv[("n",)])))]


FLT = Spec(OC + "flipDiffTotal", use=[CNTB, SUBV, SUBO, NBRS] + COUNT + SAS, pre=lambda c: stored(c) + fsum(c) + [("a structure", pid(c.v("mstructure")) != 0)], frame=lambda c: [], loops=fl_loops, T=20,
           raises=lambda c, e: [("only for sites that the structure does not have", z3.Not(z3.And(inr(c.at(0)), inr(c.at(1)))))], post=fl_post)
FTOT = FN("flip_difference", Is, Is, Rs)
FLTC = Custom(OC + "flipDiffTotal", lambda ex, call: ex.vR(FTOT(ex.t(call.args[0]), ex.t(call.args[1]))), name="OverlapCalculator::flipDiffTotal", trusted="under contract above")
FLM = Spec(OC + "flipDiffMean", use=[FLTC] + SAS, frame=lambda c: [], pre=lambda c: [("a structure", pid(c.v("mstructure")) != 0)], post=lambda c: [("change of the total per atom, nothing without atoms", c.rt == z3.If(TOT > 0, FTOT(c.at(0), c.at(1)) / TOT, 0))])
SPECS += [FLT, FLM]

# ---- gradients --------------------------------------------------------------------------------------------
GRA = [FN("gradient%d_before" % q, Is, Is, Rs) for q in range(3)]
gterm = lambda c, q, k, j: z3.If(z3.And(S1(k) == j, olp(c, k) > 0), -2 * olp(c, k) / D(k) * DIR[q](k), 0)
gstep = lambda c, k, j: z3.And(*[GRA[q](k + 1, j) == GRA[q](k, j) + gterm(c, q, k, j) for q in range(3)])


def gr_pre(c):
    return stored(c) + [("atoms are apart", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NB), D(k_) > z3.Q(1, 10**6)), patterns=[D(k_)])),
                        ("partial sums", z3.And(z3.ForAll([j_], z3.And(*[GRA[q](0, j_) == 0 for q in range(3)])), z3.ForAll([k_, j_], z3.Implies(z3.And(0 <= k_, k_ < NB), gstep(c, k_, j_)), patterns=[GRA[0](k_ + 1, j_)])))]


def gis(v, n):
    return z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < CNT), z3.And(*[x == GRA[q](n, j_) for q, x in enumerate(els(v, j_))])))


def gr_loops(c, l):
    i = icount(l)
    vs = [V(None, dict(l.ex.mem[r])) for r in sorted(set(r for r, p in l.mods if p and p[0] == "el" and ("len",) in l.ex.mem[r]))]
    if not vs or not i:
        return []
    i = i[0]
    return [("pairs", z3.And(0 <= i, i <= NB, vs[0].lv[("len",)] == CNT)), ("the pair", z3.Implies(i < NB, z3.And(pairok(c, i), z3.ForAll([j_], gstep(c, i, j_))))), ("sums so far", gis(vs[0], i))]


GRD = Spec(OC + "gradients", use=[CNTB, SUBV, SUBO, SUBD] + COUNT, pre=gr_pre, frame=lambda c: [], loops=gr_loops, T=20, post=lambda c: [("one for every site", c.r.lv[("len",)] == CNT), ("derivatives of the squared overlaps at the second site", gis(c.r, NB))])
SPECS += [GRD]

# ---- radii and pairs ----------------------------------------------------------------------------------------
RAD = FN("radius_of_type", Is, Rs)
LOOK = Custom(N + "AtomRadiiTable::lookup", lambda ex, call: ex.vR(RAD(ex.t(call.args[0]))), name="AtomRadiiTable::lookup", trusted="C13")
radii = lambda c, n: z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), at(cache(c, "siteradii", False), j_) == RAD(TYP(j_))))
msep = lambda c, old=False: cache(c, "maxseparation", old).lv[()]
CSD = Spec(OC + "cacheStructureData", use=SAS + COUNT + [LOOK], pre=lambda c: [("sites", CNT >= 0), ("objects are set", z3.And(pid(c.v("mstructure")) != 0, pid(c.v("matomradiitable")) != 0))], frame=lambda c: [c.lv("mstructure_cache")],
           loops=lambda c, l: [("sites", z3.And(0 <= icount(l)[0], icount(l)[0] <= CNT, cache(c, "siteradii", False).lv[("len",)] == CNT)), ("sites so far", radii(c, icount(l)[0]))] if icount(l) else [],
           post=lambda c: [("a radius for every site", cache(c, "siteradii", False).lv[("len",)] == CNT), ("of the type of the site", radii(c, CNT)),
                           ("no overlap beyond the largest separation", z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < CNT, 0 <= j_, j_ < CNT), at(cache(c, "siteradii", False), i_) + at(cache(c, "siteradii", False), j_) <= msep(c)))),
                           ("the largest separation is one of the atoms", z3.If(CNT == 0, msep(c) == 0, z3.Exists([i_], z3.And(0 <= i_, i_ < CNT, msep(c) == 2 * at(cache(c, "siteradii", False), i_)))))], T=20)
GETR = [Custom(PQ + f, lambda ex, call, m=m: Ctx(ex, call.fd, call.this, call.args, ex.mem).m(m), name="PairQuantity::" + f, trusted="the stored value") for f, m in (("getRmin", "mrmin"), ("getRmax", "mrmax"))]
mn = lambda a, b: z3.If(b < a, b, a)
used = lambda c: mn(c.t("mrmax"), msep(c))
USED = Spec(OC + "getRmaxUsed", use=GETR + COUNT, pre=lambda c: [("a radius for every site", cache(c, "siteradii").lv[("len",)] == CNT)], frame=lambda c: [], post=lambda c: [("the shorter of the limits", c.rt == used(c))])
BSET = [Assumed(G + f, name="BaseBondGenerator::" + f) for f in ("setRmin", "setRmax")]


def cfg_post(c):
    lo, hi = ([x.at(0) for x in c.calls("BaseBondGenerator::" + f)] for f in ("setRmin", "setRmax"))
    return [("pairs from the lower limit", z3.BoolVal(bool(lo)) if not lo else lo[-1] == c.t("mrmin")), ("pairs to the upper limit in use", z3.BoolVal(False) if not hi else hi[-1] == used(c))]


CFG = Spec(OC + "configureBondGenerator", use=GETR + BSET + [USED] + COUNT, pre=lambda c: USED.pre(c), frame=lambda c: [], post=cfg_post)
PQRESET = Assumed(PQ + "resetValue", name="PairQuantity::resetValue", frame=lambda c: [c.lv("mmergedvaluescount")])
RST = Spec(OC + "resetValue", use=[PQRESET, CSD], pre=lambda c: CSD.pre(c), frame=lambda c: [c.lv(x) for x in ("mvalue", "mneighborids", "mneighborids_cached", "mstructure_cache", "mmergedvaluescount")],
           post=lambda c: [("no pairs are left", c.len("mvalue") == 0), ("neighbors are forgotten", z3.Not(c.t("mneighborids_cached"))), ("radii of this structure", radii(c, CNT))])
DIST = z3.Real("dist")
R3S = z3.Reals("r01x r01y r01z")
G0, G1 = z3.Ints("site0 site1")


def genr(ex, call):
    sh = ex.st.of(call.fd.ret)
    sh = getattr(sh, "to", sh)
    v = ex.freshV(sh, "r01")
    for t, x in zip(v3(v), R3S):
        ex.assume(t == x)
    return ex.tmp(v, "r01") if call.fd.ret.s.rstrip().endswith("&") else v


GEN = [gen("distance", DIST), gen("site0", G0), gen("site1", G1), Custom(G + "r01", genr, trusted="C04", name="BaseBondGenerator::r01")]


def apc_post(c):
    v, v0 = c.v("mvalue"), c.old("mvalue")
    n = v0.lv[("len",)]
    new = [DIST] + R3S + [z3.ToReal(G0), z3.ToReal(G1)]
    return [("one more pair", v.lv[("len",)] == n + CHUNK), ("earlier pairs stay", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), at(v, k_) == at(v0, k_)))), ("the pair of the generator", z3.And(*[at(v, n + q) == x for q, x in enumerate(new)]))]


APC = Spec(OC + "addPairContribution", use=GEN, pre=lambda c: [("every pair counts once", c.at(1) == 1), ("pairs within the largest separation", DIST <= msep(c))], frame=lambda c: [c.lv("mvalue")], post=apc_post)
SPECS += [CSD, USED, CFG, RST, APC]
SPECS += [Spec(OC + "setAtomRadiiTable", frame=lambda c: [c.lv("matomradiitable")], post=lambda c: [("the table given", pid(c.v("matomradiitable")) == pid(c.old(0))), ("never missing", pid(c.v("matomradiitable")) != 0)], raises=lambda c, e: [("only a missing table", pid(c.old(0)) == 0)])]
