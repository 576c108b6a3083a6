"""C10: bonds"""
from dv.contract import *
from dv.models import UF
from props.C07 import CLICK, CLICKS, N, pid, clicks
from props.C14 import rv
import math
import z3
ID = "C10"
LEVEL = "proof"
HARNESS = "C10.cpp"
TUS = ["srreal/BondCalculator.cpp"]
BOUNDED = ["end-to-end: random structures, ranges, filters, masks, update histories and parallel merges against brute-force bonds (conversion to and from parallel data included)"]
ASSUMPTIONS = ["std::sort, std::merge and std::set_difference do what the standard says for a strict weak ordering (proved for the comparison), also in place",
               "pairs and their geometry as given by the bond generator (C04), the set of pairs visited by the evaluators (C01, C02, C03)", "acos is uninterpreted; real arithmetic for double"]
BC, OP, G = N + "BondCalculator::", N + "BondOp::", N + "BaseBondGenerator::"
Is, Bs, Rs = z3.IntSort(), z3.BoolSort(), z3.RealSort()
FLD = ["distance", "site0", "site1", "direction0", "direction1", "direction2"]
ISI = {"site0", "site1"}


def leaf(v, f, seq=True):
    return [t for p, t in v.lv.items() if p and str(p[-1]).split("::")[-1] == f and (not seq or p[0] == "el")][0]


class Seq_:
    """a sequence of bonds: its length and an array per field"""

    def __init__(self, v, n=None):
        self.n = v.lv[("len",)] if n is None else n
        self.a = [leaf(v, f) for f in FLD]

    def at(self, i):
        return [z3.Select(a, i) for a in self.a]


def less(x, y):
    r = z3.BoolVal(False)
    for a, b in reversed(list(zip(x, y))):
        r = z3.Or(a < b, z3.And(a == b, r))
    return r


def issorted(s, n=None):
    i, j = z3.Ints("i!so j!so")
    n = s.n if n is None else n
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(less(s.at(j), s.at(i)))), patterns=[z3.MultiPattern(z3.Select(s.a[0], i), z3.Select(s.a[0], j))])


# multisets of bonds: elements below n of the arrays
Bag = z3.DeclareSort("Bag")
ARR = [z3.ArraySort(Is, Is if f in ISI else Rs) for f in FLD]
BAG = z3.Function("BAG", *([Is] + ARR + [Bag]))
PLUS, MINUS = z3.Function("PLUS", Bag, Bag, Bag), z3.Function("MINUS", Bag, Bag, Bag)
NONE = z3.Const("NONE", Bag)


def bag(s, n=None):
    return BAG(s.n if n is None else n, *s.a)


def bagaxioms():
    x, y = z3.Consts("x!bg y!bg", Bag)
    return [z3.ForAll([x, y], PLUS(x, y) == PLUS(y, x)), z3.ForAll([x], PLUS(NONE, x) == x), z3.ForAll([x], MINUS(x, NONE) == x)]


def zerobag(s):
    return z3.Implies(s.n == 0, bag(s) == NONE)


def samebag(s, t, n):
    """sequences that agree below n are the same multiset"""
    i = z3.Int("i!sb")
    return z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*[x == y for x, y in zip(s.at(i), t.at(i))]))), bag(s, n) == bag(t, n))


# ---- comparison -----------------------------------------------------------------------------------
def ent(v):
    return [leaf(v, f, False) for f in FLD]


def order_laws(c):
    a, b, d = [[z3.Const("%s!%s" % (f, k), Is if f in ISI else Rs) for f in FLD] for k in "abd"]
    inc = lambda x, y: z3.And(z3.Not(less(x, y)), z3.Not(less(y, x)))
    return [("a strict weak ordering: irreflexive", z3.Not(less(a, a))), ("a strict weak ordering: transitive", z3.Implies(z3.And(less(a, b), less(b, d)), less(a, d))),
            ("a strict weak ordering: ties are transitive", z3.Implies(z3.And(inc(a, b), inc(b, d)), inc(a, d))), ("ties are equal bonds", z3.Implies(inc(a, b), z3.And(*[x == y for x, y in zip(a, b)]))),
            ("ordered by distance first", z3.Implies(a[0] < b[0], less(a, b)))]


CMP = Spec(OP + "compare", frame=lambda c: [], noexcept=True, post=lambda c: [("the order of bonds", c.rt == less(ent(c.a(0)), ent(c.a(1))))] + order_laws(c))
RCMP = Spec(OP + "reverse_compare", use=[CMP], frame=lambda c: [], noexcept=True, post=lambda c: [("the opposite order of bonds", c.rt == less(ent(c.a(1)), ent(c.a(0))))])

# ---- standard algorithms --------------------------------------------------------------------------
from dv.core import Unsupported
from dv.shapes import *


def rng(ex, a, b):
    a, b = ex.load(a), ex.load(b)
    ca, cb = a.lv[("cont",)], b.lv[("cont",)]
    if a.shape.kind != "iter" or not ca.lv.same(cb.lv) or a.shape.rev != b.shape.rev:
        raise Unsupported("ranges of this kind")
    lo, hi = (b, a) if a.shape.rev else (a, b)
    lo, hi = z3.simplify(lo.lv[("idx",)]), z3.simplify(hi.lv[("idx",)])
    if not (z3.is_int_value(lo) and lo.as_long() == 0):
        raise Unsupported("ranges that start inside")
    return ca.lv, hi, a.shape.rev


def comparator(ex, a, rev):
    v = a if not isinstance(a, LV) else ex.load(a)
    f = v.lv.get(())
    s = f.fd.qn if hasattr(f, "fd") else repr(f.__dict__ if hasattr(f, "__dict__") else f)
    if s == OP + ("reverse_compare" if rev else "compare"):
        return
    raise Unsupported("comparison " + s[:80])


def put(ex, lv, n):
    """fresh content for the elements of lv"""
    cur = ex.read(lv)
    d = dict(cur.lv)
    for p in d:
        if p[0] == "el":
            d[p] = z3.FreshConst(d[p].sort(), "sorted")
    ex.write(lv, V(cur.shape, d))
    return Seq_(ex.read(lv), n)


def sort(ex, call):
    lv, hi, rev = rng(ex, call.args[0], call.args[1])
    comparator(ex, call.args[2], rev)
    old = Seq_(ex.read(lv))
    ex.check("sort: whole sequence", hi == old.n)
    new = put(ex, lv, hi)
    for f in [issorted(new), bag(new) == bag(old)] + bagaxioms() + [zerobag(old)]:
        ex.assume(f)
    return V(VOID, {})


def merge(ex, call):
    d, n1, rev = rng(ex, call.args[0], call.args[1])
    s, n2, rev2 = rng(ex, call.args[2], call.args[3])
    comparator(ex, call.args[5], rev)
    out = ex.load(call.args[4])
    olv = out.lv[("cont",)].lv
    if rev != rev2 or out.shape.rev != rev or not olv.same(d) or s.same(d):
        raise Unsupported("merge of this kind")
    A, B = Seq_(ex.read(d)), Seq_(ex.read(s))
    N_ = z3.simplify(n1 + n2)
    if not rev:
        raise Unsupported("forward merge in place")
    ex.check("merge: room for both ranges", z3.And(n1 >= 0, out.lv[("idx",)] == n1 + n2, A.n == n1 + n2, n2 == B.n))
    ex.check("merge: first range is ordered", issorted(A, n1))
    ex.check("merge: second range is ordered", issorted(B, n2))
    new = put(ex, d, N_)
    for f in [issorted(new), bag(new, A.n) == PLUS(bag(A, n1), bag(B, n2))] + bagaxioms() + [zerobag(B)]:
        ex.assume(f)
    ex.calls.append(("std::merge", (A, n1)))
    return V(out.shape, dict(out.lv) | {("idx",): z3.IntVal(0)})


def difference(ex, call):
    a, n1, r1 = rng(ex, call.args[0], call.args[1])
    b, n2, r2 = rng(ex, call.args[2], call.args[3])
    comparator(ex, call.args[5], False)
    out = ex.load(call.args[4])
    if r1 or r2 or out.shape.rev or not out.lv[("cont",)].lv.same(a) or b.same(a):
        raise Unsupported("set_difference of this kind")
    A, B = Seq_(ex.read(a)), Seq_(ex.read(b))
    ex.check("set_difference: whole ranges into the first", z3.And(n1 == A.n, n2 == B.n, out.lv[("idx",)] == 0))
    ex.check("set_difference: first range is ordered", issorted(A, n1))
    ex.check("set_difference: second range is ordered", issorted(B, n2))
    last = z3.FreshConst(Is, "last")
    new = put(ex, a, last)
    for f in [0 <= last, last <= n1, issorted(new, last), bag(new, last) == MINUS(bag(A), bag(B)), zerobag(B), zerobag(A)] + bagaxioms():
        ex.assume(f)
    ex.calls.append(("std::set_difference", (new, last)))
    return V(out.shape, dict(out.lv) | {("idx",): last})


STDS = [Custom("std::" + f, g, trusted="the C++ standard", name="std::" + f) for f, g in (("sort", sort), ("merge", merge), ("set_difference", difference))]


def bm_post(c):
    d0, s0, d1 = Seq_(c.old(0)), Seq_(c.old(1)), Seq_(c.v(0))
    for nm, x in c.ex.calls:
        if nm == "std::merge":
            c.ex.assume(samebag(x[0], d0, x[1]))        # multisets of sequences that agree are equal
    return [("the merged bonds are in order", issorted(d1)), ("the bonds of both, nothing else", bag(d1) == PLUS(bag(d0), bag(s0))), ("their number", d1.n == d0.n + s0.n)]


SPECS = [CMP, RCMP]
BM = Spec(OP + "bmerge", use=STDS, frame=lambda c: [c.lv(0)], pre=lambda c: [("ordered", z3.And(issorted(Seq_(c.old(0))), issorted(Seq_(c.old(1)))))], post=bm_post)


def seqs(c, old=False):
    f = c.old if old else c.v
    return [Seq_(f(x)) for x in ("mbonds", "mpopbonds", "maddbonds")]


PAR = z3.Bool("parallel")
PARA = Custom(N + "PQEvaluatorBasic::isParallel", lambda ex, call: ex.vB(PAR), name="PQEvaluatorBasic::isParallel", trusted="as configured")


def fin_post(c):
    b0, p0, a0 = seqs(c, True)
    b, p, a = seqs(c)
    for f in [zerobag(x) for x in (b0, p0, a0, b, p, a)] + bagaxioms():
        c.ex.assume(f)
    for nm, x in c.ex.calls:
        if nm == "std::set_difference":
            c.ex.assume(samebag(x[0], b, x[1]))
    v = c.v("mvalue")
    i = z3.Int("i!v")
    return [("bonds in order of distance", issorted(b)), ("parallel parts in order", z3.And(issorted(p), issorted(a))),
            ("the earlier and the added bonds without the removed ones", z3.Implies(z3.Not(PAR), bag(b) == MINUS(PLUS(bag(b0), bag(a0)), bag(p0)))),
            ("added and removed bonds are used up", z3.Implies(z3.Not(PAR), z3.And(p.n == 0, a.n == 0))),
            ("a part keeps its additions and removals", z3.Implies(PAR, z3.And(bag(b) == bag(b0), bag(p) == bag(p0), bag(a) == bag(a0)))),
            ("the value is the list of distances", z3.Implies(z3.Not(PAR), z3.And(v.lv[("len",)] == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.n), z3.Select(v.lv[("el",)], i) == b.at(i)[0])))))]


def listing(f, fields, elem):
    def post(c):
        b = Seq_(c.v("mbonds"))
        i = z3.Int("i!l")
        return [("one entry for every bond", c.r.lv[("len",)] == b.n), ("of the same bond", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.n), elem(c.r, b, i))))]

    def loops(c, l):
        b = Seq_(c.v("mbonds"))
        i = z3.Int("i!l")
        out = [x for r, p in sorted(set((r, p[:-1]) for r, p in l.mods if p and p[-1] in ("idx",)), key=repr) for x in [l.ex.mem[r][p + ("idx",)]]]
        vs = [(r, p) for r, p in sorted(l.mods, key=repr) if p and p[-1] == "len"]
        if not out or not vs:
            return []
        n = l.ex.mem[vs[0][0]][vs[0][1]]
        v = V(None, {p[len(vs[0][1]) - 1:]: t for p, t in l.ex.mem[vs[0][0]].items() if p[:len(vs[0][1]) - 1] == vs[0][1][:-1]})
        k = out[0]
        return [("position", z3.And(0 <= k, k <= b.n, n == k)), ("bonds so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), elem(v, b, i))))]
    return Spec(BC + f, post=post, loops=loops, frame=lambda c: [])


def plain(k):
    return lambda v, b, i: z3.Select(v.lv[("el",)], i) == b.at(i)[k]


def three(v, b, i):
    return z3.And(*[z3.Select(t, i) == x for t, x in zip([t for p, t in sorted(v.lv.items(), key=repr) if p[0] == "el"], b.at(i)[3:])])


LST = [listing("distances", 1, plain(0)), listing("sites0", 1, plain(1)), listing("sites1", 1, plain(2)), listing("directions", 3, three)]
SPECS += [BM] + LST
FIN = Spec(BC + "finishValue", use=STDS + [BM, PARA, LST[0]], pre=lambda c: [("an evaluator is always there", pid(c.v("mevaluator")) != 0), ("earlier bonds are in order", issorted(seqs(c, True)[0])),
           ("no more bonds are removed than there are", seqs(c, True)[1].n <= seqs(c, True)[0].n + seqs(c, True)[2].n)],
           frame=lambda c: [c.lv(x) for x in ("mbonds", "mpopbonds", "maddbonds", "mvalue")], post=fin_post)
SPECS += [FIN]

# ---- direction filter -----------------------------------------------------------------------------
DIST = z3.Real("dist")
R3S = z3.Reals("r01x r01y r01z")
S0, S1 = z3.Ints("site0 site1")
PIV = rv(math.pi)
i_ = z3.Int("i!f")


def v3(v, i=None):
    ts = [t for p, t in sorted(v.lv.items(), key=repr) if p != ("len",)]
    return ts if i is None else [z3.Select(t, i) for t in ts]


def filt(c, old=False):
    f = c.old if old else c.v
    return f("mfilter_directions"), f("mfilter_degrees")


def accepted(c, u, i):
    ax, dg = filt(c, True)
    d = z3.Sum([x * y for x, y in zip(u, v3(ax, i))])
    ca = z3.If(1 < d, 1, d)
    ca = z3.If(ca < -1, -1, ca)
    deg = z3.Select(dg.lv[("el",)], i)
    return z3.Or(180 <= deg, z3.RealVal(180) / PIV * UF["acos"](ca) <= deg)


def passes(c, u):
    n = c.olen("mfilter_degrees")
    return z3.Or(n == 0, z3.Exists([i_], z3.And(0 <= i_, i_ < n, accepted(c, u, i_))))


paired = lambda c: [("an angle for every direction", c.olen("mfilter_directions") == c.olen("mfilter_degrees"))]
unit = lambda u: z3.Sum([x * x for x in u]) == 1


def cc_loops(c, l):
    out = [t for r, p, t in [(r, p, l.ex.mem[r][p]) for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]]
    if not out:
        return []
    k = out[0]
    return [("directions and angles side by side", z3.And(*[x == k for x in out])), ("filters so far", z3.And(0 <= k, k <= c.olen("mfilter_degrees"))),
            ("none so far accepts", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), z3.Not(accepted(c, v3(c.a(0)), i_)))))]


CONE = Spec(BC + "checkConeFilters", pre=lambda c: paired(c) + [("a direction", unit(v3(c.a(0))))], frame=lambda c: [], loops=cc_loops,
            post=lambda c: [("within the angle of some filter, or no filter", c.rt == passes(c, v3(c.a(0))))])


def gen(f, t):
    return Custom(G + f, lambda ex, call: V(R if t.sort() == Rs else I, {(): t}), trusted="C04", name="BaseBondGenerator::" + f)


def genr(ex, call):
    sh = ex.st.of(call.fd.ret)
    sh = getattr(sh, "to", sh)
    v = ex.freshV(sh, "r01")
    for t, x in zip(v3(v), R3S):
        ex.assume(t == x)
    return ex.tmp(v, "r01") if call.fd.ret.s.rstrip().endswith("&") else v


GEN = [gen("distance", DIST), gen("site0", S0), gen("site1", S1), Custom(G + "r01", genr, trusted="C04", name="BaseBondGenerator::r01")]
BOND = [DIST, S0, S1] + R3S
ENT = Spec(OP + "entryFrom", use=GEN, post=lambda c: [("the bond of the generator", z3.And(*[x == y for x, y in zip(ent(c.r), BOND)]))])


def added(c, f, yes):
    b, b0 = Seq_(c.v(f)), Seq_(c.old(f))
    i = z3.Int("i!a")
    return z3.And(b.n == b0.n + z3.If(yes, 1, 0), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b0.n), z3.And(*[x == y for x, y in zip(b.at(i), b0.at(i))]))),
                  z3.Implies(yes, z3.And(*[x == y for x, y in zip(b.at(b0.n), BOND)])))


def apc_post(c):
    ok = passes(c, [x / DIST for x in R3S])
    return [("an added bond is listed when it passes the filter", added(c, "maddbonds", z3.And(ok, c.at(1) > 0))),
            ("a removed bond is listed when it passes the filter", added(c, "mpopbonds", z3.And(ok, c.at(1) < 0)))]


ADD = Spec(BC + "addPairContribution", use=GEN + [CONE, ENT], post=apc_post, frame=lambda c: [c.lv("maddbonds"), c.lv("mpopbonds")],
           pre=lambda c: paired(c) + [("added or removed", z3.Or(c.at(1) == 1, c.at(1) == -1)), ("its length is the distance", z3.And(DIST > 0, DIST * DIST == z3.Sum([x * x for x in R3S]))),
                                      ("lemma unit direction", unit([x / DIST for x in R3S]))])
SPECS += [CONE, ENT, ADD]

# ---- filters and state ------------------------------------------------------------------------------
FUZZ = rv(2.0 ** -26)
NRM = lambda u: UF["sqrt"](z3.Sum([x * x for x in u]))


def kept(v, o, n):
    return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(*[z3.Select(v.lv[p], i_) == z3.Select(o.lv[p], i_) for p in v.lv if p != ("len",)])))


def fc_post(c):
    (ax0, dg0), (ax, dg) = filt(c, True), filt(c)
    n = dg0.lv[("len",)]
    u, a = v3(ax, n), v3(c.a(0))
    s = z3.Real("s!fc")
    return [("only directions with some length are accepted", NRM(a) > FUZZ), ("one more filter", z3.And(ax.lv[("len",)] == n + 1, dg.lv[("len",)] == n + 1)), ("earlier filters stay", z3.And(kept(ax, ax0, n), kept(dg, dg0, n))),
            ("its angle as given", z3.Select(dg.lv[("el",)], n) == c.at(1)), ("its direction as given, of unit length", z3.And(*[x * NRM(a) == y for x, y in zip(u, a)])), ("noticed", clicks(c) > 0)]


def fc_rej(c, e):
    (ax0, dg0), (ax, dg) = filt(c, True), filt(c)
    n = dg0.lv[("len",)]
    return [("only directions without length are rejected", NRM(v3(c.a(0))) <= FUZZ),
            ("the filters stay", z3.And(ax.lv[("len",)] == n, dg.lv[("len",)] == n, kept(ax, ax0, n), kept(dg, dg0, n)))]


FR = lambda c: [c.lv("mfilter_directions"), c.lv("mfilter_degrees"), CLICKS]
SPECS += [Spec(BC + "filterCone", use=[CLICK], pre=paired, post=fc_post, raises=fc_rej, frame=FR),
          Spec(BC + "filterOff", use=[CLICK], pre=paired, noexcept=True, frame=FR, post=lambda c: [("no filter is left", z3.And(c.len("mfilter_directions") == 0, c.len("mfilter_degrees") == 0)),
               ("noticed when there were any", z3.Implies(c.olen("mfilter_degrees") > 0, clicks(c) > 0))])]

PQRESET = Assumed(N + "PairQuantity::resetValue", name="PairQuantity::resetValue", frame=lambda c: [c.lv("mvalue"), c.lv("mmergedvaluescount")])
B3 = ["mbonds", "mpopbonds", "maddbonds"]
SPECS += [Spec(BC + "resetValue", use=[PQRESET], post=lambda c: [("no bonds are left", z3.And(*[c.len(x) == 0 for x in B3]))], frame=lambda c: [c.lv(x) for x in B3 + ["mvalue", "mmergedvaluescount"]])]
ST3 = ["bonds", "popbonds", "addbonds"]


def sameseq(a, b):
    return z3.And(a.lv[("len",)] == b.lv[("len",)], kept(a, b, a.lv[("len",)]))


def moved(a, b):
    return lambda c: [("%s move together" % x, sameseq(c.v(y), c.old(z))) for x, y, z in zip(B3, b(c), a(c))]


stl = lambda c: [c.m(x, c.lv("mstashedvalue")) for x in ST3]
bl = lambda c: [c.lv(x) for x in B3]
SPECS += [Spec(BC + "stashPartialValue", post=moved(bl, stl), frame=lambda c: bl(c) + [c.lv("mstashedvalue")]),
          Spec(BC + "restorePartialValue", post=lambda c: moved(stl, bl)(c) + [("the stash is empty", z3.And(*[c.len(x) == 0 for x in stl(c)]))], frame=lambda c: bl(c) + [c.lv("mstashedvalue")]),
          Spec(BC + "count", post=lambda c: [("the number of bonds", c.rt == c.len("mbonds"))], frame=lambda c: [])]

TYPE = z3.Function("site_type", Is, Is)


def stype(ex, call):
    v = ex.freshV(S, "type")
    ex.assume(v.lv[()] == TYPE(ex.t(call.args[0])))
    return ex.tmp(v, "type")


STYPE = Custom(N + "StructureAdapter::siteAtomType", stype, trusted="the type of the site", name="StructureAdapter::siteAtomType")


def types(f, k, use):
    def el(v, i):
        return z3.Select(v.lv[("el",)], i)

    def loops(c, l):
        ks = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]
        vs = [(r, p) for r, p in sorted(l.mods, key=repr) if p and p[-1] == "len"]
        if not ks or not vs:
            return []
        m = l.ex.mem[vs[0][0]]
        b = Seq_(c.v("mbonds"))
        return [("position", z3.And(0 <= ks[0], ks[0] <= b.n, m[vs[0][1]] == ks[0])),
                ("types so far", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < ks[0]), z3.Select(m[vs[0][1][:-1] + ("el",)], i_) == TYPE(b.at(i_)[k]))))]
    return Spec(BC + f, use=[use, STYPE, Assumed(N + "StructureAdapter::countSites", name="StructureAdapter::countSites", post=lambda c: [("", c.rt >= 0)])], loops=loops, frame=lambda c: [], post=lambda c: [("one type for every bond", c.r.lv[("len",)] == c.len("mbonds")),
                ("the type of its site", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < c.len("mbonds")), el(c.r, i_) == TYPE(Seq_(c.v("mbonds")).at(i_)[k]))))],
                pre=lambda c: [("a structure is set", pid(c.v("mstructure")) != 0)])


SPECS += [types("types0", 1, LST[1]), types("types1", 2, LST[2])]
