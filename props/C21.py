"""C21: the Debye formula on the Q grid"""
import math
import z3
from dv.contract import *
from dv.core import Unsupported
from dv.models import UF
from props import C08 as G8
from props.C08 import (N, DS, DP, G, tr, fa, rv, k_, EPS, RS, IS, lcnt, lseq, nq, qlo, sfq, dcache, vlen, DRANGE, DVAL, DCACHED, dsites, DIST, FW, S0, S1, MULT, NSITES,
                       DQMAX, DQMIN, DQG, SFQ, SFAQ, DGF, DPREC, BOND, DRESTORE, DSTASH, QMIN2, COUNTS, PQRESET, PQRESIZE)
ID = "C21"
LEVEL = "proof"
HARNESS = "C21.cpp"
TUS = ["srreal/BaseDebyeSum.cpp", "srreal/DebyePDFCalculator.cpp", "srreal/DebyeWallerPeakWidth.cpp", "srreal/PairQuantity.cpp", "srreal/PeakWidthModel.cpp", "srreal/ScatteringFactorTable.cpp"]
BOUNDED = ["end-to-end: random structures, Q and r ranges, steps, factors, widths, masks and update histories against the Debye formula over brute-force pairs"]
ASSUMPTIONS = ["pairs, distances and displacements as given by the bond generator (C04), the pairs visited by the evaluators (C01, C02, C03), tabulated factors (C13), widths of other models (C14)",
               "exp, sin and sqrt are uninterpreted; real arithmetic for double; contributions within the precision that was set are left out, as documented"]
SC = z3.Function("scale_of_sine", IS, RS)
FTS = 1 / (2 * UF["sqrt"](2 * rv(math.log(2))))
PRE = lambda c: c.t("mdebyeprecision")
Qk = lambda c, k: tr(k) * c.t("mqstep")
x_ = z3.Real("x!o")


def damping(c, k):
    a = FTS * FW * Qk(c, k)
    return UF["exp"](-(a * a) / 2)


def scale(c, k):
    return tr(c.at(1)) * tr(MULT) * damping(c, k) * sfq(c, S0, k) * sfq(c, S1, k) / DIST


def contribution(c, k):
    s = SC(k)
    ab = z3.If(s < 0, -s, s)
    return z3.If(ab <= PRE(c), 0, s * UF["sin"](Qk(c, k) * DIST))


scales = lambda c: [("the scale of a pair at a point of the grid: damping and both factors over the distance", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < nq(c)), SC(k_) == scale(c, k_)), patterns=[SC(k_)]))]


def added(c, lo, hi):
    new, old = c.el(c.m("mvalue"), k_), c.el(c.m("mvalue"), k_, True)
    return fa(new == old + z3.If(z3.And(lo <= k_, k_ < hi), contribution(c, k_), 0))


def apc_loop(c, l):
    k = lcnt(l)[0]
    k0 = [t0 for nm, t, t0 in l.counters() if nm.startswith("%")][0]
    return [("from qmin", z3.And(k >= k0, k0 == qlo(c), z3.Or(k == k0, k <= vlen(c)))), ("same length", vlen(c) == c.olen(c.m("mvalue"))), ("the scale here", z3.Implies(z3.And(0 <= k, k < nq(c)), SC(k) == scale(c, k))), ("contributions so far", added(c, k0, k))]


zero = z3.And(DIST <= EPS, DIST >= -EPS)
APC = Spec(DS + "addPairContribution", use=[DQMAX, DQMIN, SFQ, DPREC] + BOND, pre=lambda c: DRANGE(c) + DVAL(c) + dsites(c) + scales(c), frame=lambda c: [c.lv("mvalue")], autoinv=False, T=20,
           post=lambda c: [("same length", vlen(c) == c.olen(c.m("mvalue"))), ("the damped sine of the pair at every point from qmin, nothing at zero distance", z3.If(zero, added(c, z3.IntVal(0), z3.IntVal(0)), added(c, qlo(c), vlen(c))))],
           loops=apc_loop)
SPECS = [DQMAX, DQMIN, DQG, SFQ, SFAQ, DGF, DPREC, DRESTORE, DSTASH, APC]

# ---- factors of all sites -----------------------------------------------------------------------------
SFV = z3.Function("factor_of_type", IS, RS, RS, RS)           # type, occupancy, Q
TYP, OCC, MUL = z3.Function("site_type", IS, IS), z3.Function("site_occupancy", IS, RS), z3.Function("site_multiplicity", IS, IS)
TOT = z3.Real("total_occupancy")
SA = N + "StructureAdapter::"
i_, t_ = z3.Ints("i!o t!o")


def styp(ex, call):
    v = ex.freshV(S, "type")
    ex.assume(v.lv[()] == TYP(ex.t(call.args[0])))
    return ex.tmp(v, "type")


SAS = [Custom(SA + "siteAtomType", styp, name="StructureAdapter::siteAtomType", trusted="of the structure"),
       Custom(SA + "siteOccupancy", lambda ex, call: ex.vR(OCC(ex.t(call.args[0]))), name="StructureAdapter::siteOccupancy", trusted="of the structure"),
       Custom(SA + "siteMultiplicity", lambda ex, call: ex.vI(MUL(ex.t(call.args[0]))), name="StructureAdapter::siteMultiplicity", trusted="of the structure"),
       Custom(SA + "totalOccupancy", lambda ex, call: ex.vR(TOT), name="StructureAdapter::totalOccupancy", trusted="of the structure")]


def sfat(ex, call):
    i = ex.t(call.args[0])
    return ex.vR(SFV(TYP(i), OCC(i), ex.t(call.args[1])))


SFAT = Custom(DS + "sfSiteAtQ", sfat, name="sfSiteAtQ", trusted="a function of atom type, occupancy and Q (proved for the concrete calculators)")
ROW = lambda sf, r: z3.Select(sf[("el", "el")], r)
AI = z3.ArraySort(IS, IS)
MS = z3.Function("multiplicity_before", AI, IS, IS, IS)      # types of sites, number of sites, type


def mstep(ty, s):
    return z3.ForAll([t_], MS(ty, s + 1, t_) == MS(ty, s, t_) + z3.If(z3.Select(ty, s) == t_, MUL(s), 0), patterns=[MS(ty, s + 1, t_)])


AV = z3.Function("sum_over_types_before", z3.ArraySort(IS, z3.ArraySort(IS, RS)), AI, IS, IS, RS)


def avstep(sf, ty, t):
    return z3.ForAll([k_], AV(sf, ty, t + 1, k_) == AV(sf, ty, t, k_) + z3.Select(z3.Select(sf, t), k_) * tr(MS(ty, NSITES, t)), patterns=[AV(sf, ty, t + 1, k_)])


def grid(c, k):
    return z3.And(qlo(c) <= k, k < nq(c))


def factors(c, n):
    ty, sf, av = dcache(c)
    return fa2(i_, k_, z3.Implies(z3.And(0 <= i_, i_ < n, grid(c, k_)), z3.Select(ROW(sf, z3.Select(ty[("el",)], i_)), k_) == SFV(TYP(i_), OCC(i_), Qk(c, k_))))


def fa2(a, b, f):
    return z3.ForAll([a, b], f)


def localmap(mem):
    for r in sorted(mem):
        if r.startswith("%") and not r.startswith("%tmp") and ("dom",) in mem[r] and ("val",) in mem[r] and isinstance(mem[r][("dom",)].sort().domain(), z3.DatatypeSortRef):
            return mem[r]


def keyof(m, i):
    return m[("dom",)].sort().domain().constructor(0)(TYP(i), OCC(i))


def parts(q):
    d = q.sort()
    return d.accessor(0, 0)(q), d.accessor(0, 1)(q)


def types_(c, mem, cur=None):
    """rows of the known types hold their factors (all but the row of site cur, which is being filled up to k1)"""
    ty, sf, av = dcache(c)
    m = localmap(mem)
    if m is None:
        return []
    dom, val, size = m[("dom",)], m[("val",)], m[("n",)]
    q = z3.Const("type?", dom.sort().domain())
    t, o = parts(q)
    last = sf[("len",)] - 1
    other = z3.BoolVal(True) if cur is None else z3.Select(val, q) != last
    out = [("one factor array per type", size == sf[("len",)]), ("types are numbered", z3.ForAll([q], z3.Implies(z3.Select(dom, q), z3.And(0 <= z3.Select(val, q), z3.Select(val, q) < size)), patterns=[z3.Select(dom, q)])),
           ("factors of the types so far", z3.ForAll([q, k_], z3.Implies(z3.And(z3.Select(dom, q), other, grid(c, k_)), z3.Select(ROW(sf, z3.Select(val, q)), k_) == SFV(t, o, Qk(c, k_)))))]
    n = ty[("len",)]
    out += [("types of the sites so far", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(z3.Select(dom, keyof(m, i_)), z3.Select(ty[("el",)], i_) == z3.Select(val, keyof(m, i_)))), patterns=[z3.Select(ty[("el",)], i_)]))]
    if cur is not None:
        out += [("the new type", z3.And(n >= 1, last >= 0, z3.ForAll([q], z3.Implies(z3.And(z3.Select(dom, q), z3.Select(val, q) == last), q == keyof(m, n - 1)), patterns=[z3.Select(dom, q)]),
                                        z3.ForAll([k_], z3.Implies(z3.And(qlo(c) <= k_, k_ < cur), z3.Select(ROW(sf, last), k_) == SFV(TYP(n - 1), OCC(n - 1), Qk(c, k_))))))]
    return out


def outercount(l):
    """the variable of the loop around"""
    out = [(int(r.split("@")[1]), t[()]) for r, t in l.ex.mem.items() if r.startswith("%") and "@" in r and r.split("@")[1].isdigit() and () in t and (r, ()) not in l.mods and z3.is_expr(t[()]) and t[()].sort() == IS and t[()].num_args() == 0 and str(t[()]).startswith("h:%")]
    return max(out, key=lambda x: x[0])[1] if out else None


def csd_loop(c, l):
    ty, sf, av = dcache(c)
    n = nq(c)
    cnt = [(nm, t, t0) for nm, t, t0 in l.counters() if nm.startswith("%") and not nm.endswith("len") and not nm.endswith(".n")]
    has = lambda f: any(r == c.this.root and f in str(p) for r, p in l.mods)
    out = DCACHED(c)[:2]
    z = lambda t0: z3.is_int_value(z3.simplify(t0)) and z3.simplify(t0).as_long() == 0
    if has("typeofsite"):
        k = [t for nm, t, t0 in cnt if z(t0)]
        return out + types_(c, l.ex.mem) + [("one type per site", z3.And(ty[("len",)] == k[0], k[0] <= NSITES))] if k else out
    if has("sftypeatkq"):
        k = [t for nm, t, t0 in cnt]
        return out + types_(c, l.ex.mem, k[0]) + [("from qmin", z3.And(k[0] >= qlo(c), [t0 for nm, t, t0 in cnt][0] == qlo(c)))] if k else out
    ints = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if r.startswith("%") and p == ("el",) and l.ex.mem[r][p].sort() == AI]
    tya, sfa = ty[("el",)], sf[("el", "el")]
    if ints:
        k = [t for nm, t, t0 in cnt if z(t0)]
        if not k:
            return []
        c.ex.assume(z3.ForAll([t_], MS(tya, 0, t_) == 0))
        c.ex.assume(z3.Implies(k[0] >= 0, mstep(tya, k[0])))
        c.ex.assume(z3.Implies(k[0] >= 1, mstep(tya, k[0] - 1)))
        return [("sites", z3.And(0 <= k[0], k[0] <= NSITES)), ("multiplicities so far", z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < sf[("len",)]), z3.Select(ints[0], t_) == MS(tya, k[0], t_))))]
    if has("sfaverageatkq"):
        k = [t for nm, t, t0 in cnt if z(t0)]
        inner = not k
        t = k[0] if k else outercount(l)
        if t is None:
            return []
        c.ex.assume(z3.ForAll([k_], AV(sfa, tya, 0, k_) == 0))
        c.ex.assume(z3.Implies(t >= 0, avstep(sfa, tya, t)))
        c.ex.assume(z3.Implies(t >= 1, avstep(sfa, tya, t - 1)))
        q = cnt[0][1]
        sofar = lambda k: AV(sfa, tya, t, k) if not inner else z3.If(k < q, AV(sfa, tya, t + 1, k), AV(sfa, tya, t, k))
        return ([("from qmin", z3.And(q >= qlo(c), cnt[0][2] == qlo(c)))] if inner else []) + [("length", av[("len",)] == n), ("types", z3.And(0 <= t, t <= sf[("len",)])), ("sums so far", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.Select(av[("el",)], k_) == z3.If(grid(c, k_), sofar(k_), 0))))]
    return []


def csd_post(c):
    ty, sf, av = dcache(c)
    tya, sfa = ty[("el",)], sf[("el", "el")]
    return DCACHED(c) + [("a type for every site", ty[("len",)] == NSITES), ("the factor of every site at every point from qmin", factors(c, NSITES)),
                         ("total occupancy", c.t(c.m("totaloccupancy", c.lv("mstructure_cache"))) == TOT),
                         ("sum of the factors by types, over the total occupancy", z3.ForAll([k_], z3.Implies(grid(c, k_), z3.Select(av[("el",)], k_) == AV(sfa, tya, sf[("len",)], k_) * z3.If(TOT > G8.rv(2.0 ** -26), 1 / TOT, 1))))]


CSD = Spec(DS + "cacheStructureData", use=[DQMAX, DQMIN, SFAT, COUNTS] + SAS, pre=lambda c: DRANGE(c) + [("sites", NSITES >= 0), ("structure", c.t("mstructure") != 0)],
            frame=lambda c: [c.lv("mstructure_cache")], post=csd_post, loops=csd_loop, T=20)
SPECS += [CSD]
RESET = Spec(DS + "resetValue", use=[CSD, DQMAX, PQRESIZE, PQRESET], pre=lambda c: CSD.pre(c), frame=lambda c: [c.lv("mstructure_cache"), c.lv("mvalue"), c.lv("mmergedvaluescount")],
             post=lambda c: DVAL(c) + [("all zero", fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el(c.m("mvalue"), k_) == 0))), ("the factor of every site at every point from qmin", factors(c, NSITES))])
LOOKUP = z3.Function("factor_in_table", IS, RS, RS)
LKC = Custom(N + "ScatteringFactorTable::lookup", lambda ex, call: ex.vR(LOOKUP(ex.t(call.args[0]), ex.t(call.args[1]))), name="ScatteringFactorTable::lookup", trusted="C13")
SPECS += [RESET, Spec(DS + "sfSiteAtQ", frame=lambda c: [], noexcept=True, post=lambda c: [("unit factors", c.rt == 1)]),
          Spec(DP + "sfSiteAtQ", use=SAS + [LKC], pre=lambda c: [("objects are set", z3.And(c.t("mstructure") != 0, c.t("msftable") != 0))], frame=lambda c: [],
               post=lambda c: [("tabulated factor times occupancy", c.rt == LOOKUP(TYP(c.at(0)), c.at(1)) * OCC(c.at(0)))])]
MSD = z3.Real("msd")
SPECS += [Spec(N + "DebyeWallerPeakWidth::calculate", use=[Custom(G + "msd", lambda ex, call: ex.vR(MSD), name="BaseBondGenerator::msd", trusted="C04")], frame=lambda c: [],
               post=lambda c: [("width of the relative displacement, none when it is negative", c.rt == z3.If(MSD < 0, 0, 2 * UF["sqrt"](2 * rv(math.log(2))) * UF["sqrt"](MSD)))])]
LO, HI = z3.Reals("rcalclo rcalchi")
RC = [Custom(DP + f, lambda ex, call, t=t: ex.vR(t), name="DebyePDFCalculator::" + f, trusted="C08") for f, t in (("rcalclo", LO), ("rcalchi", HI))]
BSET = [Assumed(G + f, name="BaseBondGenerator::" + f) for f in ("setRmin", "setRmax")]


def cfg_post(c):
    lo, hi = ([x.at(0) for x in c.calls("BaseBondGenerator::" + f)] for f in ("setRmin", "setRmax"))
    return [("pairs from the start of the extended range", z3.BoolVal(False) if not lo else lo[-1] == LO), ("pairs to its end", z3.BoolVal(False) if not hi else hi[-1] == HI)]


SPECS += [Spec(DP + "configureBondGenerator", use=RC + BSET, frame=lambda c: [], post=cfg_post)]
