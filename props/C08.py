"""Grid arithmetic of PDFCalculator, DebyePDFCalculator and BaseDebyeSum: every index that is computed, every length that is returned,
every point that is written."""
import math
from fractions import Fraction
from dv.contract import *
import z3
from dv.models import UF
from dv.core import PyPtr
ID = "C08"
LEVEL = "proof"
TUS = ["srreal/PDFCalculator.cpp", "srreal/BaseDebyeSum.cpp", "srreal/DebyePDFCalculator.cpp", "srreal/PDFEnvelope.cpp", "srreal/PDFUtils.cpp", "srreal/PairQuantity.cpp", "srreal/PeakWidthModel.cpp",
       "srreal/ScatteringFactorTable.cpp"]
HARNESS = "C08.cpp"
BOUNDED = ["values produced by the Fourier transformations", "round-off of the grid points for steps that are not binary fractions"]
ASSUMPTIONS = ["real arithmetic for double, mathematical integers for int",
               "the padded length used by fftgtof and by getQstep is one function N(n) >= n of the number of points (2^ceil(log2 n))",
               "results are read in the configuration they were evaluated for (limits cached, value() sized by resetValue)",
               "the step exceeds sqrt(DBL_EPSILON), which setRstep / setQstep ensure (C09)",
               "site indices of the generated bonds are below the number of sites (C03/C04)"]
N = "diffpy::srreal::"
PC = N + "PDFCalculator::"
DS = N + "BaseDebyeSum::"
DP = N + "DebyePDFCalculator::"
tr = z3.ToReal


def rv(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


PI = rv(math.pi)
EPS = rv((math.sqrt(2.0 ** -52) + 1.0) - 1.0)
DMAX = rv(1.7976931348623157e308)
IS, RS = z3.IntSort(), z3.RealSort()
NPAD = z3.Function("NPAD", IS, IS)
k_ = z3.Int("k?")


def fa(f, *pats):
    return z3.ForAll([k_], f)


def D(c):
    """object behind the first (pointer) argument"""
    v = c.a(0)
    p = v.lv[()]
    return p.lv if isinstance(p, PyPtr) else LV("$heap", (("i", p),), c.ex.st.of(v.shape.to))


def nonnull(c):
    p = c.a(0).lv[()]
    return z3.BoolVal(True) if isinstance(p, PyPtr) else p != 0


def isceil(k, x):
    """k is the smallest integer not below x"""
    return z3.And(tr(k) - 1 < x, x <= tr(k))


def rminsteps(k, r, s):
    return isceil(k, (r - EPS) / s)


def rmaxsteps(k, r, s):
    return isceil(k, r / s)


# ------------------------------------------------------------------ pdfutils
def lo_post(c):
    r, s, k = c.at(0), c.at(1), c.r.t
    return [("first multiple of the step that is not below the limit", rminsteps(k, r, s)),
            ("the point is not below the limit", tr(k) * s >= r - EPS),
            ("no earlier point is in the range", (tr(k) - 1) * s < r - EPS)]


def hi_post(c):
    r, s, k = c.at(0), c.at(1), c.r.t
    return [("first multiple of the step at or above the limit", rmaxsteps(k, r, s)),
            ("the limit is reached", tr(k) * s >= r), ("and not overshot", (tr(k) - 1) * s < r)]


spos = lambda c: [("step exceeds the tolerance", c.at(1) > EPS)]
RMIN2 = Spec(N + "pdfutils_rminSteps", params=["const double &", "const double &"], pre=spos, post=lo_post, frame=lambda c: [], name="pdfutils_rminSteps(rmin,rstep)")
RMAX2 = Spec(N + "pdfutils_rmaxSteps", params=["const double &", "const double &"], pre=spos, post=hi_post, frame=lambda c: [], name="pdfutils_rmaxSteps(rmax,rstep)")


def ql_post(c):
    return [("no step, no points", z3.Implies(c.at(1) <= 0, c.r.t == 0)),
            ("first multiple of the step that is not below the limit", z3.Implies(c.at(1) > EPS, rminsteps(c.r.t, c.at(0), c.at(1))))]


QMIN2 = Spec(N + "pdfutils_qminSteps", params=["const double &", "const double &"], post=ql_post, frame=lambda c: [], name="pdfutils_qminSteps(qmin,qstep)")
CLS = {"PDFCalculator": ("mrmin", "mrmax", "mrstep"), "DebyePDFCalculator": ("mrmin", "mrmax", "mrstep")}


def fld(c, base, n):
    return c.ex.load(c.m(n, base)).lv[()]


def lim_pre(c):
    return [("object", nonnull(c)), ("step exceeds the tolerance", fld(c, D(c), "mrstep") > EPS)]


def mk(cls):
    p = ["const diffpy::srreal::%s *" % cls]
    lo = Spec(N + "pdfutils_rminSteps", params=p, pre=lim_pre, use=[RMIN2], frame=lambda c: [], name="pdfutils_rminSteps(%s)" % cls,
              post=lambda c: [("index of the first point at or above rmin", rminsteps(c.r.t, fld(c, D(c), "mrmin"), fld(c, D(c), "mrstep"))),
                              ("nonnegative", z3.Implies(fld(c, D(c), "mrmin") >= 0, c.r.t >= 0))])
    hi = Spec(N + "pdfutils_rmaxSteps", params=p, pre=lim_pre, use=[RMAX2], frame=lambda c: [], name="pdfutils_rmaxSteps(%s)" % cls,
              post=lambda c: [("index after the last point below rmax", rmaxsteps(c.r.t, fld(c, D(c), "mrmax"), fld(c, D(c), "mrstep")))])
    return lo, hi


PLO, PHI = mk("PDFCalculator")
DLO, DHI = mk("DebyePDFCalculator")
def ggrid_post(c):
    b = D(c)
    dr = fld(c, b, "mrstep")
    lo, hi = STEPS(c)
    n = c.len(c.r)
    return [("as many points as there are multiples of the step in the range", n == z3.If(hi > lo, hi - lo, z3.IntVal(0))),
            ("every point is the multiple of the step that belongs there", fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.r, k_) == tr(lo + k_) * dr)))]


RLO, RHI = z3.Function("RLO", RS, RS, IS), z3.Function("RHI", RS, RS, IS)    # the unique first / end index of a range


def defsteps(rmin, rmax, dr):
    return [z3.Implies(dr > EPS, z3.And(rminsteps(RLO(rmin, dr), rmin, dr), rmaxsteps(RHI(rmax, dr), rmax, dr)))]


def STEPS(c, b=None):
    b = b or D(c)
    dr, rmin, rmax = [fld(c, b, x) for x in ("mrstep", "mrmin", "mrmax")]
    for f in defsteps(rmin, rmax, dr):
        c.ex.assume(f)
    return RLO(rmin, dr), RHI(rmax, dr)


def with_index(s, which):
    """callee contract restated with the index functions (the smallest integer not below x is unique)"""
    base = s.post

    def post(c):
        lo, hi = STEPS(c)
        return base(c) + [("the index", c.r.t == (lo if which == "lo" else hi))]
    s.post = post
    return s


for s_, w_ in ((PLO, "lo"), (PHI, "hi"), (DLO, "lo"), (DHI, "hi")):
    with_index(s_, w_)


def lseq(l):
    """elements and length of the local sequence that the loop fills"""
    for r, p in sorted(l.mods, key=repr):
        if r.startswith("%") and p and p[-1] == "len":
            m = l.ex.mem[r]
            return m[p[:-1] + ("el",)], m[p]
    raise Unsupported("the loop fills no local sequence")


def lcnt(l):
    """current values of the integer locals that the loop counts"""
    return [t for nm, t, t0 in l.counters() if nm.startswith("%") and not nm.endswith("len")]


def ggrid_loops(c, l):
    b = D(c)
    lo, hi = STEPS(c)
    dr = fld(c, b, "mrstep")
    ge, n = lseq(l)
    k = lcnt(l)[0]
    return [("one point per step", n == k - lo), ("not beyond the end", z3.Or(k <= hi, k == lo)), ("k", k >= lo),
            ("points so far", fa(z3.Implies(z3.And(0 <= k_, k_ < n), z3.Select(ge, k_) == tr(lo + k_) * dr)))]


def mkgrid(cls, lo, hi):
    return Spec(N + "pdfutils_getRgrid", params=["const diffpy::srreal::%s *" % cls], pre=lim_pre, use=[lo, hi], post=ggrid_post,
                loops=ggrid_loops, frame=lambda c: [], name="pdfutils_getRgrid(%s)" % cls, autoinv=False)


PGRID, DGRID = mkgrid("PDFCalculator", PLO, PHI), mkgrid("DebyePDFCalculator", DLO, DHI)


SPECS = [RMIN2, RMAX2, QMIN2, PLO, PHI, DLO, DHI, PGRID, DGRID]


# ------------------------------------------------------------------ PDFCalculator: limits
def cache(c, old=False):
    b = c.lv("mrlimits_cache")
    return [(c.ex.read(c.m(x, b), c.pre) if old else c.ex.load(c.m(x, b))).t for x in ("rcalclosteps", "extendedrminsteps", "extendedrmaxsteps", "rcalchisteps")]


def LIM(c):
    """what the cached limits satisfy"""
    lo, elo, ehi, hi = cache(c)
    for f in defsteps(c.t("mrmin"), c.t("mrmax"), c.t("mrstep")):
        c.ex.assume(f)
    rlo, rhi = RLO(c.t("mrmin"), c.t("mrstep")), RHI(c.t("mrmax"), c.t("mrstep"))
    return [("limits are in order", z3.And(0 <= lo, lo <= elo, elo <= ehi, ehi <= hi)),
            ("no points for an empty range", z3.Implies(rlo >= rhi, z3.And(lo == 0, hi == 0))),
            ("the calculated points cover the range", z3.Implies(rlo < rhi, z3.And(elo <= rlo, rhi <= ehi)))]


def STEP(c):
    return [("step exceeds the tolerance", c.t("mrstep") > EPS)]


def RANGE(c):
    return STEP(c) + [("limits not negative", z3.And(c.t("mrmin") >= 0, c.t("mrmax") >= 0, c.t("mqmin") >= 0, c.t("mqmax") > 0, c.t("mmaxextension") >= 0))]


def size_is(c, n, x=None):
    return c.len(x if x is not None else c.r) == n


def getter(name, m):
    return Spec(PC + name, post=lambda c: [("the cached limit", c.r.t == cache(c)[m])], frame=lambda c: [])


GET = [getter("rcalcloSteps", 0), getter("extendedRminSteps", 1), getter("extendedRmaxSteps", 2), getter("rcalchiSteps", 3)]
QMAXOF = lambda c: z3.If(PI / c.t("mrstep") < c.t("mqmax"), PI / c.t("mrstep"), c.t("mqmax"))
PQMAX = Spec(PC + "getQmax", pre=STEP, frame=lambda c: [],
             post=lambda c: [("no higher than what the step resolves", c.rt == QMAXOF(c)), ("positive when the limit is", z3.Implies(c.t("mqmax") > 0, c.rt > 0))])
PQSTEP = Assumed(PC + "getQstep", name="PDFCalculator::getQstep (padding as in fftgtof, 2^ceil(log2 n) >= n)", frame=lambda c: [], post=lambda c: qstep_post(c))


def qstep_post(c):
    n = cache(c)[2]
    return [("", NPAD(n) >= n), ("", z3.Implies(n > 0, NPAD(n) > 0)), ("", c.rt == z3.If(n > 0, PI / (tr(NPAD(n)) * c.t("mrstep")), 0)),
            ("", z3.Implies(n > 0, z3.And(c.rt > 0, tr(NPAD(n)) * c.rt * c.t("mrstep") == PI, PI / c.t("mrstep") == tr(NPAD(n)) * c.rt)))]


CNT = [Spec(PC + "countExtendedPoints", use=GET, pre=LIM, frame=lambda c: [], post=lambda c: [("points between the extended limits", c.r.t == cache(c)[2] - cache(c)[1]), ("not negative", c.r.t >= 0)]),
       Spec(PC + "countCalcPoints", use=GET, pre=LIM, frame=lambda c: [], post=lambda c: [("points between the calculation limits", c.r.t == cache(c)[3] - cache(c)[0]), ("not negative", c.r.t >= 0)])]
nonneg = lambda c: [("not negative", c.rt >= 0)]
MAXW = Assumed(N + "PeakWidthModel::maxWidth", name="PeakWidthModel::maxWidth (C14)")
XLO = Assumed(N + "PeakProfile::xboundlo", name="PeakProfile::xboundlo (C14)")
XHI = Assumed(N + "PeakProfile::xboundhi", name="PeakProfile::xboundhi (C14)")


def objects(c):
    return [("a peak width model", c.t("mpwmodel") != 0), ("a peak profile", c.t("mpeakprofile") != 0), ("a structure", c.t("mstructure") != 0), ("a baseline", c.t("mbaseline") != 0)]


RIP = Spec(PC + "extFromTerminationRipples", use=[PQMAX], pre=RANGE, post=nonneg, frame=lambda c: [])
TAIL = Spec(PC + "extFromPeakTails", use=[MAXW, XLO, XHI], pre=lambda c: RANGE(c) + objects(c), post=nonneg, frame=lambda c: [])


def clim_post(c):
    lo, elo, ehi, hi = cache(c)
    r0, r1, s = c.t("mrmin"), c.t("mrmax"), c.t("mrstep")
    STEPS(c, c.this)
    rlo, rhi = RLO(r0, s), RHI(r1, s)
    return LIM(c) + [("the calculated range is extended by no more than allowed", z3.Implies(rlo < rhi, z3.And(
        tr(hi) * s < r1 + c.t("mmaxextension") + s, z3.Or(lo == 0, tr(lo) * s >= r0 - c.t("mmaxextension") - EPS))))]


PCACHE = Spec(PC + "cacheRlimitsData", use=[RMIN2, RMAX2, PLO, PHI, RIP, TAIL], pre=lambda c: RANGE(c) + objects(c), post=clim_post,
              frame=lambda c: [c.lv("mrlimits_cache")])
SPECS += GET + [PQMAX] + CNT + [RIP, TAIL, PCACHE]


# ------------------------------------------------------------------ PDFCalculator: value and results
def vlen(c):
    return c.len(c.m("mvalue"))


def HASVAL(c):
    return LIM(c) + [("the value covers the calculated points", vlen(c) == cache(c)[3] - cache(c)[0])]


CSD = Assumed(PC + "cacheStructureData", name="PDFCalculator::cacheStructureData (C12)", frame=lambda c: [c.lv("mstructure_cache")])
PQRESET = Spec(N + "PairQuantity::resetValue", frame=lambda c: [c.lv("mvalue"), c.lv("mmergedvaluescount")],
               post=lambda c: [("same length", vlen(c) == c.olen(c.m("mvalue"))), ("all zero", fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el(c.m("mvalue"), k_) == 0))),
                               ("nothing merged", c.t("mmergedvaluescount") == 0)])
PQRESIZE = Spec(N + "PairQuantity::resizeValue", pre=lambda c: [("not negative", c.at(0) >= 0)], frame=lambda c: [c.lv("mvalue")], post=lambda c: [("length", vlen(c) == c.at(0))])
BLTYPE = Assumed("diffpy::HasClassRegistry*", name="PDFBaseline::type")
SETATTR = Custom("diffpy::attributes::Attributes::setDoubleAttr", lambda ex, call: V(VOID, {}), trusted="C18", name="Attributes::setDoubleAttr")
NDENS = Assumed(N + "StructureAdapter::numberDensity", name="StructureAdapter::numberDensity (C07)")
zeros = lambda c: [("the value covers the calculated points", vlen(c) == cache(c)[3] - cache(c)[0]), ("all zero", fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el(c.m("mvalue"), k_) == 0)))]
PRESET = Spec(PC + "resetValue", use=[CSD, PCACHE, CNT[1], PQRESET, PQRESIZE, BLTYPE, SETATTR, NDENS], pre=lambda c: RANGE(c) + objects(c), post=lambda c: LIM(c) + zeros(c))
CALCIDX = Spec(PC + "calcIndex", use=GET, pre=STEP, frame=lambda c: [],
               post=lambda c: [("grid interval of the position", z3.And(tr(c.r.t + cache(c)[0]) <= c.at(0) / c.t("mrstep"), c.at(0) / c.t("mrstep") < tr(c.r.t + cache(c)[0]) + 1))])

# the bond and its peak are whatever the generator and the models say
DIST, FW, XL, XH = z3.Reals("dist fwhm xboundlo xboundhi")
S0, S1, MULT = z3.Ints("site0 site1 multiplicity")
PK = z3.Function("profile", RS, RS, RS)
G = N + "BaseBondGenerator::"


def const(qn, t, real=True):
    return Custom(qn, lambda ex, call: V(R if real else I, {(): t}), trusted="the bond", name=qn.replace(N, ""))


BOND = [const(G + "distance", DIST), const(G + "site0", S0, False), const(G + "site1", S1, False), const(G + "multiplicity", MULT, False),
        const(N + "PeakWidthModel::calculate", FW), const(N + "PeakProfile::xboundlo", XL), const(N + "PeakProfile::xboundhi", XH),
        Custom(N + "PeakProfile::operator()", lambda ex, call: V(R, {(): PK(ex.t(call.args[0]), ex.t(call.args[1]))}), trusted="C14", name="PeakProfile::operator()")]
SFS = Spec(PC + "sfSite", frame=lambda c: [], pre=lambda c: [("site exists", z3.And(0 <= c.at(0), c.at(0) < c.len(c.m("sfsite", c.lv("mstructure_cache")))))],
           post=lambda c: [("cached scattering factor", c.rt == c.el(c.m("sfsite", c.lv("mstructure_cache")), c.at(0)))])


def sites(c):
    n = c.len(c.m("sfsite", c.lv("mstructure_cache")))
    return [("sites of the bond", z3.And(0 <= S0, S0 < n, 0 <= S1, S1 < n)), ("apart", DIST > EPS), ("profile bounds in order", XL <= XH)]


def contrib(c, j):
    sf = lambda i: c.el(c.m("sfsite", c.lv("mstructure_cache")), i)
    x = tr(cache(c)[0] + j) * c.t("mrstep") - DIST
    return sf(S0) * sf(S1) * tr(MULT) * tr(c.at(1)) * (PK(x, FW) * (x / DIST + 1))


def apc_post(c):
    new, old = c.el(c.m("mvalue"), k_), c.el(c.m("mvalue"), k_, True)
    n = vlen(c)
    x = tr(cache(c)[0] + k_) * c.t("mrstep") - DIST
    inr = z3.And(0 <= k_, k_ < n)
    return [("same length", n == c.olen(c.m("mvalue"))),
            ("every grid point within the peak gets the contribution of its own position", fa(z3.Implies(z3.And(inr, x >= XL, x <= XH), new == old + contrib(c, k_)))),
            ("other points are left alone or get the value of the peak there", fa(z3.Implies(inr, z3.Or(new == old, new == old + contrib(c, k_)))))]


def apc_loop(c, l):
    lv = c.m("mvalue")
    i, = lcnt(l)
    i0 = l.counters()[0][2]
    i0 = [t0 for nm, t, t0 in l.counters() if nm.startswith("%")][0]
    return [("from the start", z3.And(i >= i0)), ("same length", vlen(c) == c.olen(lv)),
            ("points done", fa(c.el(lv, k_) == z3.If(z3.And(i0 <= k_, k_ < i), c.el(lv, k_, True) + contrib(c, k_), c.el(lv, k_, True))))]


APC = Spec(PC + "addPairContribution", use=GET + CNT + BOND + [CALCIDX, SFS], pre=lambda c: STEP(c) + objects(c) + HASVAL(c) + sites(c), post=apc_post, loops=apc_loop, autoinv=False,
           frame=lambda c: [c.lv("mvalue")])

SPECS += [PQRESET, PQRESIZE, PRESET, CALCIDX, SFS, APC]
SFA = Spec(PC + "sfAverage", frame=lambda c: [], post=lambda c: [("cached average", c.rt == c.t(c.m("sfaverage", c.lv("mstructure_cache"))))])


def lel(l):
    """elements (now, at loop entry, length) of the local sequence that the loop writes"""
    for r, p in sorted(l.mods, key=repr):
        if r.startswith("%") and p and p[-1] == "el":
            return l.ex.mem[r][p], l.pre[r][p], l.ex.mem[r][p[:-1] + ("len",)]
    raise Unsupported("the loop writes no local sequence")


def pointwise(f, extra=None):
    """loop that replaces the elements of a local sequence one after another; f(c, old element, k)"""
    def inv(c, l):
        e, e0, n = lel(l)
        i = [t for nm, t, t0 in l.counters() if z3.is_int_value(z3.simplify(t0)) and z3.simplify(t0).as_long() == 0][0]
        same = [("iterators in step", t - t0 == i) for nm, t, t0 in l.counters() if nm.startswith("%")]
        return same + [("position", z3.And(0 <= i, i <= n)),
                ("elements so far", fa(z3.Select(e, k_) == z3.If(z3.And(0 <= k_, k_ < i), f(c, z3.Select(e0, k_), k_), z3.Select(e0, k_))))]
    return inv

VAL = [CNT[0], CNT[1], SFA] + GET


def XGRID(c, x, n=None):
    lo, elo, ehi, hi = cache(c)
    return [("one point per step", c.len(x) == ehi - elo), ("multiples of the step", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(x)), c.el(x, k_) == tr(elo + k_) * c.t("mrstep"))))]


def xg_loop(c, l):
    ge, n = lseq(l)
    k = lcnt(l)[0]
    lo, elo, ehi, hi = cache(c)
    return [("one point per step", z3.And(n == k - elo, n >= 0, n <= ehi - elo)), ("points so far", fa(z3.Implies(z3.And(0 <= k_, k_ < n), z3.Select(ge, k_) == tr(elo + k_) * c.t("mrstep"))))]


XMIN = Spec(PC + "getExtendedRmin", use=GET, frame=lambda c: [], post=lambda c: [("position of the first point", c.rt == tr(cache(c)[1]) * c.t("mrstep"))])
XMAX = Spec(PC + "getExtendedRmax", use=GET, frame=lambda c: [], post=lambda c: [("position after the last point", c.rt == tr(cache(c)[2]) * c.t("mrstep"))])
GX = Spec(PC + "getExtendedRgrid", use=GET + [CNT[0], XMIN, XMAX], pre=lambda c: STEP(c) + LIM(c), frame=lambda c: [], post=lambda c: XGRID(c, c.r), loops=xg_loop, autoinv=False)


def rdfscale(c):
    t, f = c.t(c.m("totaloccupancy", c.lv("mstructure_cache"))), c.t(c.m("sfaverage", c.lv("mstructure_cache")))
    return z3.If(t * f == 0, z3.RealVal(0), 1 / (t * f * f))


def rdfat(c, j):
    lo, elo, ehi, hi = cache(c)
    return c.el(c.m("mvalue"), elo - lo + j) * rdfscale(c)


XRDF = Spec(PC + "getExtendedRDF", use=VAL, autoinv=False, loops=pointwise(lambda c, old, k: rdfat(c, k)), pre=HASVAL, frame=lambda c: [],
            post=lambda c: [("length of the extended grid", size_is(c, cache(c)[2] - cache(c)[1])),
                            ("every value is of its own grid point", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == rdfat(c, k_))))])
SPECS += [SFA, XMIN, XMAX, GX, XRDF]


def overr(c, v, k):
    r = tr(cache(c)[1] + k) * c.t("mrstep")
    return z3.If(r > EPS, v / r, z3.RealVal(0))


XN = lambda c: size_is(c, cache(c)[2] - cache(c)[1])
XRPR = Spec(PC + "getExtendedRDFperR", use=[XRDF, GX], pre=lambda c: STEP(c) + HASVAL(c), frame=lambda c: [], autoinv=False, loops=pointwise(lambda c, old, k: overr(c, rdfat(c, k), k)),
            post=lambda c: [("length of the extended grid", XN(c)), ("divided by the position of the point", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == overr(c, rdfat(c, k_), k_))))])
BLV = z3.Function("baseline", RS, RS)
BL = Custom(N + "PDFBaseline::operator()", lambda ex, call: V(R, {(): BLV(ex.t(call.args[0]))}), trusted="C14", name="PDFBaseline::operator()")
ABL = Spec(PC + "applyBaseline", use=[BL], pre=lambda c: [("same length", c.len(c.a(0)) == c.len(c.a(1)))] + objects(c), frame=lambda c: [], autoinv=False,
           loops=pointwise(lambda c, old, k: c.el(c.a(1), k) + BLV(c.el(c.a(0), k))),
           post=lambda c: [("same length", size_is(c, c.len(c.a(1)))), ("the baseline of its own position is added",
                           fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == c.el(c.a(1), k_) + BLV(c.el(c.a(0), k_)))))])
ENVV = z3.Function("envelope", RS, RS)
ENV = Assumed(N + "PDFEnvelope::operator()", name="PDFEnvelope::operator() (C14)")


def envs(c):
    m = c.v("menvelope")
    d, v = m.lv[("dom",)], m.lv[("val",)]
    q = z3.Const("name?", d.sort().domain())
    return [("envelopes exist", z3.ForAll([q], z3.Implies(z3.Select(d, q), z3.Select(v, q) != 0)))]


AENV = Spec(N + "PDFEnvelopeOwner::applyEnvelopes", use=[ENV], pre=lambda c: [("same length", c.len(c.a(0)) == c.len(c.a(1)))] + envs(c), frame=lambda c: [],
            post=lambda c: [("same length", size_is(c, c.len(c.a(1))))])
FFT = Assumed(N + "fftgtof", name="fftgtof (padded length)", frame=lambda c: [], post=lambda c: [
    ("", z3.If(c.len(c.a(0)) == 0, c.len(c.r) == 0, c.len(c.r) == NPAD(fround(c, c.at(2) / c.at(1)) + c.len(c.a(0)))))])
FFG = Assumed(N + "fftftog", name="fftftog (padded length)", frame=lambda c: [], post=lambda c: [
    ("", z3.If(c.len(c.a(0)) == 0, c.len(c.r) == 0, c.len(c.r) == NPAD(fround(c, c.at(2) / c.at(1)) + c.len(c.a(0))))),
    ("", z3.ForAll([k_], NPAD(NPAD(k_)) == NPAD(k_))),
    ("", z3.Implies(c.len(c.a(0)) > 0, z3.And(c.len(c.r) >= c.len(c.a(0)), c.len(c.r) >= 1)))])


def fround(c, x):
    return c.ex.floor(x + rv(0.5))


XF = Spec(PC + "getExtendedF", use=[XRPR, GX, ABL, XMIN, FFT, PQSTEP], pre=lambda c: STEP(c) + HASVAL(c) + objects(c), frame=lambda c: [],
          post=lambda c: [("padded length", z3.Implies(cache(c)[2] > cache(c)[1], c.len(c.r) == NPAD(cache(c)[2]))), ("nothing for an empty range", z3.Implies(cache(c)[2] == cache(c)[1], c.len(c.r) == 0))])


def qmax_post(c):
    return [("first multiple of the step at or above the limit", c.r.t >= 0)]


CUT = Spec(PC + "cutRipplePoints", use=[PLO, PHI] + GET, pre=lambda c: STEP(c) + LIM(c) + [("a result on the extended grid", z3.Or(c.len(0) == 0, c.len(0) == cache(c)[2] - cache(c)[1]))],
           frame=lambda c: [c.lv(0)], post=lambda c: cut_post(c))


def cut_post(c):
    lo, hi = STEPS(c, c.this)
    n, e = c.len(0), cache(c)[1]
    was = c.olen(0)
    return [("length of the requested grid", z3.Implies(was > 0, z3.And(hi > lo, n == hi - lo))),
            ("empty stays empty", z3.Implies(was == 0, n == 0)),
            ("every value stays at its own grid point", fa(z3.Implies(z3.And(hi > lo, was > 0, 0 <= k_, k_ < n), c.el(0, k_) == c.el(0, lo - e + k_, True))))]


SPECS += [XRPR, ABL, AENV, XF, CUT]


def whole(c):
    return STEP(c) + HASVAL(c) + objects(c)


def RN(c):
    """length of the requested grid"""
    lo, hi = STEPS(c, c.this)
    return z3.If(hi > lo, hi - lo, z3.IntVal(0))


def RRDF(c, per_r):
    lo, hi = STEPS(c, c.this)
    e = cache(c)[1]
    f = lambda k: overr(c, rdfat(c, k), k) if per_r else rdfat(c, k)
    return [("length of the requested grid", size_is(c, RN(c))),
            ("every value is of its own grid point", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == f(lo - e + k_))))]


GRDF = Spec(PC + "getRDF", use=[XRDF, CUT], pre=lambda c: STEP(c) + HASVAL(c), frame=lambda c: [], post=lambda c: RRDF(c, False))
GRPR = Spec(PC + "getRDFperR", use=[XRPR, CUT], pre=lambda c: STEP(c) + HASVAL(c), frame=lambda c: [], post=lambda c: RRDF(c, True))


def pq_pre(c):
    n = cache(c)[2]
    return STEP(c) + LIM(c) + [("limits not negative", z3.And(c.t("mqmin") >= 0, c.t("mqmax") > 0)),
                               ("the Q step exceeds the tolerance", z3.Implies(n > 0, PI / (tr(NPAD(n)) * c.t("mrstep")) > EPS))]


def qs(b, c):
    n = cache(c)[2]
    return n, PI / (tr(NPAD(n)) * c.t("mrstep"))


def on(c):
    return Ctx(c.ex, c.fn, D(c), c.args, c.pre)


def pqmax_post(c):
    b = on(c)
    n, q = qs(None, b)
    return [("no points without a range", z3.Implies(n <= 0, c.r.t == 0)),
            ("first multiple of the step at or above the limit", z3.Implies(n > 0, isceil(c.r.t, QMAXOF(b) / q))),
            ("not more than the transformed function has", z3.Implies(n > 0, z3.And(c.r.t <= NPAD(n), c.r.t >= 0)))]


def pqmin_post(c):
    return [("not negative", c.r.t >= 0)]


onpre = lambda c: [("object", nonnull(c))] + pq_pre(on(c))
PQMAXS = Spec(N + "pdfutils_qmaxSteps", params=["const diffpy::srreal::PDFCalculator *"], use=[PQMAX, PQSTEP], pre=onpre, post=pqmax_post, frame=lambda c: [], name="pdfutils_qmaxSteps(PDFCalculator)")
PQMINS = Spec(N + "pdfutils_qminSteps", params=["const diffpy::srreal::PDFCalculator *"], use=[QMIN2, PQSTEP], pre=onpre, post=pqmin_post, frame=lambda c: [], name="pdfutils_qminSteps(PDFCalculator)")


def qlen(c):
    n = cache(c)[2]
    return z3.If(n > 0, c.len(c.r), 0)


def gf_post(c):
    n, q = qs(None, c)
    return [("as many values as points of the Q grid", z3.If(n > 0, isceil(c.len(c.r), QMAXOF(c) / q), c.len(c.r) == 0))]


qpre = lambda c: whole(c) + pq_pre(c)
GF = Spec(PC + "getF", use=[XF, PQMAXS], pre=qpre, frame=lambda c: [], post=gf_post)


def qg_post(c):
    b = on(c)
    n, q = qs(None, b)
    return [("as many points as multiples of the step below the limit", z3.If(n > 0, isceil(c.len(c.r), QMAXOF(b) / q), c.len(c.r) == 0)),
            ("multiples of the step", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == tr(k_) * q)))]


def qg_loop(c, l):
    b = on(c)
    n, q = qs(None, b)
    ge, m = lseq(l)
    k = lcnt(l)[0]
    return [("one point per step", z3.And(m == k, m >= 0)), ("points so far", fa(z3.Implies(z3.And(0 <= k_, k_ < m), z3.Select(ge, k_) == z3.If(n > 0, tr(k_) * q, 0))))]


QG = Spec(N + "pdfutils_getQgrid", params=["const diffpy::srreal::PDFCalculator *"], use=[PQMAXS, PQSTEP], pre=onpre, post=qg_post, loops=qg_loop, frame=lambda c: [], name="pdfutils_getQgrid(PDFCalculator)")
XPDF = Spec(PC + "getExtendedPDF", use=[GX, PQMAX, PQSTEP, PQMAXS, PQMINS, XRPR, ABL, AENV, XF, FFG] + GET, pre=lambda c: qpre(c) + envs(c), frame=lambda c: [],
            post=lambda c: [("length of the extended grid", XN(c))])
GPDF = Spec(PC + "getPDF", use=[XPDF, CUT], pre=lambda c: qpre(c) + envs(c), frame=lambda c: [], post=lambda c: [("length of the requested grid", size_is(c, RN(c)))])
SPECS += [GRDF, GRPR, PQMAXS, PQMINS, GF, QG, XPDF, GPDF]

# ------------------------------------------------------------------ fast update: stash and restore
def stash(c, old=False):
    b = c.lv("mstashedvalue")
    v = c.m("value", b)
    rd = (lambda x: c.ex.read(x, c.pre)) if old else c.ex.load
    return rd(v), rd(c.m("rclosteps", b)).t


def st_post(c):
    v, r = stash(c)
    return [("same values", z3.And(v.lv[("len",)] == vlen(c), fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), z3.Select(v.lv[("el",)], k_) == c.el(c.m("mvalue"), k_))))),
            ("with their first grid index", r == cache(c)[0])]


VALUE = Spec(N + "PairQuantity::value", frame=lambda c: [], post=lambda c: [])
STASH = Spec(PC + "stashPartialValue", use=GET, frame=lambda c: [c.lv("mstashedvalue")], post=st_post)


def res_post(c):
    v, r = stash(c, True)
    n, sn = vlen(c), v.lv[("len",)]
    j = k_ + cache(c)[0] - r
    return [("same length", n == c.olen(c.m("mvalue"))),
            ("every value returns to its own grid point, other points are left alone", fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.m("mvalue"), k_) ==
             z3.If(z3.And(0 <= j, j < sn), z3.Select(v.lv[("el",)], j), c.el(c.m("mvalue"), k_, True))))),
            ("the stash is empty", stash(c)[0].lv[("len",)] == 0)]


def iters(l):
    """(position, position at the start, container) of the local iterators that the loop moves"""
    out = []
    for r, p in sorted(l.mods, key=repr):
        if r.startswith("%") and p == ("idx",) and r in l.ex.mem:
            cont = l.ex.mem[r].get(("cont",))
            if isinstance(cont, PyPtr) and r in l.pre and p in l.pre[r]:
                out.append((l.ex.mem[r][p], l.pre[r][p], cont.lv))
    return out


def res_loop(c, l):
    v, r = stash(c, True)
    n, sn = vlen(c), v.lv[("len",)]
    its = iters(l)
    if len(its) != 2:
        raise Unsupported("two iterators expected")
    out = [("same length", n == c.olen(c.m("mvalue"))), ("together", its[0][0] - its[0][1] == its[1][0] - its[1][1])]
    out += [("within", z3.And(t >= t0, t <= c.len(lv))) for t, t0, lv in its]
    w, = [(t, t0) for t, t0, lv in its if lv.same(c.m("mvalue"))]
    j = k_ + cache(c)[0] - r
    return out + [("elements so far", fa(c.el(c.m("mvalue"), k_) == z3.If(z3.And(w[1] <= k_, k_ < w[0]), z3.Select(v.lv[("el",)], j), c.el(c.m("mvalue"), k_, True))))]


RESTORE = Spec(PC + "restorePartialValue", use=GET, frame=lambda c: [c.lv("mvalue"), c.m("value", c.lv("mstashedvalue"))], post=res_post, loops=res_loop, autoinv=False)
SPECS += [STASH, RESTORE]


# ------------------------------------------------------------------ BaseDebyeSum
RQ = z3.Function("NQ", RS, RS, IS)


def nq(c, b=None):
    """number of points of the Q grid"""
    qm, dq = [fld(c, b, x) if b is not None else c.t(x) for x in ("mqmax", "mqstep")]
    c.ex.assume(z3.If(dq <= 0, RQ(qm, dq) == 0, isceil(RQ(qm, dq), qm / dq)))
    return RQ(qm, dq)


dsp = ["const diffpy::srreal::BaseDebyeSum *"]
dpre = lambda c: [("object", nonnull(c))]
DQMAX = Spec(N + "pdfutils_qmaxSteps", params=dsp, pre=dpre, frame=lambda c: [], name="pdfutils_qmaxSteps(BaseDebyeSum)",
             post=lambda c: [("first multiple of the step at or above the limit", c.r.t == nq(c, D(c))), ("not negative", z3.Implies(fld(c, D(c), "mqmax") >= 0, c.r.t >= 0))])
DQMIN = Spec(N + "pdfutils_qminSteps", params=dsp, pre=dpre, frame=lambda c: [], use=[QMIN2], name="pdfutils_qminSteps(BaseDebyeSum)",
             post=lambda c: [("not negative", z3.Implies(z3.And(fld(c, D(c), "mqmin") >= 0, fld(c, D(c), "mqstep") > EPS), c.r.t >= 0)),
                             ("first multiple of the step that is not below the limit", z3.Implies(fld(c, D(c), "mqstep") > EPS, rminsteps(c.r.t, fld(c, D(c), "mqmin"), fld(c, D(c), "mqstep"))))])


def dqg_post(c):
    b = D(c)
    n = nq(c, b)
    return [("as many points as multiples of the step below the limit", size_is(c, n)),
            ("multiples of the step", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == tr(k_) * fld(c, b, "mqstep"))))]


def dqg_loop(c, l):
    ge, m = lseq(l)
    k = lcnt(l)[0]
    b = D(c)
    return [("one point per step", z3.And(m == k, m >= 0, m <= nq(c, b))), ("points so far", fa(z3.Implies(z3.And(0 <= k_, k_ < m), z3.Select(ge, k_) == tr(k_) * fld(c, b, "mqstep"))))]


DQG = Spec(N + "pdfutils_getQgrid", params=dsp, use=[DQMAX], pre=lambda c: dpre(c) + [("not negative", fld(c, D(c), "mqmax") >= 0)], post=dqg_post, loops=dqg_loop, autoinv=False,
           frame=lambda c: [], name="pdfutils_getQgrid(BaseDebyeSum)")
DRANGE = lambda c: [("limits", z3.And(c.t("mqmin") >= 0, c.t("mqmax") >= 0, c.t("mqstep") > EPS))]


def dcache(c):
    b = c.lv("mstructure_cache")
    ty, sf, av = [c.v(c.m(x, b)).lv for x in ("typeofsite", "sftypeatkq", "sfaverageatkq")]
    return ty, sf, av


def DCACHED(c):
    """the cached structure data have one scattering factor array per atom type, each as long as the Q grid"""
    ty, sf, av = dcache(c)
    n = nq(c)
    return [("types exist", fa(z3.Implies(z3.And(0 <= k_, k_ < ty[("len",)]), z3.And(0 <= z3.Select(ty[("el",)], k_), z3.Select(ty[("el",)], k_) < sf[("len",)])))),
            ("one factor per point of the Q grid", fa(z3.Implies(z3.And(0 <= k_, k_ < sf[("len",)]), z3.Select(sf[("el", "len")], k_) == n))),
            ("one average per point of the Q grid", av[("len",)] == n)]


DVAL = lambda c: DCACHED(c) + [("one value per point of the Q grid", vlen(c) == nq(c))]
SFQ = Spec(DS + "sfSiteAtkQ", frame=lambda c: [], pre=lambda c: DCACHED(c) + [("site exists", z3.And(0 <= c.at(0), c.at(0) < dcache(c)[0][("len",)])), ("point of the Q grid", z3.And(0 <= c.at(1), c.at(1) < nq(c)))],
           post=lambda c: [("factor of the type of the site", c.rt == sfq(c, c.at(0), c.at(1)))])


def sfq(c, site, k):
    ty, sf, av = dcache(c)
    return z3.Select(z3.Select(sf[("el", "el")], z3.Select(ty[("el",)], site)), k)


SFAQ = Spec(DS + "sfAverageAtkQ", frame=lambda c: [], pre=lambda c: DCACHED(c) + [("point of the Q grid", z3.And(0 <= c.at(0), c.at(0) < nq(c)))],
            post=lambda c: [("average at the point", c.rt == z3.Select(dcache(c)[2][("el",)], c.at(0)))])


def fscale(c, k):
    t = c.t(c.m("totaloccupancy", c.lv("mstructure_cache")))
    a = z3.Select(dcache(c)[2][("el",)], k)
    return z3.If(a * t == 0, z3.RealVal(0), 1 / (a * a * t))


QLO = z3.Function("QLO", RS, RS, IS)


def qlo(c):
    c.ex.assume(z3.Implies(c.t("mqstep") > EPS, rminsteps(QLO(c.t("mqmin"), c.t("mqstep")), c.t("mqmin"), c.t("mqstep"))))
    return QLO(c.t("mqmin"), c.t("mqstep"))


def dgf_at(c, k):
    v = c.el(c.m("mvalue"), k)
    return z3.If(k >= qlo(c), v * fscale(c, k), v)


def dgf_loop(c, l):
    e, e0, n = lel(l)
    k = lcnt(l)[0]
    k0 = [t0 for nm, t, t0 in l.counters() if nm.startswith("%")][0]
    return [("from qmin", z3.And(k >= k0, k0 == qlo(c))), ("elements so far", fa(z3.Select(e, k_) == z3.If(z3.And(k0 <= k_, k_ < k), z3.Select(e0, k_) * fscale(c, k_), z3.Select(e0, k_))))]


DGF = Spec(DS + "getF", use=[DQMAX, DQMIN, SFAQ], pre=lambda c: DRANGE(c) + DVAL(c), frame=lambda c: [], loops=dgf_loop, autoinv=False,
           post=lambda c: [("one value per point of the Q grid", size_is(c, nq(c))), ("scaled by the average at its own Q", fa(z3.Implies(z3.And(0 <= k_, k_ < c.len(c.r)), c.el(c.r, k_) == dgf_at(c, k_))))])
DPREC = Spec(DS + "getDebyePrecision", frame=lambda c: [], post=lambda c: [("precision", c.rt == c.t("mdebyeprecision"))])


def dsites(c):
    n = dcache(c)[0][("len",)]
    return [("sites of the bond", z3.And(0 <= S0, S0 < n, 0 <= S1, S1 < n)), ("a peak width model", c.t("mpwmodel") != 0)]


SINEF = z3.Function("SINEF", RS, RS)


def dterm(c, k):
    q = tr(k) * c.t("mqstep")
    sig = FW / (2 * UF["sqrt"](2 * rv(math.log(2))))
    return None


def dapc_post(c):
    n = vlen(c)
    new, old = c.el(c.m("mvalue"), k_), c.el(c.m("mvalue"), k_, True)
    return [("same length", n == c.olen(c.m("mvalue"))), ("points below qmin and beyond the grid are left alone", fa(z3.Implies(z3.Or(k_ < qlo(c), k_ >= n), new == old))),
            ("nothing for a bond of zero length", z3.Implies(z3.And(DIST <= EPS, DIST >= -EPS), fa(new == old)))]


def dapc_loop(c, l):
    k = lcnt(l)[0]
    k0 = [t0 for nm, t, t0 in l.counters() if nm.startswith("%")][0]
    return [("from qmin", z3.And(k >= k0, k0 == qlo(c), z3.Or(k == k0, k <= vlen(c)))), ("same length", vlen(c) == c.olen(c.m("mvalue"))),
            ("other points", fa(z3.Implies(z3.Or(k_ < k0, k_ >= k), c.el(c.m("mvalue"), k_) == c.el(c.m("mvalue"), k_, True))))]


DAPC = Spec(DS + "addPairContribution", use=[DQMAX, DQMIN, SFQ, DPREC] + BOND, pre=lambda c: DRANGE(c) + DVAL(c) + dsites(c), frame=lambda c: [c.lv("mvalue")], post=dapc_post,
            loops=dapc_loop, autoinv=False)
DRESTORE = Spec(DS + "restorePartialValue", pre=lambda c: [("stash of the same grid", c.len("mdbsumstash") == vlen(c))], frame=lambda c: [c.lv("mvalue"), c.lv("mdbsumstash")],
                post=lambda c: [("the stashed values", z3.And(vlen(c) == c.olen("mdbsumstash"), fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el(c.m("mvalue"), k_) == c.el("mdbsumstash", k_, True)))))])
DSTASH = Spec(DS + "stashPartialValue", frame=lambda c: [c.lv("mdbsumstash")],
              post=lambda c: [("the values", z3.And(c.len("mdbsumstash") == vlen(c), fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el("mdbsumstash", k_) == c.el(c.m("mvalue"), k_)))))])
ATYPE = Assumed(N + "StructureAdapter::siteAtomType", name="StructureAdapter::siteAtomType (C07)")
SOCC = Assumed(N + "StructureAdapter::siteOccupancy", name="StructureAdapter::siteOccupancy (C07)")
TOTOCC = Assumed(N + "StructureAdapter::totalOccupancy", name="StructureAdapter::totalOccupancy (C07)")
MULTI = Assumed(N + "StructureAdapter::siteMultiplicity", name="StructureAdapter::siteMultiplicity (C07)")
SFAT = Assumed(DS + "sfSiteAtQ", name="sfSiteAtQ (C13)")
NSITES = z3.Int("number of sites")
COUNTS = Custom(N + "PairQuantity::countSites", lambda ex, call: V(I, {(): NSITES}), trusted="C07", name="PairQuantity::countSites")


def csd_post(c):
    ty, sf, av = dcache(c)
    return DCACHED(c) + [("a type for every site", ty[("len",)] == NSITES)]


def csd_loop(c, l):
    ty, sf, av = dcache(c)
    n = nq(c)
    cnt = lcnt(l)
    out = DCACHED(c)[:2]
    if any(r == c.this.root and "sfaverageatkq" in "".join(map(str, p)) for r, p in l.mods):
        out.append(DCACHED(c)[2])
    for r, p in sorted(l.mods, key=repr):
        if r == c.this.root and "typeofsite" in str(p) and p and p[-1] == "len":
            k = [t for nm, t, t0 in l.counters() if nm.startswith("%") and nm.endswith(".") and z3.is_int_value(z3.simplify(t0)) and z3.simplify(t0).as_long() == 0][0]
            out += [("one type per site", z3.And(ty[("len",)] == k, k <= NSITES))]
        if r.startswith("%") and p and p[-1] == "dom":
            m = l.ex.mem[r]
            d, v, size = m[p], m[p[:-1] + ("val",)], m[p[:-1] + ("n",)]
            q = z3.Const("type?", d.sort().domain())
            out += [("one factor array per type", size == sf[("len",)]),
                    ("types are numbered", z3.ForAll([q], z3.Implies(z3.Select(d, q), z3.And(0 <= z3.Select(v, q), z3.Select(v, q) < size))))]
    return out


DCSD = Spec(DS + "cacheStructureData", use=[DQMAX, DQMIN, ATYPE, SOCC, TOTOCC, MULTI, SFAT, COUNTS], pre=lambda c: DRANGE(c) + [("sites", NSITES >= 0), ("structure", c.t("mstructure") != 0)],
            frame=lambda c: [c.lv("mstructure_cache")], post=csd_post, loops=csd_loop)
SPECS += [DRESTORE, DSTASH, DCSD]
SPECS += [DQMAX, DQMIN, DQG, SFQ, SFAQ, DGF, DPREC, DAPC]

DRESET = Spec(DS + "resetValue", use=[DCSD, DQMAX, PQRESIZE, PQRESET], pre=lambda c: DRANGE(c) + [("sites", NSITES >= 0), ("structure", c.t("mstructure") != 0)],
              frame=lambda c: [c.lv("mstructure_cache"), c.lv("mvalue"), c.lv("mmergedvaluescount")],
              post=lambda c: DVAL(c) + [("all zero", fa(z3.Implies(z3.And(0 <= k_, k_ < vlen(c)), c.el(c.m("mvalue"), k_) == 0)))])
SPECS += [DRESET]

# ------------------------------------------------------------------ DebyePDFCalculator


def dpc(c):
    return c.t("mrcalclosteps"), c.t("mrcalchisteps")


DPR = lambda c: STEP(c) + [("limits not negative", z3.And(c.t("mrmin") >= 0, c.t("mrmax") >= 0, c.t("mqmax") >= 0, c.t("mqmin") >= 0, c.t("mqminpdf") >= 0, c.t("mmaxextension") >= 0)),
                           ("a peak width model", c.t("mpwmodel") != 0), ("a structure", c.t("mstructure") != 0)]
GXH = Assumed(N + "GaussianProfile::xboundhi", name="GaussianProfile::xboundhi (C14)", post=lambda c: [("", c.rt >= 0)])
GPR = Assumed(N + "GaussianProfile::setPrecision", name="GaussianProfile::setPrecision (C14)")
GCT = Assumed(N + "GaussianProfile::GaussianProfile", name="GaussianProfile::GaussianProfile (C14)")
DRIP = Spec(DP + "extFromTerminationRipples", pre=DPR, post=nonneg, frame=lambda c: [])
DTAIL = Spec(DP + "extFromPeakTails", use=[MAXW, GXH, GPR, GCT], pre=DPR, post=nonneg, frame=lambda c: [])


def dlim(c):
    lo, hi = dpc(c)
    r0, r1, s = c.t("mrmin"), c.t("mrmax"), c.t("mrstep")
    STEPS(c, c.this)
    return [("the summed range starts no later than the grid", z3.And(0 <= lo, lo <= RLO(r0, s))), ("the summed range ends no earlier than the grid", RHI(r1, s) <= hi), ("beyond rmax", tr(hi) * s >= r1)]


def dclim_post(c):
    return dlim(c) + [("cached", c.t("mrlimits_are_cached"))]


DCLIM = Spec(DP + "cacheRlimitsData", use=[RMIN2, RMAX2, DRIP, DTAIL], pre=DPR, post=dclim_post, frame=lambda c: [c.lv(x) for x in ("mrcalclosteps", "mrcalchisteps", "mrlimits_are_cached")])


def ifcached(c):
    return [(n, z3.Implies(c.t("mrlimits_are_cached"), f)) for n, f in dlim(c)]


DLF = DCLIM.frame
DRLO = Spec(DP + "rcalclo", use=[DCLIM], pre=lambda c: DPR(c) + ifcached(c), frame=DLF, post=lambda c: dlim(c) + [("cached", c.t("mrlimits_are_cached")), ("position of the first point", c.rt == tr(dpc(c)[0]) * c.t("mrstep"))])
DRHI = Spec(DP + "rcalchi", use=[DCLIM], pre=lambda c: DPR(c) + ifcached(c), frame=DLF,
            post=lambda c: dlim(c) + [("cached", c.t("mrlimits_are_cached")), ("position after the last point", c.rt == tr(dpc(c)[1]) * c.t("mrstep")), ("beyond rmax", c.rt >= c.t("mrmax"))])
TICK = Custom("diffpy::eventticker::EventTicker::click", lambda ex, call: V(VOID, {}), trusted="C19", name="EventTicker::click")
SETQ = Assumed(DS + "setQstep", name="BaseDebyeSum::setQstep (C09)", frame=lambda c: [c.lv("mqstep"), c.lv("mticker")], post=lambda c: [("", c.t("mqstep") == c.at(0)), ("", c.at(0) > EPS)])


def uq_post(c):
    top = tr(dpc(c)[1]) * c.t("mrstep")
    return dlim(c) + [("cached", c.t("mrlimits_are_cached")), ("the step stays valid", c.t("mqstep") > EPS), ("the step resolves the whole summed range", z3.Implies(top > EPS, c.t("mqstep") * top <= PI))]


DUQ = Spec(DP + "updateQstep", use=[DRHI, SETQ], pre=lambda c: DPR(c) + DRANGE(c) + ifcached(c), frame=lambda c: DLF(c) + [c.lv(x) for x in ("moptimumqstep", "mqstep", "mticker")], post=uq_post)
GFD = DGF
QUOT = z3.Real("quotient")


def dready(c):
    lo, hi = dpc(c)
    return DPR(c) + DRANGE(c) + DVAL(c) + dlim(c) + [("the step resolves the whole summed range", z3.Implies(tr(hi) * c.t("mrstep") > EPS, c.t("mqstep") * tr(hi) * c.t("mrstep") <= PI))]


DGRID2 = Spec(DP + "getRgrid", use=[DGRID], pre=STEP, frame=lambda c: [], post=lambda c: dgrid_post(c))


def dgrid_post(c):
    lo, hi = STEPS(c, c.this)
    n, dr = c.len(c.r), c.t("mrstep")
    return [("length of the requested grid", n == z3.If(hi > lo, hi - lo, z3.IntVal(0))), ("multiples of the step", fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.r, k_) == tr(lo + k_) * dr))),
            ("every point is below rmax", fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.r, k_) < c.t("mrmax"))),
             [dr > EPS, rmaxsteps(hi, c.t("mrmax"), dr), n == z3.If(hi > lo, hi - lo, z3.IntVal(0)), fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.r, k_) == tr(lo + k_) * dr))]),
            ("points are not negative", fa(z3.Implies(z3.And(0 <= k_, k_ < n, c.t("mrmin") >= 0), c.el(c.r, k_) >= 0)),
             [dr > EPS, z3.Implies(c.t("mrmin") >= 0, lo >= 0), fa(z3.Implies(z3.And(0 <= k_, k_ < n), c.el(c.r, k_) == tr(lo + k_) * dr))])]


PGRID2 = Spec(PC + "getRgrid", use=[PGRID], pre=STEP, frame=lambda c: [], post=dgrid_post)
PQGRID2 = Spec(PC + "getQgrid", use=[QG], pre=pq_pre, frame=lambda c: [], post=lambda c: [
    ("as many points as multiples of the step below the limit", z3.If(cache(c)[2] > 0, isceil(c.len(c.r), QMAXOF(c) / qs(None, c)[1]), c.len(c.r) == 0))])
def atq_loop(c, l):
    """every grid point lies below the last point of the transformed function"""
    g = c.calls(DGRID2.name)[0].r.lv
    gs = c.calls(FFG.name)[0].r.lv[("len",)]
    q, r1, top = c.t("mqstep"), c.t("mrmax"), tr(dpc(c)[1]) * c.t("mrstep")
    T = z3.Real("summed range?")
    el = z3.Select(g[("el",)], k_)
    inr = z3.And(0 <= k_, k_ < g[("len",)])
    drp = PI / (tr(gs) * q)
    c.ex.lemma("lemma step of the transformed function", z3.And(drp > 0, tr(gs) * drp >= r1), [q > EPS, gs >= 1, top >= r1, q * top <= PI], [top])
    f = fa(z3.Implies(inr, z3.And(el / drp >= 0, el / drp < tr(gs))))
    D_ = z3.Real("d?")
    c.ex.lemma("lemma grid points are within the transformed function", f,
               [drp > 0, tr(gs) * drp >= r1, fa(z3.Implies(inr, z3.And(el >= 0, el < r1)))], [drp])
    its = iters(l)
    return [("together", t - t0 == its[0][0] - its[0][1]) for t, t0, lv in its] + [("within", z3.And(t >= t0, t <= c.len(lv))) for t, t0, lv in its]


ATQ = Spec(DP + "getPDFAtQmin", loops=atq_loop, autoinv=False, use=[DGF, QMIN2, FFG, DGRID2], pre=lambda c: dready(c) + [("qmin not negative", c.at(0) >= 0)], frame=lambda c: [], post=lambda c: [("length of the requested grid", size_is(c, RN(c)))])
DPDF = Spec(DP + "getPDF", use=[ATQ, AENV, DGRID2], pre=lambda c: dready(c) + envs(c), frame=lambda c: [], post=lambda c: [("length of the requested grid", size_is(c, RN(c)))])
DRPR = Spec(DP + "getRDFperR", use=[ATQ], pre=dready, frame=lambda c: [], post=lambda c: [("length of the requested grid", size_is(c, RN(c)))])
DRDF = Spec(DP + "getRDF", use=[DRPR, DGRID2], pre=dready, frame=lambda c: [], post=lambda c: [("length of the requested grid", size_is(c, RN(c)))])
def dpr_post(c):
    """everything the results rely on"""
    top = tr(dpc(c)[1]) * c.t("mrstep")
    return dlim(c) + DRANGE(c) + DVAL(c) + [("the step resolves the whole summed range", z3.Implies(top > EPS, c.t("mqstep") * tr(dpc(c)[1]) * c.t("mrstep") <= PI))]


DPRESET = Spec(DP + "resetValue", use=[DCLIM, DUQ, DRESET], pre=lambda c: DPR(c) + DRANGE(c) + [("sites", NSITES >= 0)], post=dpr_post)




SPECS += [DRIP, DTAIL, DCLIM, DRLO, DRHI, DUQ, DGRID2, PGRID2, PQGRID2, ATQ, DPDF, DRPR, DRDF, DPRESET]
