import math
from fractions import Fraction
from dv.contract import *
import z3
from dv.models import UF
ID = "C14"
LEVEL = "proof"
TUS = ["GaussianProfile.cpp", "CroppedGaussianProfile.cpp", "DebyeWallerPeakWidth.cpp", "ConstantPeakWidth.cpp", "JeongPeakWidth.cpp",
       "ScaleEnvelope.cpp", "StepCutEnvelope.cpp", "QResolutionEnvelope.cpp", "SphericalShapeEnvelope.cpp", "LinearBaseline.cpp",
       "ZeroBaseline.cpp", "PeakProfile.cpp"]
TUS = ["srreal/" + t for t in TUS]
HARNESS = "C14.cpp"
BOUNDED = ["area of the profiles (numerical integration), maximum width over a structure, envelopes applied together",
           "bisowidth / uisowidth attributes through the attribute interface"]
ASSUMPTIONS = ["exp, log, sqrt, erf are uninterpreted functions with exp(log p) = p for p > 0, exp(-M_LN2) = 1/2, sqrt(x)^2 = x, "
               "monotone signs; real arithmetic for double",
               "deltas and broadening factors nonnegative where a width bound over a range of distances is claimed"]
N = "diffpy::srreal::"


def rv(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


LN2 = rv(math.log(2))
PI = rv(math.pi)
EPS = rv(2.0 ** -52)
CLICKS = LV("$clicks", (), I)


def click(ex, call):
    ex.write(CLICKS, ex.vI(ex.load(CLICKS).lv[()] + 1))
    return V(VOID, {})


CLICK = Custom("diffpy::eventticker::EventTicker::click", click, trusted="C19", name="EventTicker::click")


def clicks(c):
    return c.ex.read(CLICKS).t - c.ex.read(CLICKS, c.pre).t


def cl(changed):
    """an effective change moves the ticker"""
    return lambda c: [("an effective change is noticed", z3.Implies(changed(c), clicks(c) > 0))]


REG = Custom("diffpy::attributes::registerBaseDoubleAttribute", lambda ex, call: V(VOID, {}), trusted="C18", name="registerBaseDoubleAttribute")

# ---------------------------------------------------------------- profiles
G = N + "GaussianProfile::"
CG = N + "CroppedGaussianProfile::"
AX = lambda: [UF["exp"](-LN2) == rv(0.5)]


def facts(x):
    return [UF["exp"](x) > 0]


def ginv(c, f=None):
    p, h = c.t("mprecision"), c.t("mhalfboundrel")
    return [("precision at least machine epsilon", p >= EPS),
            ("half bound is where the profile falls to the precision", z3.And(h >= 0,
             z3.Implies(p < 1, 4 * LN2 * h * h == -UF["log"](p)), z3.Implies(p >= 1, h == 0)))]


def gval(x, w):
    return 2 * UF["sqrt"](LN2 / PI) / w * UF["exp"](-4 * LN2 * (x / w) * (x / w))


def gpost(c):
    x, w, r = c.at(0), c.at(1), c.rt
    e = UF["exp"](-4 * LN2 * (x / w) * (x / w))
    return [("zero for a nonpositive width", z3.Implies(w <= 0, r == 0)),
            ("the normalized Gaussian of the width", z3.Implies(w > 0, r == gval(x, w))),
            ("nonnegative", r >= 0),
            ("half of the peak value at half width from the center", z3.Implies(z3.And(w > 0, z3.Or(x == w / 2, x == -w / 2)),
                                                                                  r == UF["sqrt"](LN2 / PI) / w))]


def sqrtpos(c):
    c.ex.assume(UF["sqrt"](LN2 / PI) > 0)
    return []


def hi_post(c):
    w, r, p = c.at(0), c.rt, c.t("mprecision")
    h = c.t("mhalfboundrel")
    return [("zero for a nonpositive width", z3.Implies(w <= 0, r == 0)),
            ("a multiple of the width", z3.Implies(w > 0, r == h * w)),
            ("nonnegative", r >= 0),
            ("lemma exponent at the bound", z3.Implies(z3.And(w > 0, p < 1), -4 * LN2 * (r / w) * (r / w) == UF["log"](p))),
            ("the profile falls to the precision at the bound", z3.Implies(z3.And(w > 0, p < 1),
             UF["exp"](-4 * LN2 * (r / w) * (r / w)) == p))]


def hi_pre(c):
    p = c.t("mprecision")
    c.ex.assume(z3.Implies(p > 0, UF["exp"](UF["log"](p)) == p))
    return ginv(c)


HI = Spec(G + "xboundhi", pre=hi_pre, post=hi_post, frame=lambda c: [])


def setp_post(c):
    e = c.at(0)
    e1 = z3.If(e >= EPS, e, EPS)
    return ginv(c) + [("the precision that was asked for, at least machine epsilon", c.t("mprecision") == e1)] + \
        cl(lambda c: c.t("mprecision") != c.ot("mprecision"))(c)


PSETP = Spec(N + "PeakProfile::setPrecision", use=[CLICK], post=lambda c: [("stored", c.t("mprecision") == c.at(0))] +
             cl(lambda c: c.t("mprecision") != c.ot("mprecision"))(c), frame=lambda c: [c.lv("mprecision"), CLICKS])
GSETP = Spec(G + "setPrecision", use=[PSETP], post=setp_post, frame=lambda c: [c.lv("mprecision"), c.lv("mhalfboundrel"), CLICKS])


def cinv(c):
    p, h, s = c.t("mprecision"), c.t("mhalfboundrel"), c.t("mscale")
    return ginv(c) + [("scale is the inverse of the area inside the bounds", z3.And(s > 0,
                       z3.Implies(p < 1, s * UF["erf"](UF["sqrt"](-UF["log"](p))) == 1), z3.Implies(p >= 1, s == 1)))]


def cpost(c):
    x, w, r, h, s = c.at(0), c.at(1), c.rt, c.t("mhalfboundrel"), c.t("mscale")
    ax = z3.If(x >= 0, x, -x)
    return [("zero for a nonpositive width", z3.Implies(w <= 0, r == 0)),
            ("zero at and beyond the bounds", z3.Implies(z3.And(w > 0, ax >= h * w), r == 0)),
            ("the scaled Gaussian inside", z3.Implies(z3.And(w > 0, ax < h * w), r == s * gval(x, w))),
            ("nonnegative", r >= 0)]


CSETP = Spec(CG + "setPrecision", use=[GSETP], post=lambda c: cinv(c) + setp_post(c)[2:])

SPECS = [
    PSETP, GSETP, HI,
    Spec(G + "GaussianProfile", params=[], use=[GSETP, REG, CLICK], post=ginv),
    Spec(G + "operator()", pre=sqrtpos, axioms=AX, post=gpost, frame=lambda c: []),
    Spec(G + "xboundlo", pre=ginv, use=[HI], post=lambda c: [("mirror image of the upper bound", c.rt == z3.If(c.at(0) <= 0, 0, -c.t("mhalfboundrel") * c.at(0)))],
         frame=lambda c: []),
    CSETP,
    Spec(CG + "CroppedGaussianProfile", params=[], use=[CSETP, REG, CLICK], post=cinv),
    Spec(CG + "operator()", pre=lambda c: sqrtpos(c) + cinv(c), post=cpost, frame=lambda c: []),
]


# ---------------------------------------------------------------- envelopes and baselines
def env(cls, post, pre=None):
    return Spec(N + cls + "::operator()", pre=pre, post=post, frame=lambda c: [])


def setget(cls, name, member, ticks=False):
    return [Spec(N + cls + "::set" + name, use=[CLICK], frame=lambda c: [c.lv(member), CLICKS],
                 post=lambda c: [("stores what was given", c.t(member) == c.at(0))] + (cl(lambda c: c.t(member) != c.ot(member))(c) if ticks else [])),
            Spec(N + cls + "::get" + name, post=lambda c: [("returns what is stored", c.rt == c.t(member))], frame=lambda c: [])]


def step_post(c):
    s, r = c.t("mstepcut"), c.at(0)
    return [("zero exactly beyond a positive cut", c.rt == z3.If(z3.And(s > 0, r > s), z3.RealVal(0), z3.RealVal(1)))]


def qres_post(c):
    q, r = c.t("mqdamp"), c.at(0)
    return [("Gaussian damping", z3.Implies(q > 0, c.rt == UF["exp"](-((r * q) * (r * q)) / 2))), ("none without damping factor", z3.Implies(q <= 0, c.rt == 1)),
            ("in range", z3.And(c.rt > 0, c.rt <= 1))]


def sph_post(c):
    d, r = c.t("mspdiameter"), c.at(0)
    q = r / d
    return [("one when disabled", z3.Implies(d <= 0, c.rt == 1)),
            ("zero beyond the diameter", z3.Implies(z3.And(d > 0, r > d), c.rt == 0)),
            ("spherical shape function inside", z3.Implies(z3.And(d > 0, r <= d), c.rt == 1 - rv(1.5) * q + q * q * q / 2)),
            ("lemma ratio", z3.Implies(z3.And(d > 0, r >= 0, r <= d), z3.And(q >= 0, q <= 1))),
            ("lemma factored", z3.Implies(z3.And(d > 0, r >= 0, r <= d), 1 - rv(1.5) * q + q * q * q / 2 == (1 - q) * (1 - q) * (2 + q) / 2)),
            ("in range at nonnegative distances", z3.Implies(r >= 0, z3.And(c.rt >= 0, c.rt <= 1)))]


SPECS += [env("ScaleEnvelope", lambda c: [("the scale factor", c.rt == c.t("mscale"))]),
          env("StepCutEnvelope", step_post), env("QResolutionEnvelope", qres_post), env("SphericalShapeEnvelope", sph_post),
          env("LinearBaseline", lambda c: [("slope times r", c.rt == c.t("mslope") * c.at(0))]),
          env("ZeroBaseline", lambda c: [("zero", c.rt == 0)])]
for cls, name, m in [("ScaleEnvelope", "Scale", "mscale"), ("StepCutEnvelope", "StepCut", "mstepcut"), ("QResolutionEnvelope", "Qdamp", "mqdamp"),
                     ("SphericalShapeEnvelope", "SPDiameter", "mspdiameter"), ("LinearBaseline", "Slope", "mslope")]:
    SPECS += setget(cls, name, m)

# ---------------------------------------------------------------- peak widths
SIG = 2 * UF["sqrt"](2 * LN2)
MSD = LV("$msd", (), R)
DIST = LV("$distance", (), R)
MAXU = LV("$maxuii", (), R)
BNDS = [Custom(N + "BaseBondGenerator::msd", lambda ex, call: ex.read(MSD), trusted="C04", name="BaseBondGenerator::msd"),
        Custom(N + "BaseBondGenerator::distance", lambda ex, call: ex.read(DIST), trusted="C04", name="BaseBondGenerator::distance"),
        Custom(N + "maxUii", lambda ex, call: ex.read(MAXU), trusted="harness", name="maxUii")]


def msd(c):
    return c.ex.read(MSD).t


def dist(c):
    return c.ex.read(DIST).t


def maxu(c):
    return c.ex.read(MAXU).t


def dww(m):
    return z3.If(m <= 0, z3.RealVal(0), SIG * UF["sqrt"](m))


def sq0(c):
    c.ex.assume(UF["sqrt"](z3.RealVal(0)) == 0)
    return []


DW = Spec(N + "DebyeWallerPeakWidth::calculate", use=BNDS, pre=sq0, post=lambda c: [("width of the Gaussian with the mean square displacement", c.rt == dww(msd(c))), ("nonnegative", c.rt >= 0)], frame=lambda c: [])
DWM = Spec(N + "DebyeWallerPeakWidth::maxWidth", use=BNDS, pre=sq0, post=lambda c: [("width of twice the largest displacement", c.rt == dww(2 * maxu(c)))], frame=lambda c: [])


def ratio(c, r):
    d1, d2, q = c.t("mdelta1"), c.t("mdelta2"), c.t("mqbroad")
    return z3.If(r < EPS, z3.RealVal(0), 1 - d1 / r - d2 / (r * r) + (q * r) * (q * r))


RATIO = Spec(N + "JeongPeakWidth::msdSharpeningRatio", post=lambda c: [("1 - delta1/r - delta2/r^2 + (qbroad r)^2", c.rt == ratio(c, c.at(0)))], frame=lambda c: [])


def jpost(c):
    r = dist(c)
    k = ratio(c, r)
    s = c.t("mqbroad_seperable")
    return [("zero where the correction is not positive", z3.Implies(k <= 0, c.rt == 0)),
            ("corrected Debye-Waller width", z3.Implies(k > 0, c.rt == UF["sqrt"](k) * dww(msd(c)) + (s * r) * (s * r))), ("nonnegative", c.rt >= 0)]


def jmax(c):
    lo, hi = c.at(1), c.at(2)
    x = z3.Real("x!")
    d1, d2, q = c.t("mdelta1"), c.t("mdelta2"), c.t("mqbroad")
    a, b = ratio(c, lo), ratio(c, hi)
    m = z3.If(a > b, a, b)
    m = z3.If(m > 1, m, z3.RealVal(1))
    s = c.t("mqbroad_seperable")
    return [("width at the largest correction within the range", c.rt == dww(2 * maxu(c)) * UF["sqrt"](m) + (s * hi) * (s * hi)),
            ("no correction within the range is larger (nonnegative parameters)", z3.ForAll([x], z3.Implies(
                z3.And(d1 >= 0, d2 >= 0, EPS <= lo, lo <= x, x <= hi), ratio(c, x) <= m)))]


SPECS += [DW, DWM, RATIO,
          Spec(N + "JeongPeakWidth::calculate", use=BNDS + [DW, RATIO], pre=lambda c: sq0(c) + [("Debye-Waller factor", SIG >= 0)], post=jpost, frame=lambda c: []),
          Spec(N + "JeongPeakWidth::maxWidth", use=BNDS + [DWM, RATIO], pre=sq0, post=jmax, frame=lambda c: [])]
for name, m in [("Delta1", "mdelta1"), ("Delta2", "mdelta2"), ("Qbroad", "mqbroad"), ("Qbroad_seperable", "mqbroad_seperable")]:
    SPECS += setget("JeongPeakWidth", name, m, True)
SPECS += setget("ConstantPeakWidth", "Width", "mwidth", True)
SPECS += [Spec(N + "ConstantPeakWidth::calculate", post=lambda c: [("the constant width", c.rt == c.t("mwidth"))], frame=lambda c: []),
          Spec(N + "ConstantPeakWidth::maxWidth", post=lambda c: [("the constant width", c.rt == c.t("mwidth"))], frame=lambda c: [])]


# ---------------------------------------------------------------- uiso, biso as views of the width
def uiso(w):
    q = (w / SIG) * (w / SIG)
    return z3.If(w >= 0, q / 2, -q / 2)


def wof(c, i=0):
    p = c.ex.load(c.args[i])
    sh = c.ex.st.record(N + "ConstantPeakWidth")
    return c.t(c.m("mwidth", LV("$heap", (("i", p.lv[()]),), sh)))


def nonnull(c):
    return [("non-null", c.ex.load(c.args[0]).lv[()] != 0), ("SIG", SIG > 0)]


BFAC = 8 * PI * PI
for n, k in [("uiso", 1), ("biso", BFAC)]:
    SPECS += [Spec(N + "(anonymous namespace)::get%swidth" % n, pre=nonnull, post=lambda c, k=k: [("displacement that gives the width", c.rt == k * uiso(wof(c)))]),
              Spec(N + "(anonymous namespace)::set%swidth" % n, use=[CLICK], pre=nonnull,
                   post=lambda c, k=k: [("the width of the displacement", k * uiso(wof(c)) == c.at(1))])]
