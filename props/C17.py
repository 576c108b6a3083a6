from fractions import Fraction
import math
from dv.contract import *
import z3
from dv.models import UF
ID = "C17"
LEVEL = "proof"
TUS = ["/verif/tus/mathutils.cpp"]
HARNESS = "C17.cpp"
BOUNDED = ["EpsilonLess / EpsilonEqual specialisations on R3 vectors and matrices"]
ASSUMPTIONS = ["cos/sin/acos/asin are uninterpreted functions with the identities cos(pi/2-y)=sin(y), acos(x)+asin(x)=pi/2; "
               "the double M_PI stands for pi in them"]
MU = "diffpy::mathutils::"
R = z3.RealVal
_p = Fraction(math.pi)
PI = R("%d/%d" % (_p.numerator, _p.denominator))
COSV = {0: "1", 60: "1/2", 300: "1/2", 90: "0", 270: "0", 120: "-1/2", 240: "-1/2", 180: "-1"}


def rad(x):
    return x / 180 * PI


def trig_axioms(x):
    return [UF["cos"](rad(90 - x)) == UF["sin"](rad(x)), UF["sin"](rad(90 - x)) == UF["cos"](rad(x))]


def fold(c, x):
    """|x| reduced modulo a full turn"""
    ax = z3.If(x >= 0, x, -x)
    return ax - 360 * z3.ToReal(c.ex.floor(ax / 360))


def cos_post(c):
    x, r = c.at(0), c.rt
    w = fold(c, x)
    out = [("exactly %s at +-%d degrees modulo full turns" % (v, d), z3.Implies(w == d, r == R(v))) for d, v in sorted(COSV.items())]
    out.append(("cosine of the angle otherwise", z3.Or(r == UF["cos"](rad(x)), *[w == d for d in COSV])))
    return out


def sin_pre(c):
    for f in trig_axioms(c.at(0)):
        c.ex.assume(f)
    return []


def sin_post(c):
    x, r = c.at(0), c.rt
    w = fold(c, 90 - x)
    out = [("exactly %s where 90-x is +-%d degrees modulo full turns" % (v, d), z3.Implies(w == d, r == R(v))) for d, v in sorted(COSV.items())]
    out.append(("sine of the angle otherwise", z3.Or(r == UF["sin"](rad(x)), *[w == d for d in COSV])))
    return out


def inv_pre(c):
    x = c.at(0)
    c.ex.assume(UF["acos"](x) + UF["asin"](x) == PI / 2)
    return []


def inv_post(tab, fn):
    def post(c):
        x, r = c.at(0), c.rt
        out = [("exactly %d at %s" % (d, v), z3.Implies(x == R(v), r == d)) for v, d in tab.items()]
        out.append(("%s in degrees for every other argument" % fn,
                    z3.Implies(z3.And([x != R(v) for v in tab]), r == UF[fn](x) / PI * 180)))
        return out
    return post


cosd = Spec(MU + "cosd", post=cos_post)
ACOS = {"0": 90, "1/2": 60, "-1/2": 120, "1": 0, "-1": 180}
ASIN = {"0": 0, "1/2": 30, "-1/2": -30, "1": 90, "-1": -90}


def d2(c):
    return c.at(0), c.at(1)


def eqf(x, y, e):
    d = x - y
    return z3.And(d <= e, -d <= e)


def thr(c):
    return c.args[2].t


eps_eq = Spec(MU + "eps_eq", post=lambda c: [("true exactly when |x-y| <= eps", c.rt == eqf(c.at(0), c.at(1), c.at(2)))])
eps_gt = Spec(MU + "eps_gt", post=lambda c: [("true exactly when x - y > eps", c.rt == (c.at(0) - c.at(1) > c.at(2)))])
eps_lt = Spec(MU + "eps_lt", post=lambda c: [("true exactly when y - x > eps", c.rt == (c.at(1) - c.at(0) > c.at(2)))])
EPS3 = [eps_eq, eps_gt, eps_lt]
SPECS = [
    cosd,
    Spec(MU + "sind", pre=sin_pre, post=sin_post, use=[cosd]),
    Spec(MU + "acosd", pre=inv_pre, post=inv_post(ACOS, "acos")),
    Spec(MU + "asind", pre=inv_pre, post=inv_post(ASIN, "asin")),
    eps_eq, eps_gt, eps_lt,
    Spec(MU + "EpsilonLess::operator()", params=["const double &", "const double &"], use=EPS3, name="EpsilonLess(double,double)",
         post=lambda c: [("x below y by more than the tolerance", c.rt == (c.at(1) - c.at(0) > c.ot("meps")))]),
    Spec(MU + "EpsilonEqual::operator()", params=["const double &", "const double &"], use=EPS3, name="EpsilonEqual(double,double)",
         post=lambda c: [("x within the tolerance of y", c.rt == eqf(c.at(0), c.at(1), c.ot("meps")))]),
]


def seq_eq(c):
    n0, n1 = c.olen(0), c.olen(1)
    i = z3.Int("i!")
    all_ = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), eqf(c.el(0, i, True), c.el(1, i, True), c.ot("meps"))))
    return [("sequences of equal length with every element within tolerance", c.rt == z3.And(n0 == n1, all_))]


SPECS.append(Spec(MU + "EpsilonEqual::operator()", params=["vector", "vector"], name="EpsilonEqual(seq,seq)", post=seq_eq))


def seq_less(c):
    n0, n1, e = c.olen(0), c.olen(1), c.ot("meps")
    i, j = z3.Int("i!"), z3.Int("j!")
    a, b = (lambda k: c.el(0, k, True)), (lambda k: c.el(1, k, True))
    mn = z3.If(n0 < n1, n0, n1)
    tied = lambda j: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), eqf(a(i), b(i), e)))
    return [("the first element that differs by more than the tolerance decides", z3.Implies(
                z3.And(0 <= j, j < mn, tied(j), z3.Not(eqf(a(j), b(j), e))), c.rt == (b(j) - a(j) > e))),
            ("otherwise the shorter sequence is less", z3.Implies(tied(mn), c.rt == (n0 < n1)))]


SPECS.append(Spec(MU + "EpsilonLess::operator()", params=["vector", "vector"], name="EpsilonLess(seq,seq)", pre=lambda c: [("eps", c.t("meps") >= 0)], post=seq_less))
