"""C13: lookup tables"""
from dv.contract import *
from dv.models import UF
from props.C07 import SLK, CLICK, CLICKS
from props.C14 import rv
import math
import z3
ID = "C13"
LEVEL = "proof"
HARNESS = "C13.cpp"
TUS = ["srreal/" + t for t in ("ScatteringFactorTable.cpp", "AtomRadiiTable.cpp", "ConstantRadiiTable.cpp", "SFTXray.cpp", "SFTElectron.cpp", "SFTNeutron.cpp", "SFTElectronNumber.cpp",
                               "scatteringfactordata.cpp", "AtomUtils.cpp")]
BOUNDED = ["symbols with charges and isotopes, data files, text form of custom radii: every symbol of the data files, all strings of up to 4 characters of an alphabet of signs, digits and letters, random call histories"]
ASSUMPTIONS = ["the standard value is a fixed function of symbol and q (static data tables); rejected symbols raise",
               "real arithmetic for double, exp is uninterpreted"]
N = "diffpy::srreal::"
ST, AR, CR = (N + x + "::" for x in ("ScatteringFactorTable", "AtomRadiiTable", "ConstantRadiiTable"))
Is, Bs, Rs = z3.IntSort(), z3.BoolSort(), z3.RealSort()
KNOWN = z3.Function("KNOWN", Is, Bs)


def std(ex, call):
    s, q = ex.load(call.args[0]).lv[()], ex.load(call.args[1]).lv[()]
    if not ex.decide(KNOWN(s)):
        raise ThrowEx("std::invalid_argument")
    return ex.vR(SLK(s, q))


STD = Custom(ST + "standardLookup", std, trusted="a fixed function of the symbol and q that raises for unknown symbols")


class Tab:
    def __init__(self, c, old=False):
        m = c.old("mcustom") if old else c.v("mcustom")
        self.d, self.src, self.sc = m.lv[("dom",)], m.lv[("val", "first")], m.lv[("val", "second")]

    def at(self, k):
        return [z3.Select(x, k) for x in (self.d, self.src, self.sc)]

    def val(self, k, q):
        d, s, f = self.at(k)
        return z3.If(d, SLK(s, q) * f, SLK(k, q))

    def known(self, k):
        d, s, f = self.at(k)
        return z3.If(d, KNOWN(s), KNOWN(k))


def others(c, *keys):
    k = z3.Int("k!")
    a, b = Tab(c, True).at(k), Tab(c).at(k)
    return ("entries of other symbols stay", z3.ForAll([k], z3.Implies(z3.And(*[k != x for x in keys]), z3.And(a[0] == b[0], z3.Implies(a[0], z3.And(a[1] == b[1], a[2] == b[2]))))))


def unchanged(c, e=None):
    k = z3.Int("k!")
    a, b = Tab(c, True).at(k), Tab(c).at(k)
    return [("a rejected change leaves the table alone", z3.ForAll([k], z3.And(a[0] == b[0], z3.Implies(a[0], z3.And(a[1] == b[1], a[2] == b[2])))))]


fr = lambda c: [c.lv("mcustom"), CLICKS]
lookup = Spec(ST + "lookup", use=[STD], frame=lambda c: [], post=lambda c: [
    ("the custom value, or the standard one", c.rt == Tab(c).val(c.at(0), c.at(1))), ("the symbol is known", Tab(c).known(c.at(0)))],
    raises=lambda c, e: [("unknown symbols only", z3.Not(Tab(c).known(c.at(0))))])


def as_post(scaled):
    def f(c):
        k, s = c.at(0), c.at(1)
        d, src, sc = Tab(c).at(k)
        out = [("the symbol is customized by the source", z3.And(d, src == s)), others(c, k)]
        if scaled:
            f0 = SLK(s, c.at(3))
            out += [("the source is known", KNOWN(s)), ("lemma scale", z3.Implies(f0 != 0, sc * f0 == c.at(2))),
                    ("the value at q is the one asked for", z3.Implies(f0 != 0, Tab(c).val(k, c.at(3)) == c.at(2)))]
        else:
            out += [("equal to the source at any q", sc == 1)]
        return out
    return f


S2 = ["string"] * 2
SPECS = [lookup,
         Spec(ST + "setCustomAs", params=S2, use=[CLICK, STD], name="ScatteringFactorTable::setCustomAs(like)", frame=fr, post=as_post(False)),
         Spec(ST + "setCustomAs", params=S2 + ["double"] * 2, use=[CLICK, STD], name="ScatteringFactorTable::setCustomAs(scaled)", frame=fr, post=as_post(True),
              raises=lambda c, e: unchanged(c) + [("unknown sources only", z3.Not(KNOWN(c.at(1))))]),
         Spec(ST + "resetCustom", use=[CLICK], frame=fr, noexcept=True, post=lambda c: [("the standard value is back", z3.Not(Tab(c).at(c.at(0))[0])), others(c, c.at(0))]),
         Spec(ST + "resetAll", use=[CLICK], frame=fr, noexcept=True, post=lambda c: [("all standard values are back", z3.ForAll([z3.Int("k!")], z3.Not(Tab(c).at(z3.Int("k!"))[0])))])]


def sym_loops(c, l):
    ex = c.ex
    m = c.v("mcustom")
    LIB.mapfacts(ex, m)
    out = []
    k = z3.Int("k!")
    rvs = [v for v in l.lvs().values() if isinstance(v, LV) and v.shape.kind in ("set", "map") and v.root.startswith("%")]
    for nm, p, p0 in l.counters():
        for v in rvs:
            d = ex.load(v).lv[("dom",)]
            out += [("in range", z3.And(0 <= p, p <= m.lv[("n",)])),
                    ("symbols so far", z3.ForAll([k], z3.Select(d, k) == z3.And(z3.Select(m.lv[("dom",)], k), z3.Select(m.lv[("pos",)], k) < p)))]
    return out


SPECS += [Spec(ST + "getCustomSymbols", frame=lambda c: [], noexcept=True, autoinv=False, loops=sym_loops, post=lambda c: [
    ("the customized symbols", z3.ForAll([z3.Int("k!")], z3.Select(c.r.lv[("dom",)], z3.Int("k!")) == Tab(c).at(z3.Int("k!"))[0]))])]

# ---- radii --------------------------------------------------------------------------------------
RLK = z3.Function("RLK", Is, Rs)


def rstd(ex, call):
    s = ex.load(call.args[0]).lv[()]
    return ex.vR(RLK(s))


RSTD = Custom(AR + "standardLookup", rstd, trusted="a fixed function of the symbol until the table is changed")


def rad(c, k, old=False):
    m = c.old("mcustomradius") if old else c.v("mcustomradius")
    return z3.Select(m.lv[("dom",)], k), z3.Select(m.lv[("val",)], k)


def rval(c, k, old=False):
    d, v = rad(c, k, old)
    return z3.If(d, v, RLK(k))


def rothers(c, *keys):
    k = z3.Int("k!")
    a, b = rad(c, k, True), rad(c, k)
    return ("radii of other symbols stay", z3.ForAll([k], z3.Implies(z3.And(*[k != x for x in keys]), z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1])))))


rfr = lambda c: [c.lv("mcustomradius")]
SPECS += [Spec(AR + "lookup", use=[RSTD], frame=lambda c: [], noexcept=True, post=lambda c: [("the custom radius, or the standard one", c.rt == rval(c, c.at(0)))]),
          Spec(AR + "setCustom", frame=rfr, noexcept=True, post=lambda c: [("the radius that was set", rval(c, c.at(0)) == c.at(1)), ("is a custom one", rad(c, c.at(0))[0]), rothers(c, c.at(0))]),
          Spec(AR + "resetCustom", frame=rfr, noexcept=True, post=lambda c: [("the standard radius is back", rval(c, c.at(0)) == RLK(c.at(0))), ("no custom one", z3.Not(rad(c, c.at(0))[0])), rothers(c, c.at(0))]),
          Spec(AR + "resetAll", frame=rfr, noexcept=True, post=lambda c: [("all standard radii are back", z3.ForAll([z3.Int("k!")], z3.Not(rad(c, z3.Int("k!"))[0])))]),
          Spec(CR + "standardLookup", frame=lambda c: [], noexcept=True, post=lambda c: [("the same radius for any symbol", c.rt == c.t("mdefaultradius"))]),
          Spec(CR + "setDefault", frame=lambda c: [c.lv("mdefaultradius")], noexcept=True, post=lambda c: [("the radius that was set", c.t("mdefaultradius") == c.at(0))]),
          Spec(CR + "getDefault", frame=lambda c: [], noexcept=True, post=lambda c: [("the radius that was set", c.rt == c.t("mdefaultradius"))])]

# ---- standard values ----------------------------------------------------------------------------
A = "(anonymous namespace)::"
PI4 = 4 * rv(math.pi)


WK = A + "WaasKirfFormula::"


def coef(c, i):
    return [c.ex.read(LV(c.this.root, c.m(n).path + (str(i),), R)).t for n in ("a", "b")]


def xray(c, s):
    return c.t("c") + sum(coef(c, i)[0] * UF["exp"](-coef(c, i)[1] * s * s) for i in range(5))


def Zv(c):
    return c.t("c") + sum(coef(c, i)[0] for i in range(5))


XRAY = Spec(WK + "xrayatstol", frame=lambda c: [], noexcept=True, post=lambda c: [("the Waasmaier-Kirfel formula", c.rt == xray(c, c.at(0)))])
ZSP = Spec(WK + "Z", frame=lambda c: [], noexcept=True, post=lambda c: [("the value at zero angle, rounded", z3.And(c.rt - Zv(c) <= rv(.5), Zv(c) - c.rt <= rv(.5)))])


def elz(c):
    z = c.calls("(anonymous namespace)::WaasKirfFormula::Z")
    return z[0].rt if z else c.ex.fresh("noz", Rs)


SPECS += [XRAY, ZSP, Spec(WK + "electronatstol", use=[XRAY, ZSP], frame=lambda c: [], noexcept=True, post=lambda c: [
    ("the Mott-Bethe formula", z3.Implies(z3.Or(c.at(0) > 1, c.at(0) < -1), c.rt * c.at(0) * c.at(0) == rv(0.023934) * (elz(c) - xray(c, c.at(0)))))])]


def fwd(name, *args):
    f = z3.Function("F!" + name, Is, *([Rs] * len(args)), Rs)
    return f, Custom(N + name, lambda ex, call: ex.vR(f(ex.load(call.args[0]).lv[()], *[ex.load(a).lv[()] for a in call.args[1:]])), trusted="value of the symbol in the data file (exhaustive comparison)")


FX, CFX = fwd("fxrayatq", "q")
FS, CFS = fwd("fxrayatstol", "stol")
FE, CFE = fwd("felectronatq", "q")
FB, CFB = fwd("bcneutron")
FN = z3.Function("F!electronnumber", Is, Is)
CFN = Custom(N + "electronnumber", lambda ex, call: ex.vI(FN(ex.load(call.args[0]).lv[()])), trusted="value of the symbol in the data file (exhaustive comparison)")
q4 = lambda c: c.at(1) / PI4
SPECS += [Spec(N + "fxrayatq", use=[CFS], post=lambda c: [("q is 4 pi sin(theta)/lambda", c.rt == FS(c.at(0), q4(c)))]),
          Spec(N + "SFTXray::standardLookup", use=[CFX], post=lambda c: [("x-ray factor", c.rt == FX(c.at(0), c.at(1)))]),
          Spec(N + "SFTElectron::standardLookup", use=[CFE], post=lambda c: [("electron factor", c.rt == FE(c.at(0), c.at(1)))]),
          Spec(N + "SFTNeutron::standardLookup", use=[CFB], post=lambda c: [("scattering length, constant in q", c.rt == FB(c.at(0)))]),
          Spec(N + "SFTElectronNumber::standardLookup", use=[CFN], post=lambda c: [("number of electrons, constant in q", c.rt == z3.ToReal(FN(c.at(0))))])]
