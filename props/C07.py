"""C07: every effective configuration change is noticed"""
import copy
from dv.contract import *
from props import C03, C14
from props.C14 import CLICKS, CLICK, clicks, cl
from dv.core import PyPtr
import z3
ID = "C07"
LEVEL = "proof"
HARNESS = "C07.cpp"
TUS = ["EventTicker.cpp", "srreal/PairQuantity.cpp", "srreal/PDFCalculator.cpp", "srreal/BaseDebyeSum.cpp", "srreal/DebyePDFCalculator.cpp", "srreal/BondCalculator.cpp", "srreal/ScatteringFactorTable.cpp",
       "srreal/PeakWidthModel.cpp", "srreal/PeakProfile.cpp", "srreal/JeongPeakWidth.cpp", "srreal/ConstantPeakWidth.cpp", "srreal/GaussianProfile.cpp"]
BOUNDED = ["that no other function changes a setting: random changes of every kind through every way of making them"]
ASSUMPTIONS = ["a click makes the counter newer than every counter clicked before (C19)"]
N = "diffpy::srreal::"
PQ, PD, DS, DP, BC = (N + x + "::" for x in ("PairQuantity", "PDFCalculator", "BaseDebyeSum", "DebyePDFCalculator", "BondCalculator"))
void = lambda: V(VOID, {})


def frm(*fs):
    return lambda c: [c.lv(f) for f in fs] + [CLICKS]


def quiet(*fs):
    """when the setter rejects its argument the setting stays"""
    return lambda c, e: [("the rejected setting is unchanged", z3.And(*[c.t(f) == c.ot(f) for f in fs]))]


def setter(qn, f, use=(), frame=(), pre=None, pred=None, stored=None):
    pred = pred or (lambda c: c.t(f) != c.ot(f))
    return Spec(qn, use=[CLICK] + list(use), pre=pre, post=lambda c: cl(pred)(c) + ([("the value is stored", stored(c))] if stored else [("the value is stored", c.t(f) == c.at(0))]), raises=quiet(f),
                frame=frm(f, *frame))


INIT = Custom(N + "(anonymous namespace)::_initialQstepUpdate", lambda ex, call: ex.vB(ex.fresh("initial", z3.BoolSort())), trusted="true until the first structure is set")
RESET = Custom(PQ + "resetValue", lambda ex, call: void(), trusted="keeps the settings (C08)")
RESET2 = Custom(PD + "resetValue", lambda ex, call: void(), trusted="keeps the settings (C08)")
QSTEP = Custom(DP + "updateQstep", lambda ex, call: void(), trusted="its own contract")
ASSIGN = Custom(PQ + "assignStructure", lambda ex, call: void(), trusted="C01")
SPECS = [setter(PQ + "setRmin", "mrmin"), setter(PQ + "setRmax", "mrmax"),
         Spec(PQ + "setStructure", use=[CLICK, ASSIGN], post=lambda c: [("the value no longer belongs to an earlier structure", clicks(c) > 0)], frame=lambda c: [CLICKS]),
         Spec(PQ + "invertMask", use=[CLICK], post=lambda c: [("the inverted mask is noticed", clicks(c) > 0)], loops=lambda c, l: [("counter", clicks(c) > 0)])]
PSR = [Spec(PQ + "setRmin", use=[CLICK], post=SPECS[0].post, frame=SPECS[0].frame), Spec(PQ + "setRmax", use=[CLICK], post=SPECS[1].post, frame=SPECS[1].frame)]
SPECS += [setter(PD + "setRmin", "mrmin", use=SPECS[:2]), setter(PD + "setRmax", "mrmax", use=SPECS[:2] + [INIT, RESET, RESET2]),
          setter(PD + "setRstep", "mrstep", use=[INIT, RESET, RESET2]), setter(PD + "setMaxExtension", "mmaxextension"),
          setter(PD + "setQmax", "mqmax", use=[INIT, RESET, RESET2], pred=lambda c: c.t("mqmax") < c.ot("mqmax"), stored=lambda c: z3.Implies(c.at(0) > 0, c.t("mqmax") == c.at(0))),
          setter(DS + "setQmin", "mqmin"), setter(DS + "setQmax", "mqmax"), setter(DS + "setQstep", "mqstep"), setter(DS + "setDebyePrecision", "mdebyeprecision"),
          setter(DP + "setMaxExtension", "mmaxextension", use=[QSTEP], frame=("mrlimits_are_cached",))]

# ---- component models ---------------------------------------------------------------------------
SPECS += [copy.copy(C14.PSETP), copy.copy(C14.GSETP)] + [copy.copy(s) for s in C14.SPECS if any(s.qn.endswith(x) for x in (
    "JeongPeakWidth::setDelta1", "JeongPeakWidth::setDelta2", "JeongPeakWidth::setQbroad", "JeongPeakWidth::setQbroad_seperable", "ConstantPeakWidth::setWidth"))]


# ---- components of a calculator -----------------------------------------------------------------
def ptr(c, f, old=False):
    p = (c.old(f) if old else c.v(f)).lv[("ptr",)]
    return p.lv if isinstance(p, PyPtr) else p


def argptr(c, i):
    return c.args[i]


def ownset(qn, f):
    return Spec(qn, use=[CLICK], frame=frm(f), post=lambda c: [("another component is noticed", z3.Implies(pid(c.v(f)) != pid(c.old(f)), clicks(c) > 0)),
                                                              ("the component is stored", pid(c.v(f)) == pid(c.a(0)))])


def pid(v):
    p = v.lv[("ptr",)] if ("ptr",) in v.lv else v.lv[()]
    return p


SPECS += [ownset(N + "PeakWidthModelOwner::setPeakWidthModel", "mpwmodel"), ownset(N + "ScatteringFactorTableOwner::setScatteringFactorTable", "msftable"),
          ownset(PD + "setPeakProfile", "mpeakprofile")]

# ---- scattering factor table --------------------------------------------------------------------
ST = N + "ScatteringFactorTable::"
SLK = z3.Function("SLK", z3.IntSort(), z3.RealSort(), z3.RealSort())
STD = Custom(ST + "standardLookup", lambda ex, call: ex.vR(SLK(ex.load(call.args[0]).lv[()], ex.load(call.args[1]).lv[()])), trusted="a fixed function of the symbol and q")


def entry(m, k):
    return [z3.Select(m.lv[("val",) + p], k) for p in (("first",), ("second",))]


def sft_post(c):
    m0, m1 = c.old("mcustom"), c.v("mcustom")
    k = z3.Int("k!")
    d0, d1 = z3.Select(m0.lv[("dom",)], k), z3.Select(m1.lv[("dom",)], k)
    return [("another custom entry is noticed", z3.ForAll([k], z3.Implies(z3.Or(d0 != d1, z3.And(d0, z3.Or(*[a != b for a, b in zip(entry(m0, k), entry(m1, k))]))), clicks(c) > 0)))]


sft = lambda m, **k: Spec(ST + m, use=[CLICK, STD], post=sft_post, frame=frm("mcustom"), **k)
SPECS += [sft("setCustomAs", params=["string"] * 2, name="ScatteringFactorTable::setCustomAs(like)"),
          sft("setCustomAs", params=["string", "string", "double", "double"], name="ScatteringFactorTable::setCustomAs(scaled)"), sft("resetCustom"), sft("resetAll")]

# ---- aggregation --------------------------------------------------------------------------------
from props.C19 import lt, le


def tup(v):
    a, b = [[t for p, t in v.lv.items() if p and p[-1] == x][0] for x in ("first", "second")]
    return a, b


def fld(c, name, cls=""):
    """member of the object or of its base"""
    for k, s in c.this.shape.fields.items():
        if k.split("::")[-1] == name and cls in k:
            return c.this.f(k, s)


def ctick(cls, f="mticker"):
    """the counter of a component (the accessor returns the member, nobody overrides it)"""
    def fn(ex, call):
        return Ctx(ex, call.fd, call.this, call.args, ex.mem).m(f)
    return Custom(N + cls + "::ticker", fn, trusted="returns its own counter")


COMP = [ctick(x) for x in ("PeakWidthModel", "PeakProfile", "ScatteringFactorTable")]
UPD = Spec("diffpy::eventticker::EventTicker::updateFrom", name="EventTicker::updateFrom", frame=lambda c: [c.lv("mtick")], noexcept=True, post=lambda c: [
    ("the newer of the two", (lambda a, b, r: z3.If(lt(a, b), z3.And(r[0] == b[0], r[1] == b[1]), z3.And(r[0] == a[0], r[1] == a[1])))(
        tup(c.old("mtick")), tup(c.ex.read(c.m("mtick", c.args[0]), c.pre)), tup(c.v("mtick"))))])


def comp(c, f):
    """the counter of the component behind the pointer f"""
    v = c.v(f)
    p = pid(v)
    o = p.lv if isinstance(p, PyPtr) else LV("$heap", (("i", p),), c.ex.st.of(v.shape.to))
    return (z3.BoolVal(True) if isinstance(p, PyPtr) else p != 0), tup(c.ex.read(c.m("mticker", o)))


def owner(cls, f):
    return Spec(N + cls + "::ticker", use=COMP + [UPD], frame=lambda c: [fld(c, "mprivateticker", cls)], noexcept=True,
                post=lambda c: [("newer than any change of the component", z3.Implies(comp(c, f)[0], le(comp(c, f)[1], tup(c.r)))),
                                ("newer than any exchange of the component", le(tup(c.old(fld(c, "mprivateticker", cls))), tup(c.r)))])


OWNER = {"mpwmodel": "PeakWidthModelOwner", "msftable": "ScatteringFactorTableOwner"}


def above(*fs):
    def f(c):
        r = tup(c.v("mticker"))
        out = [("the counter of the calculator itself", le(tup(c.old("mticker")), r))]
        for x in fs:
            g, t = comp(c, x)
            out.append(("newer than any change of " + x, z3.Implies(g, le(t, r))))
            if x in OWNER:
                out.append(("newer than any exchange of " + x, le(tup(c.old(fld(c, "mprivateticker", OWNER[x]))), r)))
        return out
    return f


class RefSpec(Spec):
    """its result is the counter of the object itself"""

    def apply(self, ex, call):
        Spec.apply(self, ex, call)
        return Ctx(ex, call.fd, call.this, call.args, ex.mem).m("mticker")


def own(c):
    lv = c.ret
    return [("the counter is the one of the calculator", z3.BoolVal(isinstance(lv, LV) and lv.same(c.m("mticker")) or not isinstance(lv, LV)))]


PWT, SFT = owner("PeakWidthModelOwner", "mpwmodel"), owner("ScatteringFactorTableOwner", "msftable")
DSTK = RefSpec(DS + "ticker", use=[PWT, UPD], post=lambda c: above("mpwmodel")(c) + own(c), frame=lambda c: [c.lv("mticker"), fld(c, "mprivateticker", "PeakWidthModelOwner")])
SPECS += [UPD, PWT, SFT, DSTK,
          RefSpec(DP + "ticker", use=[DSTK, SFT, UPD], post=lambda c: above("mpwmodel", "msftable")(c) + own(c)),
          Spec(PD + "ticker", use=[PWT, SFT, UPD] + COMP, post=lambda c: above("mpwmodel", "msftable", "mpeakprofile")(c) + own(c),
               pre=lambda c: [("a peak profile is always set", pid(c.v("mpeakprofile")) != 0)])]

# ---- remaining setters --------------------------------------------------------------------------
SPECS += [Spec(N + "BondCalculator::filterCone", use=[CLICK], post=lambda c: [("a new filter is noticed", clicks(c) > 0)]),
          Spec(N + "BondCalculator::filterOff", use=[CLICK], post=lambda c: [("the removal of filters is noticed", z3.Implies(
              c.len("mfilter_degrees") != c.olen("mfilter_degrees"), clicks(c) > 0))],
               pre=lambda c: [("a direction for every angle", c.len("mfilter_directions") == c.len("mfilter_degrees"))])]
BASEQ = [x for x in SPECS if x.qn in (DS + "setQmax", DS + "setQstep")]
SPECS += [setter(DP + "setRmin", "mrmin", use=SPECS[:1], frame=("mrlimits_are_cached",)), setter(DP + "setRmax", "mrmax", use=SPECS[1:2] + [QSTEP], frame=("mrlimits_are_cached",)),
          setter(DP + "setQmax", "mqmax", use=BASEQ + [QSTEP]),
          Spec(DP + "setQstep", use=BASEQ + [QSTEP], post=lambda c: cl(lambda c: c.t("mqstep") != c.ot("mqstep"))(c))]

# ---- masks --------------------------------------------------------------------------------------
NOTICED = "a changed mask is noticed"


def noticed(spec, post):
    s = copy.copy(spec)
    s.post = lambda c: [(NOTICED, z3.Implies(post(c), clicks(c) > 0))]
    return s


mall = copy.copy(C03.maskAll)
mall.post = lambda c: [("clicks count up", clicks(c) >= 0), (NOTICED, C03.allpairs(c, lambda s0, s1, i, j: z3.Implies(s0.pair(C03.K(i, j)) != s1.pair(C03.K(i, j)), clicks(c) > 0))),
                       (NOTICED + " (types)", C03.alltypes(c, lambda s0, s1, a, b: z3.Implies(s0.teff(a, b) != s1.teff(a, b), clicks(c) > 0))),
                       (NOTICED + " (sites to come)", C03.allpairs(c, lambda s0, s1, i, j: z3.Implies(s0.eff(i, j) != s1.eff(i, j), clicks(c) > 0)))]
mall.pre = lambda c: C03.State(c).invariant()
SPECS += [mall]
mallc = copy.copy(C03.maskAll)
mallc.post = lambda c: C03.maskAll.post(c) + mall.post(c)


def flags(l):
    """(now, before the loop) of the flags a loop may set"""
    out = []
    for r, p in sorted(l.mods, key=repr):
        t, t0 = l.ex.mem.get(r, {}).get(p), l.pre.get(r, {}).get(p)
        if r.startswith("%") and z3.is_expr(t) and t.sort() == z3.BoolSort() and z3.is_expr(t0):
            out.append((t, t0))
    return out


def spm_loops(c, l):
    out = C03.spm_loops(c, l)
    s, s0 = C03.State(c), C03.State(c, l.pre)
    q = z3.Const("q!cl", C03.keysort(C03.II))
    mods = set(x[1][0].split("::")[-1] for x in l.mods if x[0] == "this" and x[1])
    for t, t0 in flags(l):
        if "minvertpairmask" in mods:
            out += [("a change is flagged", z3.And(z3.Implies(t0, t), z3.Or(t, z3.ForAll([q], z3.Select(s.inv, q) == z3.Select(s0.inv, q), patterns=[z3.Select(s.inv, q)]))))]
        else:
            out += [("a dropped mask is flagged", z3.And(z3.Implies(t0, t), z3.Or(t, z3.ForAll([q], z3.Implies(z3.And(
                z3.Select(s0.sp, q), z3.Not(z3.Select(s.sp, q))), z3.Select(s0.spv, q) == c.at(2)), patterns=[z3.Select(s0.sp, q)]))))]
    return out


def spm_post(c):
    return [(NOTICED, C03.allpairs(c, lambda s0, s1, i, j: z3.Implies(s0.pair(C03.K(i, j)) != s1.pair(C03.K(i, j)), clicks(c) > 0))),
            (NOTICED + " (sites to come)", C03.allpairs(c, lambda s0, s1, i, j: z3.Implies(s0.eff(i, j) != s1.eff(i, j), clicks(c) > 0)))]


setp = copy.copy(C03.setPair)
setp.post, setp.loops, setp.use = spm_post, spm_loops, [CLICK, mallc] + list(C03.setPair.use[2:])
setp.name = "PairQuantity::setPairMask"


def stm_loops(c, l):
    out = C03.stm_loops(c, l)
    s, s0 = C03.State(c), C03.State(c, l.pre)
    q = z3.Const("q!cl", C03.keysort(C03.SS))
    for t, t0 in flags(l):
        out += [("a dropped mask is flagged", z3.And(z3.Implies(t0, t), z3.Or(t, z3.ForAll([q], z3.Implies(z3.And(
            z3.Select(s0.t, q), z3.Not(z3.Select(s.t, q))), z3.Select(s0.tv, q) == c.at(2)), patterns=[z3.Select(s0.t, q)]))))]
    return out


setT = copy.copy(C03.setType)


def stm_post(c):
    a0, b0, m = C03.norm(c.at(0)), C03.norm(c.at(1)), c.at(2)
    A = C03.ALL

    def asked(a, b):
        return z3.If(z3.And(a0 == A, b0 == A), True, z3.If(a0 == A, z3.Or(a == b0, b == b0), z3.If(b0 == A, z3.Or(a == a0, b == a0), z3.Or(
            z3.And(a == a0, b == b0), z3.And(a == b0, b == a0)))))
    no = clicks(c) == 0
    full = C03.stm_post(c)
    return [("clicks count up", clicks(c) >= 0), ("lemma exactly the pairs of this call get the mask", full[0][1]),
            ("lemma pairs of the call had the mask when nothing is noticed", z3.Implies(no, C03.alltypes(c, lambda s0, s1, a, b: z3.Implies(asked(a, b), s0.teff(a, b) == m)))),
            (NOTICED, z3.Implies(no, C03.alltypes(c, lambda s0, s1, a, b: s0.teff(a, b) == s1.teff(a, b))))]


setT.post = stm_post
setT.loops, setT.use = stm_loops, [CLICK, mallc]
setT.pre = lambda c: C03.State(c).tinvariant() + C03.State(c).invariant()
SPECS += [setp, setT]
