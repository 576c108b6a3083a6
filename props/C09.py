"""C09: rejected settings leave the object unchanged"""
from fractions import Fraction
from dv.contract import *
from props.C07 import CLICK, CLICKS, PQ, PD, DS, DP, N, pid, clicks, INIT, RESET, RESET2, QSTEP
from props.C14 import rv
import z3
ID = "C09"
LEVEL = "proof"
HARNESS = "C09.cpp"
TUS = ["srreal/" + t for t in ("PairQuantity.cpp", "PQEvaluator.cpp", "PDFCalculator.cpp", "BaseDebyeSum.cpp", "DebyePDFCalculator.cpp", "BondCalculator.cpp", "OverlapCalculator.cpp",
                               "BVSCalculator.cpp", "PeakWidthModel.cpp", "ScatteringFactorTable.cpp", "PDFEnvelope.cpp", "CrystalStructureAdapter.cpp", "PeakProfile.cpp")]
BOUNDED = ["settings given by name through the attribute interface, evaluator types, lattice parameters, sequences of accepted and rejected values: random histories, the full observable state compared after each rejection"]
ASSUMPTIONS = ["real arithmetic for double: not-a-number is not considered", "an unknown type name raises in createByType (C18)"]
FUZZ = rv(2.0 ** -26)
Is, Bs = z3.IntSort(), z3.BoolSort()
nonneg = lambda c: c.at(0) >= 0
positive = lambda c: c.at(0) > FUZZ
notnull = lambda c: pid(c.a(0)) != 0


def flat(c, lv):
    """nothing at the location differs from the state at entry"""
    return c.ex.eq(c.v(lv), c.old(lv)) if lv is not CLICKS else clicks(c) == 0


def setter(qn, fields, valid, stored, use=(), **k):
    """accepts exactly the valid values, stores what it was given, keeps everything when it rejects"""
    lvs = lambda c: [c.lv(f) for f in fields] + [CLICKS]
    return Spec(qn, use=[CLICK] + list(use), frame=lvs,
                post=lambda c: [("only valid values are accepted", valid(c)), ("the value is stored", stored(c))],
                raises=lambda c, e: [("only invalid values are rejected", z3.Not(valid(c))), ("the object is unchanged when it rejects", z3.And(*[flat(c, lv) for lv in lvs(c)]))], **k)


same = lambda f: (lambda c: c.t(f) == c.at(0))
samep = lambda f: (lambda c: pid(c.v(f)) == pid(c.a(0)))
ANY = lambda c: z3.BoolVal(True)
BIG = rv(1.7976931348623157e308)
PR = [setter(PQ + "setRmin", ["mrmin"], ANY, same("mrmin")), setter(PQ + "setRmax", ["mrmax"], ANY, same("mrmax"))]
for s in PR:
    s.noexcept = True
CR = N + "CrystalStructureAdapter::"
IQ = [INIT, RESET, RESET2]
DQ = [setter(DS + "setQmin", ["mqmin"], nonneg, same("mqmin")), setter(DS + "setQmax", ["mqmax"], nonneg, same("mqmax")), setter(DS + "setQstep", ["mqstep"], positive, same("mqstep"))]
SPECS = PR + DQ + [
    setter(PD + "setQmin", ["mqmin"], nonneg, same("mqmin")),
    setter(PD + "setQmax", ["mqmax"], nonneg, lambda c: c.t("mqmax") == z3.If(c.at(0) > 0, c.at(0), BIG), use=IQ),
    setter(PD + "setRmin", ["mrmin"], nonneg, same("mrmin"), use=PR),
    setter(PD + "setRmax", ["mrmax"], nonneg, same("mrmax"), use=PR + IQ),
    setter(PD + "setRstep", ["mrstep"], positive, same("mrstep"), use=IQ),
    setter(PD + "setMaxExtension", ["mmaxextension"], nonneg, same("mmaxextension")),
    setter(PD + "setPeakProfile", ["mpeakprofile"], notnull, samep("mpeakprofile")),
    setter(PD + "setBaseline", ["mbaseline"], notnull, samep("mbaseline")),
    setter(DP + "setRmin", ["mrmin", "mrlimits_are_cached"], nonneg, same("mrmin"), use=PR),
    setter(DP + "setRmax", ["mrmax", "mrlimits_are_cached"], nonneg, same("mrmax"), use=PR + [QSTEP]),
    setter(DP + "setRstep", ["mrstep", "mrlimits_are_cached"], positive, same("mrstep")),
    setter(DP + "setMaxExtension", ["mmaxextension", "mrlimits_are_cached"], nonneg, same("mmaxextension"), use=[QSTEP]),
    setter(N + "BVSCalculator::setBVParamTable", ["mbvptable"], notnull, samep("mbvptable")),
    setter(N + "BVSCalculator::setValencePrecision", ["mvalenceprecision"], positive, same("mvalenceprecision")),
    setter(N + "OverlapCalculator::setAtomRadiiTable", ["matomradiitable"], notnull, samep("matomradiitable")),
    setter(N + "PeakWidthModelOwner::setPeakWidthModel", ["mpwmodel"], notnull, samep("mpwmodel")),
    setter(N + "ScatteringFactorTableOwner::setScatteringFactorTable", ["msftable"], notnull, samep("msftable")),
    setter(CR + "setSymmetryPrecision", ["msymmetry_precision", "msymmetry_cached"], positive, same("msymmetry_precision")),
]
MADE = z3.Function("made", Is, Is)
GOOD = z3.Function("known_type", Is, Bs)


def byname(cls):
    def fn(ex, call):
        t = ex.load(call.args[0]).lv[()]
        if not ex.decide(GOOD(t)):
            raise ThrowEx("std::invalid_argument")
        v = ex.freshV(ex.st.of(call.fd.ret), "made")
        ex.assume(pid(v) != 0)
        ex.calls.append(("createByType", v))
        return v
    return Custom("diffpy::HasClassRegistry<diffpy::srreal::%s>::createByType" % cls, fn, trusted="raises for unknown types (C18)", name=cls + "::createByType")


known = lambda c: GOOD(c.at(0))


def named(qn, f, cls, use=()):
    return setter(qn, [f], known, lambda c: z3.Or(*[pid(c.v(f)) == pid(v) for n, v in c.ex.calls if n == "createByType"]), use=[byname(cls)] + list(use))


SPECS += [named(PD + "setBaselineByType", "mbaseline", "PDFBaseline"), named(N + "OverlapCalculator::setAtomRadiiTableByType", "matomradiitable", "AtomRadiiTable"),
          named(N + "PeakWidthModelOwner::setPeakWidthModelByType", "mpwmodel", "PeakWidthModel"),
          named(N + "ScatteringFactorTableOwner::setScatteringFactorTableByType", "msftable", "ScatteringFactorTable")]
SPECS += [setter(DP + "setQmin", ["mqminpdf", "mqmin"], nonneg, same("mqminpdf"), use=DQ), setter(DP + "setQmax", ["mqmax"], nonneg, same("mqmax"), use=DQ + [QSTEP]),
          setter(DP + "setQstep", ["mqstep", "moptimumqstep"], positive, lambda c: z3.Not(c.t("moptimumqstep")), use=DQ + [QSTEP])]
NORM = z3.Function("NORM", *([z3.RealSort()] * 4))
BC = N + "BondCalculator::"
fl = ["mfilter_directions", "mfilter_degrees"]


def same_seq(c, f):
    v, o = c.v(f), c.old(f)
    i = z3.Int("i!")
    return z3.And(v.lv[("len",)] == o.lv[("len",)], *[z3.ForAll([i], z3.Select(v.lv[p], i) == z3.Select(o.lv[p], i)) for p in v.lv if p != ("len",)])


def v3(v):
    return [t for p, t in sorted(v.lv.items(), key=repr)]


LONG = lambda c: sum(t * t for t in v3(c.a(0))) > FUZZ * FUZZ
SPECS += [Spec(BC + "filterCone", use=[CLICK], frame=lambda c: [c.lv(f) for f in fl] + [CLICKS],
               post=lambda c: [("lemma directions of some length only", LONG(c)), ("one more filter", z3.And(*[c.len(f) == c.olen(f) + 1 for f in fl])),
                               ("the angle is stored", c.el(fl[1], c.olen(fl[1])) == c.at(1))],
               raises=lambda c, e: [("lemma only directions without length are rejected", z3.Not(LONG(c))), ("the filters stay", z3.And(clicks(c) == 0, *[same_seq(c, f) for f in fl]))])]
EV = N + "PQEvaluatorBasic::"
SPECS += [setter(EV + "setupParallelRun", ["mcpuindex", "mncpu", "mvalue_ticker"], lambda c: c.at(1) >= 1, lambda c: z3.And(c.t("mcpuindex") == c.at(0), c.t("mncpu") == c.at(1)))]

# ---- envelopes by type --------------------------------------------------------------------------
TYPE = z3.Function("type_of", Is, Is)
EO = N + "PDFEnvelopeOwner::"


def etype(ex, call):
    return ex.tmp(V(S, {(): TYPE(ex.id(call.this) if hasattr(ex, "id") else call.this.path[0][1])}), "type")


ETYPE = Custom(N + "PDFEnvelope::type", etype, trusted="a fixed name of the object")
ETYPE2 = Custom("diffpy::HasClassRegistry<diffpy::srreal::PDFEnvelope>::type", etype, trusted="a fixed name of the object")


def env(c, k, old=False):
    m = c.old("menvelope") if old else c.v("menvelope")
    return z3.Select(m.lv[("dom",)], k), z3.Select([t for p, t in m.lv.items() if p and p[0] == "val"][0], k)


def keep(c, *but):
    k = z3.Int("k!")
    a, b = env(c, k, True), env(c, k)
    return z3.ForAll([k], z3.Implies(z3.And(True, *[k != x for x in but]), z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1]))))


def eset(qn, valid, obj, key, use):
    return Spec(qn, use=use, frame=lambda c: [c.lv("menvelope")], post=lambda c: [("only valid envelopes are accepted", valid(c)), ("the envelope is in use", z3.Or(*[
        z3.And(env(c, key(c, o))[0], env(c, key(c, o))[1] == o, keep(c, key(c, o))) for o in obj(c)]))],
        raises=lambda c, e: [("only invalid envelopes are rejected", z3.Not(valid(c))), ("the envelopes stay", keep(c))])


SPECS += [eset(EO + "addEnvelope", notnull, lambda c: [pid(c.a(0))], lambda c, o: TYPE(o), [ETYPE, ETYPE2]),
          eset(EO + "addEnvelopeByType", known, lambda c: [pid(v) for n, v in c.ex.calls if n == "createByType"], lambda c, o: TYPE(o), [ETYPE, ETYPE2, byname("PDFEnvelope")]),
          Spec(EO + "popEnvelopeByType", frame=lambda c: [c.lv("menvelope")], noexcept=True, post=lambda c: [("the envelope is gone, others stay", z3.And(z3.Not(env(c, c.at(0))[0]), keep(c, c.at(0))))]),
          Spec(EO + "getEnvelopeByType", params=["string"], use=[], post=lambda c: [("an envelope in use", z3.And(env(c, c.at(0), True)[0], pid(c.r) == env(c, c.at(0), True)[1])), ("nothing changes", keep(c))],
               raises=lambda c, e: [("only types not in use are rejected", z3.Not(env(c, c.at(0), True)[0])), ("the envelopes stay", keep(c))])]
SPECS[-1].constm = False
