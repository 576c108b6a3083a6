"""C23: wrapped structures"""
import z3
from dv.contract import *
ID = "C23"
LEVEL = "proof"
HARNESS = "C23.cpp"
TUS = ["srreal/NoMetaStructureAdapter.cpp", "srreal/NoSymmetryStructureAdapter.cpp", "srreal/StructureAdapter.cpp", "srreal/EmptyStructureAdapter.cpp"]
BOUNDED = ["end-to-end: random structures with metadata in nested wrappers: sites, totals, bonds, differences, fast updates and saved copies"]
ASSUMPTIONS = ["the wrapped structure answers the same as long as it is not changed"]
N = "diffpy::srreal::"
SA = N + "StructureAdapter::"
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
I3 = range(3)
IJ = ["%d%d" % (i, j) for i in I3 for j in I3]
j_ = z3.Int("j!y")
CNT = z3.Function("sites", IS, IS)
DEN = z3.Function("density", IS, RS)
TYP = z3.Function("type_of", IS, IS, IS)
MUL = z3.Function("multiplicity_of", IS, IS, IS)
OCC = z3.Function("occupancy_of", IS, IS, RS)
ANI = z3.Function("anisotropy_of", IS, IS, BS)
POS = [z3.Function("position_of_%d" % q, IS, IS, RS) for q in I3]
UIJ = {q: z3.Function("tensor_of_" + q, IS, IS, RS) for q in IJ}
GEN = z3.Function("generator_of", IS, IS)
CLN = z3.Function("clone_of", IS, IS)


def me(ex, call):
    return call.this.path[0][1] if call.this.root == "$heap" else z3.IntVal(-1)


def ref(sh, mk):
    def fn(ex, call):
        s = ex.st.of(call.fd.ret)
        s = getattr(s, "to", s)
        v = ex.freshV(s, "site")
        lv = mk(me(ex, call), *[ex.t(a) for a in call.args])
        assert set(lv) == set(v.lv), (lv, v.lv)
        return ex.tmp(V(v.shape, lv), "site")
    return fn


SRCM = [Custom(SA + "countSites", lambda ex, call: ex.vI(CNT(me(ex, call))), name="StructureAdapter::countSites"),
        Custom(SA + "numberDensity", lambda ex, call: ex.vR(DEN(me(ex, call))), name="StructureAdapter::numberDensity"),
        Custom(SA + "siteAtomType", ref(S, lambda p, i: {(): TYP(p, i)}), name="StructureAdapter::siteAtomType"),
        Custom(SA + "siteMultiplicity", lambda ex, call: ex.vI(MUL(me(ex, call), ex.t(call.args[0]))), name="StructureAdapter::siteMultiplicity"),
        Custom(SA + "siteOccupancy", lambda ex, call: ex.vR(OCC(me(ex, call), ex.t(call.args[0]))), name="StructureAdapter::siteOccupancy"),
        Custom(SA + "siteAnisotropy", lambda ex, call: ex.vB(ANI(me(ex, call), ex.t(call.args[0]))), name="StructureAdapter::siteAnisotropy"),
        Custom(SA + "siteCartesianPosition", ref(None, lambda p, i: {(str(q),): POS[q](p, i) for q in I3}), name="StructureAdapter::siteCartesianPosition"),
        Custom(SA + "siteCartesianUij", ref(None, lambda p, i: {(q,): UIJ[q](p, i) for q in IJ}), name="StructureAdapter::siteCartesianUij")]
for s in SRCM:
    s.trusted = "the wrapped structure"


def pid(v):
    return v.lv[()] if () in v.lv else next(x for p, x in v.lv.items() if p)


SRC = lambda c: pid(c.v("msrcstructure"))
WRAPPED = lambda c: [("wraps a structure", SRC(c) != 0)]
SPECS = []


def same(W, f, post):
    SPECS.append(Spec(W + f, use=SRCM, pre=WRAPPED, frame=lambda c: [], post=post))


for W in (N + "NoMetaStructureAdapter::", N + "NoSymmetryStructureAdapter::"):
    same(W, "countSites", lambda c: [("as many sites", c.rt == CNT(SRC(c)))])
    same(W, "siteAtomType", lambda c: [("the same type", c.rt == TYP(SRC(c), c.at(0)))])
    same(W, "siteOccupancy", lambda c: [("the same occupancy", c.rt == OCC(SRC(c), c.at(0)))])
    same(W, "siteAnisotropy", lambda c: [("the same anisotropy", c.rt == ANI(SRC(c), c.at(0)))])
    same(W, "siteCartesianPosition", lambda c: [("the same position", z3.And(*[c.r.lv[(str(q),)] == POS[q](SRC(c), c.at(0)) for q in I3]))])
    same(W, "siteCartesianUij", lambda c: [("the same tensor", z3.And(*[c.r.lv[(q,)] == UIJ[q](SRC(c), c.at(0)) for q in IJ]))])
NM, NS = N + "NoMetaStructureAdapter::", N + "NoSymmetryStructureAdapter::"
same(NM, "numberDensity", lambda c: [("the same density", c.rt == DEN(SRC(c)))])
same(NM, "siteMultiplicity", lambda c: [("the same multiplicity", c.rt == MUL(SRC(c), c.at(0)))])
same(NS, "numberDensity", lambda c: [("no density without a lattice", c.rt == 0)])
SPECS.append(Spec(SA + "siteMultiplicity", frame=lambda c: [], post=lambda c: [("one atom per site (kept by structures without symmetry)", c.rt == 1)]))

# ---------------------------------------------------------------- configuration by the structure
PQC = LV("$configured", (), I)


def pqc(ex, call):
    ok = z3.And(me(ex, call) == ex.ghost["src"], ex.load(call.args[0]).lv[()] == ex.ghost["pq"])
    ex.check("the calculator is configured by the wrapped structure", ok, "precondition")
    ex.write(PQC, ex.vI(ex.load(PQC).lv[()] + 1))
    return V(VOID, {})


CONF = Custom(SA + "customPQConfig", pqc, trusted="the wrapped structure", name="StructureAdapter::customPQConfig")


def told(c):
    c.ex.ghost["src"], c.ex.ghost["pq"] = SRC(c), c.v(0).lv[()]
    return WRAPPED(c)


count = lambda c: c.ex.read(PQC).t - c.ex.read(PQC, c.pre).t
SPECS += [Spec(NM + "customPQConfig", use=SRCM + [CONF], pre=told, frame=lambda c: [], post=lambda c: [("no metadata reach the calculator", count(c) == 0)]),
          Spec(NS + "customPQConfig", use=SRCM + [CONF], pre=told, frame=lambda c: [PQC], post=lambda c: [("metadata are passed on once", count(c) == 1)])]

# ---------------------------------------------------------------- totals
TOT = z3.Function("total_before", IS, IS, RS)
THIS = [Custom(SA + f, fn, name="StructureAdapter::" + f, trusted="the structure itself") for f, fn in (
    ("countSites", lambda ex, call: ex.vI(CNT(0))), ("siteOccupancy", lambda ex, call: ex.vR(OCC(0, ex.t(call.args[0])))), ("siteMultiplicity", lambda ex, call: ex.vI(MUL(0, ex.t(call.args[0])))))]


def tot_loop(c, l):
    cs = l.counters()
    k = [t for nm, t, t0 in cs][0]
    acc = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if l.ex.mem[r][p].sort() == RS]
    c.ex.assume(z3.And(TOT(0, 0) == 0, TOT(0, k + 1) == TOT(0, k) + OCC(0, k) * z3.ToReal(MUL(0, k))))
    return [("within the sites", z3.And(0 <= k, k <= CNT(0))), ("occupancies times multiplicities so far", acc[0] == TOT(0, k))]


SPECS.append(Spec(SA + "totalOccupancy", use=THIS, pre=lambda c: [("sites are counted", CNT(0) >= 0)], frame=lambda c: [], loops=tot_loop, post=lambda c: [("sum of occupancies times multiplicities of the sites", c.rt == TOT(0, CNT(0)))]))
SPECS.append(Spec(SA + "numberDensity", frame=lambda c: [], post=lambda c: [("no density without a lattice", c.rt == 0)]))
SPECS.append(Spec(SA + "siteOccupancy", frame=lambda c: [], post=lambda c: [("fully occupied", c.rt == 1)]))

# ---------------------------------------------------------------- nested wrappers, null pointers, generators


def inside(c, o):
    """what the wrapper at that address wraps"""
    return pid(c.old(c.m("msrcstructure", LV("$heap", (("i", o),), c.this.shape))))


EMPTY = z3.Int("the_empty_structure")
ISA = {W: z3.Function("isa:" + W[:-2], IS, BS) for W in (NM, NS)}
for W in (NM, NS):
    null = Custom(N + "emptyStructureAdapter", lambda ex, call: V(ex.st.of(call.fd.ret), {(): EMPTY}), trusted="the structure without sites", name="emptyStructureAdapter")

    def wraps(c, W=W):
        a = pid(c.old(0))
        inner = z3.If(z3.And(a != 0, ISA[W](a)), inside(c, a), a)
        return [("wraps the structure, the one wrapped already when of the same kind, or the empty one", SRC(c) == z3.If(inner == 0, EMPTY, inner))]
    SPECS.append(Spec(W + W.split("::")[-2], params=["StructureAdapter>"], use=[null], frame=None, post=wraps))
    for const in (False, True):
        g = Spec(W + "getSourceStructure", name=W.split("::")[-2] + "::getSourceStructure" + (" const" if const else ""), frame=lambda c: [], post=lambda c: [("the wrapped structure", pid(c.r) == SRC(c))])
        g.constm = const
        SPECS.append(g)
    copied = Custom(SA + "clone", lambda ex, call: V(ex.st.of(call.fd.ret), {(): CLN(me(ex, call))}), trusted="the wrapped structure", name="StructureAdapter::clone")

    def cloned(c):
        o = c.r.lv[()].lv
        return [("wraps a copy of the wrapped structure, or nothing", pid(c.ex.load(c.m("msrcstructure", o))) == z3.If(SRC(c) == 0, z3.IntVal(0), CLN(SRC(c))))]
    SPECS.append(Spec(W + "clone", use=[copied], frame=lambda c: [], post=cloned))
    SPECS.append(Spec(W + "createBondGenerator", use=[Custom(SA + "createBondGenerator", lambda ex, call: V(ex.st.of(call.fd.ret), {(): GEN(me(ex, call))}), trusted="the wrapped structure", name="StructureAdapter::createBondGenerator")],
                      pre=WRAPPED, frame=lambda c: [], post=lambda c: [("the generator of the wrapped structure", pid(c.r) == GEN(SRC(c)))]) if W == NM else None)
SPECS = [s for s in SPECS if s]

# ---------------------------------------------------------------- largest displacement
big = lambda p, i: [UIJ["%d%d" % (q, q)](p, i) for q in I3]


def uii(c, l, p):
    cs = l.counters()
    acc = [l.ex.mem[r][q] for r, q in sorted(l.mods, key=repr) if l.ex.mem[r][q].sort() == RS]
    return [t for nm, t, t0 in cs][0], acc[0]


def umax(p, n, x):
    return [("none is larger", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.And(*[u <= x for u in big(p, j_)])), patterns=[UIJ["00"](p, j_)])),
            ("zero or one of them", z3.Or(x == 0, z3.Exists([j_], z3.And(0 <= j_, j_ < n, z3.Or(*[u == x for u in big(p, j_)]))))), ("not negative", x >= 0)]


def uloop(c, l):
    k, acc = uii(c, l, None)
    p = pid(c.old(0))
    return [("within the sites", z3.And(0 <= k, k <= CNT(p)))] + umax(p, k, acc)


SPECS.append(Spec(N + "maxUii", use=SRCM, pre=lambda c: [("sites are counted", CNT(pid(c.v(0))) >= 0)], frame=lambda c: [], loops=uloop,
                  post=lambda c: [(n, z3.If(pid(c.old(0)) == 0, c.rt == 0, t)) for n, t in umax(pid(c.old(0)), CNT(pid(c.old(0))), c.rt)]))

# ---------------------------------------------------------------- differences
ME = z3.Int("this_structure")
HOW = z3.Function("comparison_of", IS, IS, IS)
OURS = z3.Function("own_pointer", IS, IS)


def differ(W):
    def fn(ex, call):
        s = ex.st.of(call.fd.ret)
        v = ex.freshV(s, "sd")
        k = lambda nm: next(p for p in v.lv if p[0].split("::")[-1] == nm)
        p, q = me(ex, call), pid(ex.load(call.args[0]))
        p = ME if p.eq(z3.IntVal(-1)) else p
        lv = dict(v.lv)
        lv[k("stru0")], lv[k("stru1")], lv[k("diffmethod")] = p, q, HOW(p, q)
        return V(s, lv)
    return Custom(SA + "diff", fn, name="StructureAdapter::diff", trusted="see C15")


fld = lambda v, nm: next(x for p, x in v.lv.items() if p[0].split("::")[-1] == nm)
for W in (NM, NS):

    def differs(c, W=W):
        o = pid(c.old(0))
        both = z3.And(ME != o, o != 0, ISA[W](o))
        return [("names the wrapped structures", z3.And(fld(c.r, "stru0") == ME, fld(c.r, "stru1") == o)),
                ("compares what is wrapped when both are wrapped", fld(c.r, "diffmethod") == z3.If(both, HOW(SRC(c), inside(c, o)), HOW(ME, o)))]
    own = Custom("boost::enable_shared_from_this<diffpy::srreal::StructureAdapter>::shared_from_this", lambda ex, call: V(ex.st.of(call.fd.ret), {(): ME}), name="shared_from_this", trusted="the pointer that owns the object")
    SPECS.append(Spec(W + "diff", use=[differ(W), own], pre=WRAPPED, frame=lambda c: [], post=differs))

# ---------------------------------------------------------------- factories
EMPTYC = Custom(N + "emptyStructureAdapter", lambda ex, call: V(ex.st.of(call.fd.ret), {(): EMPTY}), trusted="the structure without sites", name="emptyStructureAdapter")
for W, fn in ((NM, "nometa"), (NS, "nosymmetry")):
    def made(c, W=W):
        a, r = pid(c.old(0)), pid(c.r)
        isa = z3.And(a != 0, ISA[W](a))
        if z3.is_expr(r):
            return [("a wrapper is returned as it is", z3.And(isa, r == a))]
        return [("anything else is wrapped", z3.And(z3.Not(isa), pid(c.ex.load(c.m("msrcstructure", r.lv))) == z3.If(a == 0, EMPTY, a)))]
    SPECS.append(Spec(N + fn, use=[EMPTYC], frame=lambda c: [], post=made))
