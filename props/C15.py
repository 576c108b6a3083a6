"""C15: structure differences"""
import z3
from dv.contract import *
ID = "C15"
LEVEL = "proof"
HARNESS = "C15.cpp"
TUS = ["srreal/AtomicStructureAdapter.cpp", "srreal/PeriodicStructureAdapter.cpp", "srreal/CrystalStructureAdapter.cpp", "srreal/StructureDifference.cpp", "srreal/StructureAdapter.cpp", "srreal/Lattice.cpp"]
BOUNDED = ["the comparison irrespective of order in AtomicStructureAdapter::diff (sorted vectors of pointers, std::set_symmetric_difference; the comparison site by site is proved): random pairs of structures of any kind, up to 30 atoms with repetitions, against a comparison of multisets"]
ASSUMPTIONS = ["real arithmetic for double (no not-a-number), strings are values with a total order"]
N = "diffpy::srreal::"
SA, AS, PS, CS = [N + x + "StructureAdapter::" for x in ("", "Atomic", "Periodic", "Crystal")]
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
I3 = range(3)
IJ = ["%d%d" % (i, j) for i in I3 for j in I3]
SPECS = []


def atom(c, i):
    a = c.old(i)
    g = lambda nm: next(k for k in a.shape.fields if k.split("::")[-1] == nm)
    lv = a.lv
    t = [lv[(g("atomtype"),)]] + [lv[(g("xyz_cartn"), str(q))] for q in I3] + [lv[(g("occupancy"),)], lv[(g("anisotropy"),)]] + [lv[(g("uij_cartn"), q)] for q in IJ]
    return [z3.If(x, z3.IntVal(1), z3.IntVal(0)) if x.sort() == BS else x for x in t]


def less(c):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(atom(c, 0), atom(c, 1)))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


same = lambda c: z3.And(*[x == y for x, y in zip(atom(c, 0), atom(c, 1))])
SPECS += [Spec(N + "operator<", params=["Atom &", "Atom &"], name="operator<(Atom)", frame=lambda c: [], post=lambda c: [("lexicographic order of all fields", c.rt == less(c))]),
          Spec(N + "operator==", params=["Atom &", "Atom &"], name="operator==(Atom)", frame=lambda c: [], post=lambda c: [("equal when all fields are", c.rt == same(c))]),
          Spec(N + "operator!=", params=["Atom &", "Atom &"], name="operator!=(Atom)", frame=lambda c: [], post=lambda c: [("the opposite of equal", c.rt == z3.Not(same(c)))])]

# ---------------------------------------------------------------- the record of a difference
SQRT = z3.Function("sqrt", RS, RS)
SITES = z3.Function("sites", IS, IS)
me = lambda ex, call: call.this.path[0][1] if call.this.root == "$heap" else z3.IntVal(-1)
COUNT = Custom(SA + "countSites", lambda ex, call: ex.vI(SITES(me(ex, call))), trusted="the structure", name="StructureAdapter::countSites")
i_ = z3.Int("i!d")
D = N + "StructureDifference::"


def pid(v):
    return v.lv[()] if () in v.lv else next(x for p, x in v.lv.items() if p)


num = lambda p: z3.If(p == 0, 0, SITES(p))


def iota(v, n, upto=None):
    m = n if upto is None else upto
    return z3.And(v.lv[("len",)] == n, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < m), z3.Select(v.lv[("el",)], i_) == i_), patterns=[z3.Select(v.lv[("el",)], i_)]))


def made(c):
    p, q = pid(c.old(0)), pid(c.old(1))
    one = z3.And(p != 0, p == q)
    return [("names both structures", z3.And(pid(c.v("stru0")) == p, pid(c.v("stru1")) == q)),
            ("nothing differs from itself", z3.Implies(one, z3.And(c.len("pop0") == 0, c.len("add1") == 0, c.t("diffmethod") == 1))),
            ("all sites of the old structure are removed", z3.Implies(z3.Not(one), iota(c.v("pop0"), num(p)))),
            ("all sites of the new structure are added", z3.Implies(z3.Not(one), iota(c.v("add1"), num(q)))),
            ("not compared", z3.Implies(z3.Not(one), c.t("diffmethod") == 0))]


def filling(c, l):
    p, q = pid(c.old(0)), pid(c.old(1))
    out = []
    ks = [t for nm, t, t0 in l.counters()]
    for nm, n in (("pop0", num(p)), ("add1", num(q))):
        if any(r == c.m(nm).root and p_[:1] == c.m(nm).path[:1] for r, p_ in l.mods):
            out += [("within the sites", z3.And(0 <= ks[0], ks[0] <= n, *[k == ks[0] for k in ks[1:]])), ("numbered so far", iota(c.v(nm), n, ks[0]))]
    return out


SPECS.append(Spec(D + "StructureDifference", params=["StructureAdapter>", "StructureAdapter>"], name="StructureDifference(old, new)", use=[COUNT], frame=None, loops=filling, post=made,
                  pre=lambda c: [("sites are counted", z3.And(SITES(pid(c.v(0))) >= 0, SITES(pid(c.v(1))) >= 0))]))
SPECS += [Spec(D + "StructureDifference", params=[], name="StructureDifference()", frame=None, post=lambda c: [("empty", z3.And(c.len("pop0") == 0, c.len("add1") == 0, c.t("diffmethod") == 0, pid(c.v("stru0")) == 0, pid(c.v("stru1")) == 0))]),
          Spec(D + "allowsfastupdate", use=[COUNT], frame=lambda c: [], post=lambda c: [("decided by the share of removed sites", c.rt == (z3.ToReal(c.len("pop0")) < (1 - SQRT(z3.RealVal("0.5"))) * z3.ToReal(num(pid(c.v("stru0"))))))])]

# ---------------------------------------------------------------- when atoms are compared at all
ME = z3.Int("this_structure")
ATOMIC, LATTICED = z3.Int("comparison_of_atoms"), z3.Int("comparison_in_one_lattice")


def record(ex, call, method):
    s = ex.st.of(call.fd.ret)
    v = ex.freshV(s, "sd")
    k = lambda nm: next(p for p in v.lv if p[0].split("::")[-1] == nm)
    other = pid(ex.load(call.args[0]))
    lv = dict(v.lv)
    lv[k("stru0")], lv[k("stru1")] = ME, other
    lv[k("diffmethod")] = method(other)
    return V(s, lv)


def differ(cls, method, nm):
    return Custom(cls + "diff", lambda ex, call: record(ex, call, method), name=nm, trusted="see the contracts of differences and the bounded comparison")


BASE = differ(SA, lambda o: z3.If(ME == o, z3.IntVal(1), z3.IntVal(0)), "StructureAdapter::diff")
BYATOM = differ(AS, lambda o: ATOMIC, "AtomicStructureAdapter::diff")
BYCELL = differ(PS, lambda o: LATTICED, "PeriodicStructureAdapter::diff")
BASES = {cls: z3.Function("isa:" + cls[:-2], IS, BS) for cls in (PS, CS)}
fld = lambda v, nm: next(x for p, x in v.lv.items() if p[0].split("::")[-1] == nm)


def result(c, agree, cls, compared):
    o = pid(c.old(0))
    isa = z3.And(o != 0, BASES[cls](o))
    return [("names both structures", z3.And(fld(c.r, "stru0") == ME, fld(c.r, "stru1") == o)),
            ("atoms are compared exactly when the structures agree otherwise", fld(c.r, "diffmethod") == z3.If(ME == o, z3.IntVal(1), z3.If(z3.And(isa, agree), compared, z3.IntVal(0))))]


def other(c, *names):
    sh = c.this.shape
    o = LV("$heap", (("i", pid(c.old(0))),), sh)
    lv = o
    for n in names:
        lv = c.m(n, lv)
    return c.old(lv)


def samecell(c):
    a, b = c.old(c.m("mbase", c.m("mlattice"))), other(c, "mlattice", "mbase")
    return z3.And(*[a.lv[(q,)] == b.lv[(q,)] for q in IJ])


SPECS.append(Spec(PS + "diff", use=[BASE, BYATOM], frame=lambda c: [], post=lambda c: result(c, samecell(c), PS, ATOMIC)))


def samesymmetry(c):
    a, b = c.old("msymops"), other(c, "msymops")
    n = a.lv[("len",)]
    el = [(z3.Select(a.lv[p], i_), z3.Select(b.lv[p], i_)) for p in a.lv if p[0] == "el"]
    return z3.And(c.ot("msymmetry_precision") == other(c, "msymmetry_precision").lv[()], n == b.lv[("len",)],
                  z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(*[x == y for x, y in el]))))


SPECS.append(Spec(CS + "diff", use=[BASE, BYCELL], frame=lambda c: [], post=lambda c: result(c, samesymmetry(c), CS, LATTICED)))


def sameop(c):
    a, b = c.old(0), c.old(1)
    return z3.And(*[x == b.lv[p] for p, x in a.lv.items()])


SPECS += [Spec(N + "operator==", params=["SymOpRotTrans &", "SymOpRotTrans &"], name="operator==(SymOpRotTrans)", frame=lambda c: [], post=lambda c: [("equal when rotation and shift are", c.rt == sameop(c))]),
          Spec(N + "operator!=", params=["SymOpRotTrans &", "SymOpRotTrans &"], name="operator!=(SymOpRotTrans)", frame=lambda c: [], post=lambda c: [("the opposite of equal", c.rt == z3.Not(sameop(c)))]),
          Spec(N + "Lattice::operator==", frame=lambda c: [], post=lambda c: [("equal when the bases are", c.rt == z3.And(*[c.old(c.m("mbase")).lv[(q,)] == c.old(c.m("mbase", c.args[0])).lv[(q,)] for q in IJ]))])]

# ---------------------------------------------------------------- comparison site by site
TYPE = z3.Function("dynamic type of", IS, IS)
TID = [Custom("std::type_info::operator" + op, (lambda eq: lambda ex, call: ex.vB((ex.t(call.this) == ex.t(call.args[0])) if eq else (ex.t(call.this) != ex.t(call.args[0]))))(op == "=="),
              name="std::type_info::operator" + op, trusted="comparison of dynamic types") for op in ("==", "!=")]
SIDE = TID + [BASE, Custom(D + "allowsfastupdate", lambda ex, call: ex.vB(z3.BoolVal(True)), name="StructureDifference::allowsfastupdate", trusted="the case that a fast update is possible; the other one is bounded")]
SITED = Spec(AS + "countSites", frame=lambda c: [], post=lambda c: [("sites are the atoms", c.rt == c.len("matoms"))])
SPECS.append(SITED)


def atomset(c):
    """atoms of this structure and of the other one"""
    return c.old("matoms"), other(c, "matoms")


def differ_at(c, i):
    a, b = atomset(c)
    return z3.Not(z3.And(*[z3.Select(a.lv[p], i) == z3.Select(b.lv[p], i) for p in a.lv if p[0] == "el"]))


def gone(c, i):
    return z3.Or(i >= atomset(c)[1].lv[("len",)], differ_at(c, i))


def new(c, i):
    return z3.Or(i >= atomset(c)[0].lv[("len",)], differ_at(c, i))


BEFORE = {nm: z3.Function("differing sites before:" + nm, IS, IS) for nm in ("pop0", "add1")}
TEST = {"pop0": gone, "add1": new}


def listed(c, nm, v, k):
    """the list holds the differing sites below k in order"""
    R, n = BEFORE[nm], v.lv[("len",)]
    el = lambda j: z3.Select(v.lv[("el",)], j)
    return [(nm + ": as many as differ", n == R(k)),
            (nm + ": only sites that differ", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= el(i_), el(i_) < k, TEST[nm](c, el(i_)), R(el(i_)) == i_)), patterns=[el(i_)])),
            (nm + ": every site that differs", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k, TEST[nm](c, i_)), z3.And(0 <= R(i_), R(i_) < n, el(R(i_)) == i_)), patterns=[R(i_)])),
            (nm + ": counted", R(k) >= 0)]


def step(c, k):
    for nm in BEFORE:
        R = BEFORE[nm]
        c.ex.assume(z3.And(R(0) == 0, R(k + 1) == R(k) + z3.If(TEST[nm](c, k), 1, 0)))


def comparing(c, l):
    ks = [t for nm, t, t0 in l.counters() if not nm.endswith(".len")]
    k, (a, b) = ks[0], [x.lv[("len",)] for x in atomset(c)]
    step(c, k)
    out, seen = [("one site at a time", z3.And(k >= 0, *[t == k for t in ks[1:]]))], []
    for nm in BEFORE:
        at = [(r, p[0]) for r, p in l.mods if p and p[0].split("::")[-1] == nm]
        if at:
            r, f = at[0]
            v = V(None, {("len",): l.ex.mem[r][(f, "len")], ("el",): l.ex.mem[r][(f, "el")]})
            out += listed(c, nm, v, k)
            seen.append(nm)
    n = {"pop0": a, "add1": b}
    out += [("within both", k <= z3.If(a < b, a, b))] if len(seen) == 2 else [("past the common sites", z3.And(z3.If(a < b, a, b) <= k, k <= n[seen[0]]))]
    return out


def compared(c):
    o = pid(c.old(0))
    isa = z3.Function("isa:" + AS[:-2], IS, BS)
    alike = z3.And(ME != o, o != 0, isa(o), TYPE(o) == TYPE(-1))
    a, b = [x.lv[("len",)] for x in atomset(c)]
    k = lambda nm: V(None, {p[1:]: x for p, x in c.r.lv.items() if p[0].split("::")[-1] == nm})
    return [("names both structures", z3.And(fld(c.r, "stru0") == ME, fld(c.r, "stru1") == o)),
            ("compared when of one kind", fld(c.r, "diffmethod") == z3.If(z3.Or(ME == o, alike), 1, 0))] + [
            (n, z3.Implies(alike, t)) for nm, m in (("pop0", a), ("add1", b)) for n, t in listed(c, nm, k(nm), m)]


SPECS.append(Spec(AS + "diff", name="AtomicStructureAdapter::diff (side by side)", use=SIDE + SPECS[1:3] + [SITED], frame=lambda c: [], loops=comparing, post=compared,
                  pre=lambda c: [("sizes", z3.And(*[x.lv[("len",)] >= 0 for x in atomset(c)]))]))
