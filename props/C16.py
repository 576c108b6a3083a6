"""C16: symmetry expansion of the asymmetric unit"""
import z3
from dv.contract import *
from dv.shapes import M3
ID = "C16"
LEVEL = "proof"
HARNESS = "C16.cpp"
TUS = ["srreal/CrystalStructureAdapter.cpp", "srreal/PeriodicStructureAdapter.cpp", "srreal/AtomicStructureAdapter.cpp", "srreal/Lattice.cpp"]
BOUNDED = ["end-to-end: random cells, lists of operations, sites and tolerances with histories of edits against classes of images by brute force"]
ASSUMPTIONS = ["products of matrices and vectors, lattice norm and unit cell reduction as proved for C06; real arithmetic for double",
               "images within the tolerance of a common position are close to each other (no chains of images)"]
N = "diffpy::srreal::"
R3N = N + "R3::"
CA = N + "CrystalStructureAdapter::"
LA = N + "Lattice::"
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
D3, I3 = range(3), range(3)
IJ = ["%d%d" % (i, j) for i in I3 for j in I3]
i_, j_, k_ = z3.Ints("i!y j!y k!y")
MV = [z3.Function("matrix_times_vector_%d" % i, *([RS] * 13)) for i in I3]
PR = {q: z3.Function("matrix_product_" + q, *([RS] * 19)) for q in IJ}
NORM = z3.Function("lattice_norm", RS, RS, RS, RS)
UCV = [z3.Function("in_unit_cell_%d" % i, RS, RS, RS, RS) for i in I3]
WD = z3.Function("distance_modulo_lattice", *([RS] * 7))
fal = lambda vs, f, p: z3.ForAll(vs, f, patterns=[p])


def v3(v):
    return [v.lv[(str(i),)] for i in I3]


def m9(v):
    return [v.lv[(q,)] for q in IJ]


def out(ex, call, lv, what):
    sh = ex.st.of(call.fd.ret)
    sh = getattr(sh, "to", sh)
    v = ex.freshV(sh, what)
    v = V(v.shape, {**v.lv, **lv})
    return ex.tmp(v, what) if call.fd.ret.s.rstrip().endswith("&") else v


def mxv(ex, call):
    A, u = (ex.load(a) for a in call.args)
    return out(ex, call, {(str(i),): MV[i](*m9(A), *v3(u)) for i in I3}, "mxv")


def prod(ex, call):
    """entries of a product of two matrices, by name"""
    A, B = (ex.load(a) for a in call.args)
    return V(M3, {(q,): PR[q](*m9(A), *m9(B)) for q in IJ})


R3 = [Custom("boost::numeric::ublas::prod", prod, trusted="ublas", name="prod"), Custom(R3N + "mxvecproduct", mxv, trusted="C06", name="R3::mxvecproduct")]
LAT = [Custom(LA + "norm", lambda ex, call: ex.vR(NORM(*v3(ex.load(call.args[0])))), trusted="C06", name="Lattice::norm"),
       Custom(LA + "ucvFractional", lambda ex, call: out(ex, call, {(str(i),): UCV[i](*v3(ex.load(call.args[0]))) for i in I3}, "ucv"), trusted="C06", name="Lattice::ucvFractional")]
ROUND = [Custom(q, lambda ex, call: ex.vR(RND(ex.t(call.args[0]))), trusted="C library", name="round") for q in ("round", "std::round")]
LAT += ROUND
AT = "Atom::"
XYZ = lambda v, i, pre=("el",): [z3.Select(v.lv[pre + (AT + "xyz_cartn", str(q))], i) for q in I3]


RND = z3.Function("nearest_integer", RS, RS)
rnd = lambda x: RND(x)


def wr(x):
    return x - rnd(x)


ab = z3.Reals("a0!w a1!w a2!w b0!w b1!w b2!w")
WDEF = lambda: [fal(ab, WD(*ab) == NORM(*[wr(ab[q] - ab[3 + q]) for q in I3]), WD(*ab))]
EPS = lambda c: c.t("msymmetry_precision")


def fe_post(c):
    e, a, r = c.v(0), c.v(1), c.rt
    ax = [a.lv[(AT + "xyz_cartn", str(q))] for q in I3]
    n = e.lv[("len",)]
    near = lambda j: WD(*XYZ(e, j), *ax) <= EPS(c)
    far = lambda hi: z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < hi), z3.Not(near(j_))), patterns=[z3.Select(e.lv[("el", AT + "xyz_cartn", "0")], j_)])
    return [("one of the sites or none", z3.And(-1 <= r, r < n)), ("no site is equal", z3.Implies(r == -1, far(n))), ("the first equal site", z3.Implies(r >= 0, z3.And(near(r), far(r))))]


def fe_loop(c, l):
    e, a = c.v(0), c.v(1)
    ax = [a.lv[(AT + "xyz_cartn", str(q))] for q in I3]
    idx = [l.ex.mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"][0]
    n = e.lv[("len",)]
    return [("within the sites", z3.And(0 <= idx, idx <= n)), ("earlier sites differ", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < idx), z3.Not(WD(*XYZ(e, j_), *ax) <= EPS(c))),
             patterns=[z3.Select(e.lv[("el", AT + "xyz_cartn", "0")], j_)]))]


FE = Spec(CA + "findEqualPosition", use=LAT, post=fe_post, frame=lambda c: [], axioms=WDEF, loops=fe_loop)
SPECS = [FE]

# ---------------------------------------------------------------- expansion of one atom
NEWS = z3.Function("op_gives_new_site", IS, BS)
CNTN = z3.Function("sites_before_op", IS, IS)
LEAD = z3.Function("first_op_of_site", IS, IS)
SITE = z3.Function("site_of_op", IS, IS)
SUMS = [z3.Function("sum_of_images_%d" % q, IS, IS, RS) for q in I3]
CN = z3.Function("count_of_images", IS, IS, IS)
IM = [z3.Function("image_%d" % q, IS, RS) for q in I3]
UT = {q: z3.Function("rotated_tensor_" + q, IS, RS) for q in IJ}
im = lambda k: [IM[q](k) for q in I3]


def ops(c):
    return c.v("msymops")


NOP = lambda c: ops(c).lv[("len",)]
RK = lambda c, k: [z3.Select(ops(c).lv[("el", "SymOpRotTrans::R", q)], k) for q in IJ]
TK = lambda c, k: [z3.Select(ops(c).lv[("el", "SymOpRotTrans::t", str(q))], k) for q in I3]
A0 = lambda c: [c.v(0).lv[(AT + "xyz_cartn", str(q))] for q in I3]
U0 = lambda c: [c.v(0).lv[(AT + "uij_cartn", q)] for q in IJ]


def imgdef(c, k):
    R, t = RK(c, k), TK(c, k)
    tr = [R[IJ.index(q[::-1])] for q in IJ]
    up = [PR[q](*U0(c), *tr) for q in IJ]
    u = {q: PR[q](*R, *up) for q in IJ}
    return z3.And(*[IM[q](k) == MV[q](*R, *A0(c)) + t[q] for q in I3], *[UT[q](k) == u[q] for q in IJ])


def expstep(c, k):
    """what an operation adds: a new site when its image is apart from every site so far, otherwise to the first site it coincides with"""
    e = EPS(c)
    near = lambda i: WD(*im(i), *im(k)) <= e
    s = SITE(k)
    same = lambda i: z3.And(0 <= i, i < k, NEWS(i))
    return z3.And(imgdef(c, k), NEWS(k) == z3.ForAll([i_], z3.Implies(same(i_), z3.Not(near(i_))), patterns=[NEWS(i_)]),
                  CNTN(k + 1) == CNTN(k) + z3.If(NEWS(k), 1, 0), z3.Implies(NEWS(k), z3.And(LEAD(CNTN(k)) == k, s == CNTN(k))),
                  z3.Implies(z3.Not(NEWS(k)), z3.And(0 <= s, s < CNTN(k), near(LEAD(s)), z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < s), z3.Not(near(LEAD(j_)))), patterns=[LEAD(j_)]))),
                  fal([j_], CN(k + 1, j_) == CN(k, j_) + z3.If(j_ == s, 1, 0), CN(k + 1, j_)),
                  *[fal([j_], SUMS[q](k + 1, j_) == SUMS[q](k, j_) + z3.If(j_ == s, IM[q](LEAD(s)) + wr(IM[q](k) - IM[q](LEAD(s))), 0), SUMS[q](k + 1, j_)) for q in I3])


base = lambda: z3.And(CNTN(0) == 0, fal([j_], CN(0, j_) == 0, CN(0, j_)), *[fal([j_], SUMS[q](0, j_) == 0, SUMS[q](0, j_)) for q in I3])
EQ = lambda mem, nm: [r for r in sorted(mem) if r.startswith("%" + nm)]


def lsite(e, j, c):
    a = c.v(0)
    rest = [p for p in a.lv if p[0] not in (AT + "xyz_cartn", AT + "uij_cartn")]
    return [z3.Select(e[("el",) + p], j) == a.lv[p] for p in rest]


def tensors(e, j, f):
    return [z3.Select(e[("el", AT + "uij_cartn", q)], j) == f(q) for q in IJ]


def local(mem, nm):
    r = EQ(mem, nm)
    return mem[r[0]] if r else None


def ea_loop(c, l):
    mem = l.ex.mem
    e, s, d = (local(mem, x) for x in ("eqsites", "eqsumpos", "eqduplicity"))
    pos = lambda j: [z3.Select(e[("el", AT + "xyz_cartn", str(q))], j) for q in I3]
    rng = lambda j: z3.And(0 <= j, j < e[("len",)])
    sm = lambda q, j: z3.Select(s[("el", str(q))], j)
    idx = [mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]
    trg = e[("el", AT + "xyz_cartn", "0")]
    if len(idx) == 1:
        k = idx[0]
        c.ex.assume(base())
        c.ex.assume(expstep(c, k))
        n = k
    else:
        e0 = local(l.pre, "eqsites")
        i, n = idx[0], e[("len",)]
        return [("together", z3.And(0 <= i, i <= n, *[x == i for x in idx])), ("averaged so far", z3.ForAll([j_], z3.Implies(rng(j_), z3.And(*[z3.Select(e[("el", AT + "xyz_cartn", str(q))], j_) == z3.If(j_ < i,
                UCV[q](*mean(s, d, j_)), z3.Select(e0[("el", AT + "xyz_cartn", str(q))], j_)) for q in I3])), patterns=[z3.Select(trg, j_)]))]
    q_ = z3.Select(trg, j_)
    every = lambda f, p=q_: z3.ForAll([j_], z3.Implies(rng(j_), f), patterns=[p])
    out = [("within the operations", z3.And(0 <= k, k <= NOP(c))), ("a site per operation that gives a new one", e[("len",)] == CNTN(n)), ("as many sums as sites", z3.And(s[("len",)] == e[("len",)], d[("len",)] == e[("len",)])),
           ("sites are counted", z3.And(CNTN(n) >= 0, CNTN(n) <= n, z3.Implies(n > 0, CNTN(n) > 0))),
           ("first operations of the sites", every(z3.And(0 <= LEAD(j_), LEAD(j_) < n, NEWS(LEAD(j_)), CNTN(LEAD(j_)) == j_), LEAD(j_))),
           ("sites of the operations", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n, NEWS(i_)), z3.And(0 <= CNTN(i_), CNTN(i_) < CNTN(n), LEAD(CNTN(i_)) == i_)), patterns=[NEWS(i_)])),
           ("positions of the sites", every(z3.And(*[a == IM[q](LEAD(j_)) for q, a in zip(I3, pos(j_))])))]
    out += [("rotated tensors " + q, every(x, z3.Select(e[("el", AT + "uij_cartn", q)], j_))) for q, x in zip(IJ, tensors(e, j_, lambda q: UT[q](LEAD(j_))))]
    out += [("the rest is that of the atom", every(z3.And(*lsite(e, j_, c)))),
            ("sums of the images", every(z3.And(z3.Select(d[("el",)], j_) == CN(n, j_), CN(n, j_) >= 1, *[sm(q, j_) == SUMS[q](n, j_) for q in I3]))),
            ("no images beyond the sites", z3.ForAll([j_], z3.Implies(j_ >= CNTN(n), z3.And(CN(n, j_) == 0, *[SUMS[q](n, j_) == 0 for q in I3])), patterns=[CN(n, j_)]))]
    return out


def mean(s, d, j):
    return [z3.Select(s[("el", str(q))], j) / z3.ToReal(z3.Select(d[("el",)], j)) for q in I3]


def ea_post(c):
    e, n = c.r.lv, NOP(c)
    r = z3.And(0 <= j_, j_ < e[("len",)])
    el = lambda p: z3.Select(e[("el",) + p], j_)
    every = lambda cond, f, p: z3.Implies(cond, z3.ForAll([j_], z3.Implies(r, f), patterns=[p]))
    some, none = n > 0, n == 0
    x0 = el((AT + "xyz_cartn", "0"))
    cn = z3.ToReal(CN(n, j_))
    out = [("as many sites as operations that give one apart from the earlier ones", z3.Implies(some, e[("len",)] == CNTN(n))),
           ("each site comes from a different operation", every(some, z3.And(0 <= LEAD(j_), LEAD(j_) < n, NEWS(LEAD(j_)), CNTN(LEAD(j_)) == j_), LEAD(j_))),
           ("mean of the coinciding images, in the unit cell", every(some, z3.And(CN(n, j_) >= 1, *[el((AT + "xyz_cartn", str(q))) == UCV[q](*[SUMS[w](n, j_) / cn for w in I3]) for q in I3]), x0)),
           ("the atom itself without operations", z3.Implies(none, z3.And(e[("len",)] == 1, *[z3.Select(e[("el", AT + "xyz_cartn", str(q))], 0) == UCV[q](*[A0(c)[w] / z3.RealVal(1) for w in I3]) for q in I3],
            *[z3.Select(e[("el", AT + "uij_cartn", q)], 0) == u for q, u in zip(IJ, U0(c))]))),
           ("type, occupancy and anisotropy stay", z3.ForAll([j_], z3.Implies(r, z3.And(*lsite(e, j_, c))), patterns=[x0]))]
    return out + [("rotated tensors " + q, every(some, el((AT + "uij_cartn", q)) == UT[q](LEAD(j_)), el((AT + "uij_cartn", q)))) for q in IJ]


EA = Spec(CA + "expandLatticeAtom", use=[FE] + LAT + R3, axioms=lambda: [], loops=ea_loop, frame=lambda c: [], autoinv=False, T=20, post=ea_post)
SPECS.append(EA)

# ---------------------------------------------------------------- the cache of images
CNT = z3.Int("count_of_sites")
COUNT = [Custom(N + x + "StructureAdapter::countSites", lambda ex, call: ex.vI(CNT), trusted="number of atoms", name="countSites") for x in ("", "Atomic")]
FRC = [z3.Function("fractional_%d" % q, RS, RS, RS, RS) for q in I3]
CRT = [z3.Function("cartesian_%d" % q, RS, RS, RS, RS) for q in I3]
NEXP = z3.Function("number_of_images", RS, RS, RS, IS)
AR = z3.ArraySort(IS, RS)
EXP = [z3.Function("image_positions_%d" % q, RS, RS, RS, AR) for q in I3]


def conv(f):
    def fn(ex, call):
        lv = call.args[0]
        a = ex.load(lv)
        x = [a.lv[(AT + "xyz_cartn", str(q))] for q in I3]
        ex.write(lv, V(a.shape, {**a.lv, **{(AT + "xyz_cartn", str(q)): f[q](*x) for q in I3}}))
        return V(VOID, {})
    return fn


def expand(ex, call):
    a = ex.load(call.args[0])
    x = [a.lv[(AT + "xyz_cartn", str(q))] for q in I3]
    v = ex.freshV(ex.st.of(call.fd.ret), "images")
    lv = {**v.lv, ("len",): NEXP(*x), **{("el", AT + "xyz_cartn", str(q)): EXP[q](*x) for q in I3}}
    ex.assume(NEXP(*x) >= 1)
    return V(v.shape, lv)


PER = N + "PeriodicStructureAdapter::"
CONV = [Custom(PER + "toFractional", conv(FRC), trusted="C06", name="toFractional"), Custom(PER + "toCartesian", conv(CRT), trusted="C06", name="toCartesian"),
        Custom(CA + "expandLatticeAtom", expand, trusted="its own contract above", name="expandLatticeAtom")]
MS = ("CrystalStructureAdapter::msymatoms",)
SRC = lambda c: c.old("matoms")
SX = lambda c, j: XYZ(SRC(c), j)
FX = lambda c, j: [FRC[q](*SX(c, j)) for q in I3]


def images(c, get, j, lo=None):
    """element j of the images holds the expansion of site j, converted back (the first lo of them while that goes on)"""
    f = FX(c, j)
    ln, x = get(("el", "len")), [get(("el", "el", AT + "xyz_cartn", str(q))) for q in I3]
    at = [z3.Select(z3.Select(x[q], j), k_) for q in I3]
    raw = [z3.Select(EXP[q](*f), k_) for q in I3]
    want = [CRT[q](*raw) for q in I3]
    if lo is not None:
        want = [z3.If(k_ < lo, w, r) for w, r in zip(want, raw)]
    return z3.And(z3.Select(ln, j) == NEXP(*f), z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < NEXP(*f)), z3.And(*[a == w for a, w in zip(at, want)])), patterns=[at[0]]))


def position(mem, nm):
    r = [r for r in sorted(mem) if r.startswith("%" + nm) and ("idx",) in mem[r]]
    return mem[r[0]][("idx",)]


def us_loop(c, l):
    mem = l.ex.mem
    mods = {p for r, p in l.mods if r == "this"}
    roots = {r for r, p in l.mods}
    n = SRC(c).lv[("len",)]
    get = lambda p, m=None: (m or mem)["this"][MS + p]
    idx = [mem[r][p] for r, p in sorted(l.mods, key=repr) if p and p[-1] == "idx"]
    lc = local(mem, "lcatoms")
    lx = lambda j: [z3.Select(lc[("el", AT + "xyz_cartn", str(q))], j) for q in I3]
    if any(r.startswith("%lcatoms") for r in roots):
        i = idx[0]
        return [("within the sites", z3.And(0 <= i, i <= n, lc[("len",)] == n)), ("fractional so far", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.And(*[a == z3.If(j_ < i, f, x) for a, f, x in zip(lx(j_), FX(c, j_), SX(c, j_))])),
                                                                                                        patterns=[z3.Select(lc[("el", AT + "xyz_cartn", "0")], j_)]))]
    if any(p == MS + ("el", "len") for p in mods):
        i = idx[0]
        return [("within the sites", z3.And(0 <= i, i <= n, *[x == i for x in idx])), ("as many as sites", get(("len",)) == n), ("expanded so far", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < i), images(c, get, j_)), patterns=[z3.Select(get(("el", "len")), j_)]))]
    if mods:
        i, a = position(mem, "saii"), idx[0]
        same = [z3.Select(get(("el", "el", AT + "xyz_cartn", str(q))), j_) == z3.Select(get(("el", "el", AT + "xyz_cartn", str(q)), l.pre), j_) for q in I3]
        return [("within the images", z3.And(0 <= a, a <= z3.Select(get(("el", "len")), i))), ("converted so far", images(c, get, i, a)),
                ("images of other sites stay", z3.ForAll([j_], z3.Implies(j_ != i, z3.And(*same)), patterns=[z3.Select(get(("el", "el", AT + "xyz_cartn", "0")), j_)]))]
    return []


BASE = lambda c, old=False: [(c.old if old else c.v)("mlattice").lv[p] for p in sorted(c.v("mlattice").lv) if p[0] == "Lattice::mbase"]
SRCP = lambda v: sorted(p for p in v.lv if p[0] == "el")


def sameatom(c, j):
    """the atom kept at index j is the site j now"""
    k, m = c.v("msymsource"), c.v("matoms")
    return z3.And(*[z3.Select(k.lv[p], j) == z3.Select(m.lv[p], j) for p in SRCP(m)])


def current(c, j):
    return images(c, lambda p: c.v("msymatoms").lv[p], j)


def us_post(c):
    v, n = c.v("msymatoms"), SRC(c).lv[("len",)]
    rng = z3.And(0 <= j_, j_ < n)
    return [("now cached", c.t("msymmetry_cached")), ("images of every site", z3.And(v.lv[("len",)] == n, z3.ForAll([j_], z3.Implies(rng, current(c, j_)), patterns=[z3.Select(v.lv[("el", "len")], j_)]))),
            ("for the sites there are", z3.And(c.len("msymsource") == n, z3.ForAll([j_], z3.Implies(rng, sameatom(c, j_)), patterns=[z3.Select(c.v("msymsource").lv[("el", AT + "xyz_cartn", "0")], j_)]))),
            ("for the lattice there is", z3.And(*[a == b for a, b in zip(m9(c.v("msymbase")), BASE(c))]))]


US = Spec(CA + "updateSymmetryPositions", use=CONV, post=us_post, loops=us_loop, frame=lambda c: [c.lv(x) for x in ("msymatoms", "msymmetry_cached", "msymsource", "msymbase")])
SPECS += [US]


# ---------------------------------------------------------------- images and multiplicities of a site
MSIZE = lambda c: SRC(c).lv[("len",)]
EQUIV = lambda c: z3.And(c.len("msymatoms") == MSIZE(c), c.len("msymsource") == MSIZE(c))


def valid(c, j):
    return z3.And(c.t("msymmetry_cached"), EQUIV(c), sameatom(c, j), *[a == b for a, b in zip(m9(c.v("msymbase")), BASE(c))])


def index(c):
    return [("index of a site", z3.And(0 <= c.at(0), c.at(0) < MSIZE(c)))]


def cinv(c):
    """what is cached for an unchanged site and lattice are its images with the operations and the tolerance in use"""
    return [("cached images are those of the site they were made for", z3.Implies(valid(c, c.at(0)), current(c, c.at(0))))]


ISC = Spec(CA + "isSymmetryCached", pre=index, frame=lambda c: [c.lv("msymmetry_cached")], post=lambda c: [
    ("only for an unchanged site and lattice", c.rt == z3.And(c.ot("msymmetry_cached"), EQUIV(c), sameatom(c, c.at(0)), *[a == b for a, b in zip(m9(c.v("msymbase")), BASE(c))])), ("kept in the flag", c.t("msymmetry_cached") == c.rt)])
USEC = [ISC, US] + CONV
CF = lambda c: [c.lv(x) for x in ("msymatoms", "msymmetry_cached", "msymsource", "msymbase")]
SPECS += [ISC, Spec(CA + "siteMultiplicity", use=USEC, pre=lambda c: index(c) + cinv(c), frame=CF, post=lambda c: [("number of images of the site", c.rt == NEXP(*FX(c, c.at(0))))]),
          Spec(CA + "getEquivalentAtoms", use=USEC, pre=lambda c: index(c) + cinv(c), frame=CF, post=lambda c: [("number of images", c.r.lv[("len",)] == NEXP(*FX(c, c.at(0)))),
               ("images of the site", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < c.r.lv[("len",)]), z3.And(*[a == CRT[q](*[z3.Select(EXP[w](*FX(c, c.at(0))), k_) for w in I3]) for q, a in zip(I3, XYZ(c.r, k_))])), patterns=[XYZ(c.r, k_)[0]]))])]

# ---------------------------------------------------------------- operations and tolerance
OPS = lambda c, old=False: (c.old if old else c.v)("msymops")


def appended(c, R, t):
    v, o = OPS(c), OPS(c, True)
    n = o.lv[("len",)]
    ps = [p for p in sorted(v.lv) if p[0] == "el"]
    new = {**{("el", "SymOpRotTrans::R", q): R[i] for i, q in enumerate(IJ)}, **{("el", "SymOpRotTrans::t", str(q)): t[q] for q in I3}}
    return [("one more operation", v.lv[("len",)] == n + 1), ("earlier operations stay", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(*[z3.Select(v.lv[p], i_) == z3.Select(o.lv[p], i_) for p in ps])))),
            ("the operation is the last one", z3.And(*[z3.Select(v.lv[p], n) == new[p] for p in ps])), ("images are stale", z3.Not(c.t("msymmetry_cached")))]


OF = lambda c: [c.lv("msymops"), c.lv("msymmetry_cached")]
ADD = Spec(CA + "addSymOp", params=["SymOpRotTrans"], name="addSymOp(op)", frame=OF, post=lambda c: appended(c, [c.v(0).lv[("SymOpRotTrans::R", q)] for q in IJ], [c.v(0).lv[("SymOpRotTrans::t", str(q))] for q in I3]))
SPECS += [ADD, Spec(CA + "addSymOp", params=["R3::Matrix", "R3::Vector"], name="addSymOp(R, t)", use=[ADD], frame=OF, post=lambda c: appended(c, m9(c.v(0)), v3(c.v(1)))),
          Spec(CA + "clearSymOps", frame=OF, post=lambda c: [("no operations", c.len("msymops") == 0), ("images are stale", z3.Not(c.t("msymmetry_cached")))]),
          Spec(CA + "countSymOps", frame=lambda c: [], post=lambda c: [("number of operations", c.rt == c.len("msymops"))]),
          Spec(CA + "getSymOp", frame=lambda c: [], pre=lambda c: [("index of an operation", z3.And(0 <= c.at(0), c.at(0) < c.len("msymops")))],
               post=lambda c: [("the operation at the index", z3.And(*[c.r.lv[p[1:]] == z3.Select(OPS(c).lv[p], c.at(0)) for p in OPS(c).lv if p[0] == "el"]))]),
          Spec(CA + "getSymmetryPrecision", frame=lambda c: [], post=lambda c: [("what was set", c.rt == EPS(c))])]
SPECS += [Spec(CA + "setSymmetryPrecision", pre=lambda c: [], frame=lambda c: [c.lv("msymmetry_precision"), c.lv("msymmetry_cached")],
               post=lambda c: [("stored", EPS(c) == c.at(0)), ("positive", EPS(c) > 0), ("images are stale after a change", z3.Or(c.ot("msymmetry_precision") == c.at(0), z3.Not(c.t("msymmetry_cached")))),
                               ("never less stale", z3.Implies(c.t("msymmetry_cached"), c.ot("msymmetry_cached")))],
               raises=lambda c, e: [("only for a tolerance that is not positive", c.at(0) <= z3.RealVal("1/1000000"))])]
BG = N + "CrystalStructureBondGenerator::"
SITE0 = z3.Int("site0")
GEN0 = [Custom(N + "BaseBondGenerator::site0", lambda ex, call: ex.vI(SITE0), trusted="C04", name="BaseBondGenerator::site0")]


def theimages(c):
    """images kept by the structure of the generator"""
    p = c.v("mcstructure")
    o = LV("$heap", (("i", p.lv[()]),), c.ex.st.of(p.shape.to))
    return c.v(c.m("msymatoms", o))


def attached(c, i):
    return [("attached to a structure", c.v("mcstructure").lv[()] != 0), ("index of a site with images", z3.And(0 <= i, i < theimages(c).lv[("len",)], z3.Select(theimages(c).lv[("el", "len")], i) >= 1))]


def image(c, i, k):
    """position and tensor of an image of the site"""
    lv = theimages(c).lv
    g = lambda *p: z3.Select(z3.Select(lv[("el", "el") + p], i), k)
    return [g(AT + "xyz_cartn", str(q)) for q in I3], [g(AT + "uij_cartn", q) for q in IJ]


SYMA = Spec(BG + "symatoms", pre=lambda c: attached(c, c.at(0)), frame=lambda c: [], post=lambda c: [("images of the site", z3.And(*[c.r.lv[p[1:]] == z3.Select(x, c.at(0)) for p, x in theimages(c).lv.items() if p[0] == "el"]))])
SPECS += [SYMA, Spec(BG + "Ucartesian0", use=GEN0, pre=lambda c: attached(c, SITE0), frame=lambda c: [], post=lambda c: [("tensor of the first image", z3.And(*[a == b for a, b in zip(m9(c.r), image(c, SITE0, 0)[1])]))])]
SITE1 = z3.Int("site1")
GEN1 = [Custom(N + "BaseBondGenerator::site1", lambda ex, call: ex.vI(SITE1), trusted="C04", name="BaseBondGenerator::site1"),
        Assumed(N + "BaseBondGenerator::updateDistance", name="BaseBondGenerator::updateDistance", frame=lambda c: [c.lv("mdistance")])]
SELECT = Assumed(N + "BaseBondGenerator::selectAnchorSite", name="BaseBondGenerator::selectAnchorSite", post=lambda c: [("", SITE0 == c.at(0))], frame=lambda c: [c.lv("msite_anchor")])


def up_post(c):
    k = c.t("msymidx")
    x, u = image(c, SITE1, k)
    sph, r1, p = v3(c.v("mrcsphere")), v3(c.v("mr1")), c.v("mpuc1").lv[()]
    t = c.ex.load(p.lv) if isinstance(p, PyPtr) else None
    return [("position of the image in this cell", z3.And(*[a == s + b for a, s, b in zip(r1, sph, x)])), ("tensor of the image", z3.BoolVal(False) if t is None else z3.And(*[a == b for a, b in zip(m9(t), u)]))]


SPECS += [Spec(BG + "updater1", use=GEN1 + [SYMA], pre=lambda c: attached(c, SITE1) + [("an image of the site", z3.And(c.t("msymidx") >= 0, c.t("msymidx") < z3.Select(theimages(c).lv[("el", "len")], SITE1)))],
               frame=lambda c: [c.lv(x) for x in ("mr1", "mpuc1", "mdistance")], post=up_post),
          Spec(BG + "selectAnchorSite", use=[SELECT, SYMA], pre=lambda c: attached(c, c.at(0)), frame=lambda c: [c.lv(x) for x in ("mr0", "msite_anchor")],
               post=lambda c: [("anchored at the first image", z3.And(*[a == b for a, b in zip(v3(c.v("mr0")), image(c, c.at(0), 0)[0])]))])]
