from dv.contract import *
from dv import core
import z3
ID = "C04"
LEVEL = "proof"
TUS = ["srreal/BaseBondGenerator.cpp", "srreal/PeriodicStructureAdapter.cpp", "srreal/CrystalStructureAdapter.cpp", "srreal/R3linalg.cpp"]
HARNESS = "C04.cpp"
BOUNDED = ["completeness of the lattice images within range + longest cell diagonal (numerically, brute-force enumeration; the shell itself is C05)"]
ASSUMPTIONS = ["StructureAdapter::siteCartesianPosition(i) is a function of i while a generator is in use",
               "PointsInSphere is a finite sequence of lattice points (C05)"]
N = "diffpy::srreal::"
B, P, C = N + "BaseBondGenerator::", N + "PeriodicStructureBondGenerator::", N + "CrystalStructureBondGenerator::"
Rs, Is, Bs = z3.RealSort(), z3.IntSort(), z3.BoolSort()
POS = [z3.Function("POS%d" % i, Is, Rs) for i in range(3)]
CART = [z3.Function("CART%d" % i, Is, Rs) for i in range(3)]
MNO = z3.Function("MNO", Is, Is)
BAD1 = z3.Function("BAD1", Is, Bs)
BAD2 = z3.Function("BAD2", Is, Is, Bs)
BAD3 = z3.Function("BAD3", Is, Is, Is, Bs)
NSPH = z3.Int("NSPH")
EPS = z3.RealVal("1/67108864")     # SQRT_DOUBLE_EPS


def Vv(c, x, old=False):
    v = (c.old(x) if old else c.v(x))
    return [v.lv[(str(i),)] for i in range(3)]


def sub(u, v):
    return [a - b for a, b in zip(u, v)]


def d2(w):
    return w[0] * w[0] + w[1] * w[1] + w[2] * w[2]


def bad(c, w, old=False):
    """pair vector w is out of the range or of zero length"""
    g = c.ot if old else c.t
    lo, hi = g("mrmin"), g("mrmax")
    q = d2(w)
    return z3.Or(z3.And(lo > 0, q < lo * lo), hi < 0, q > hi * hi, q <= EPS * EPS)


# Assumed contract of the structure
sitepos = Assumed(N + "StructureAdapter::siteCartesianPosition", name="StructureAdapter::siteCartesianPosition",
                  post=lambda c: [("", c.r.lv[(str(i),)] == POS[i](c.at(0))) for i in range(3)])


def upd(c, w):
    """the distance fields describe the pair vector w, or a lower bound of its length that is already out of range"""
    m, r = c.t("mdistance"), Vv(c, "mr01")
    hi = c.t("mrmax")
    return [("a distance within rmax is the length of r01 = r1 - r0",
             z3.Implies(m <= hi, z3.And(m >= 0, m * m == d2(w), *[a == b for a, b in zip(r, w)]))),
            ("a distance above rmax means that the pair is longer than rmax", z3.Implies(m > hi, z3.Or(hi < 0, d2(w) > hi * hi))),
            ("the distance is not negative", m >= 0)]


def pairvec(c):
    return sub(Vv(c, "mr1"), Vv(c, "mr0"))


updateDistance = Spec(B + "updateDistance", post=lambda c: upd(c, pairvec(c)), frame=lambda c: [c.lv("mr01"), c.lv("mdistance")])
def self_pair(c):
    m = c.t("mdistance")
    return [("true exactly for a zero length within the tolerance", c.rt == z3.And(m <= EPS, -m <= EPS))]


bondOutOfRange = Spec(B + "bondOutOfRange", frame=lambda c: [],
                      post=lambda c: [("true exactly outside of [rmin, rmax]", c.rt == z3.Or(c.t("mdistance") < c.t("mrmin"), c.t("mdistance") > c.t("mrmax")))])
# ---- the iteration over sites ----------------------------------------------------


def itersetup(c):
    ex = c.ex
    for n in ("msite_current", "msite_first", "msite_last"):
        lv = c.lv(n)
        ex.write(lv, V(lv.shape, {("cont",): core.PyPtr(c.lv("msite_selection")), ("idx",): z3.Int(n)}))


def cur(c, old=False):
    v = c.old("msite_current") if old else c.v("msite_current")
    return v.lv[("idx",)]


def first(c):
    return c.v("msite_first").lv[("idx",)]


def last(c):
    return c.v("msite_last").lv[("idx",)]


def site(c, k):
    return c.el("msite_selection", k)


def wellformed(c):
    return [("site window", z3.And(0 <= first(c), first(c) <= cur(c), cur(c) <= last(c), last(c) <= c.len("msite_selection"))),
            ("the generator has a structure", c.t("mstructure") != 0)]


class Gen:
    """one bond generator class: its iteration state as a tuple ordered lexicographically"""

    def __init__(self, cls, dyn, BAD, state, vec, same):
        self.cls, self.dyn, self.BAD, self.state, self.vec, self.same = cls, dyn, BAD, state, vec, same

    def consistent(self, c):
        """unless finished, the position and distance fields belong to the current state"""
        w = self.vec(c, self.state(c))
        return [(nm, z3.Implies(cur(c) < last(c), f)) for nm, f in self.same(c) + upd(c, w)]

    def done(self, c):
        """when finished, no state is left"""
        return [("when finished, nothing is left", z3.Implies(cur(c) >= last(c), self.exhausted(c)))]

    def define(self, c):
        st = self.state(c)
        c.ex.assume(self.BAD(*st) == bad(c, self.vec(c, st)))

    def skipped(self, c, st0, head=None):
        """everything from st0 up to the current state is no valid bond"""
        if head:
            q = [z3.Int("q%d!" % i) for i in range(len(st0))]
            return z3.ForAll(q, z3.Implies(z3.And(self.inside(c, q), lexle(st0, q), lexlt(q, head)), self.BAD(*q)), patterns=[self.BAD(*q)])
        q = [z3.Int("q%d!" % i) for i in range(len(st0))]
        return z3.ForAll(q, z3.Implies(z3.And(self.inside(c, q), lexle(st0, q), z3.Or(cur(c) >= last(c), lexlt(q, self.state(c)))), self.BAD(*q)),
                         patterns=[self.BAD(*q)])

    def advanced(self, c, st0):
        return [("all skipped pairs are out of range or of zero length", self.skipped(c, st0)),
                ("the iteration stops at a valid bond or when finished", z3.Implies(cur(c) < last(c), z3.Not(bad(c, self.vec(c, self.state(c)))))),
                ("the iteration does not step back", z3.Or(cur(c) >= last(c), lexle(st0, self.state(c))))]


def lexlt(a, b):
    f = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        f = z3.Or(x < y, z3.And(x == y, f))
    return f


def lexle(a, b):
    return z3.Not(lexlt(b, a))


# -- plain cluster
def base_vec(c, st):
    k = site(c, st[0])
    return sub([POS[i](k) for i in range(3)], Vv(c, "mr0"))


G1 = Gen(B, N + "BaseBondGenerator", BAD1, lambda c: [cur(c)], base_vec,
         lambda c: [("r1 is the position of the current site [%d]" % i, Vv(c, "mr1")[i] == POS[i](site(c, cur(c)))) for i in range(3)])
G1.inside = lambda c, q: z3.And(first(c) <= q[0], q[0] < last(c))


def moved(c):
    return [c.lv("mr1"), c.lv("mr01"), c.lv("mdistance")]


def genspecs(G, extra_frame, use, extra_pre=None, extra_keep=None):
    """contracts of getNextBond / advanceWhileInvalid / next for a generator class"""
    nm = G.cls.replace(N, "")
    dyn = G.dyn
    pre0 = extra_pre or (lambda c: [])

    def succ(c):
        st0 = [z3.simplify(x) for x in G.state_old(c)]
        q = [z3.Int("s%d!" % i) for i in range(len(st0))]
        st1 = G.state(c)
        return [("steps to the next pair in order, none skipped", z3.ForAll(q, z3.Implies(
                    z3.And(G.inside(c, q), lexlt(st0, q)), z3.And(cur(c) < last(c), lexle(st1, q))), patterns=[G.BAD(*q)])),
                ("the next pair is inside the iteration space and later", z3.Implies(cur(c) < last(c), z3.And(G.inside(c, st1), lexlt(st0, st1))))] + G.consistent(c) + G.done(c)

    getNext = Spec(G.cls + "getNextBond", dyn=dyn, use=use, setup=itersetup, noexcept=True,
                   pre=lambda c: wellformed(c) + pre0(c) + G.keep(c) + [("not finished", cur(c) < last(c)), ("state", G.inside(c, G.state(c)))],
                   post=lambda c: succ(c) + wellformed(c)[:1],
                   frame=lambda c: moved(c) + [c.lv("msite_current")] + extra_frame(c))

    def adv_pre(c):
        return wellformed(c) + pre0(c) + [("state", z3.Implies(cur(c) < last(c), G.inside(c, G.state(c))))] + G.consistent(c) + G.done(c)

    def adv_loop(c, l):
        if not l.end:
            G.define(c)
        elif not c.ex.dry:
            now = G.state(c)
            mem, c.ex.mem = c.ex.mem, l.head
            st = G.state(c)
            c.ex.mem = mem
            c.ex.check("the pair left behind is no valid bond", G.BAD(*st), "invariant")
            q = [z3.Int("s%d!" % i) for i in range(len(st))]
            c.ex.lemma("skipped pairs", G.skipped(c, G.state_old(c)), [
                G.BAD(*st), G.skipped(c, G.state_old(c), st), z3.ForAll(q, z3.Implies(
                    z3.And(G.inside(c, q), lexlt(st, q)), z3.And(cur(c) < last(c), lexle(now, q))), patterns=[G.BAD(*q)])], kind="invariant")
        return [("skipped", G.skipped(c, G.state_old(c)))] + [x for x in wellformed(c)[:1]] + \
               [("inside", z3.Implies(cur(c) < last(c), G.inside(c, G.state(c)))), ("forward", z3.Or(cur(c) >= last(c), lexle(G.state_old(c), G.state(c))))] + \
               G.consistent(c) + G.done(c)

    def adv_post(c):
        return G.advanced(c, G.state_old(c)) + G.consistent(c) + wellformed(c)[:1] + \
            [("inside", z3.Implies(cur(c) < last(c), G.inside(c, G.state(c))))]

    adv = Spec(B + "advanceWhileInvalid", dyn=dyn, use=[getNext, bondOutOfRange, selfPair], setup=itersetup, pre=adv_pre, post=adv_post, loops=adv_loop,
               frame=lambda c: moved(c) + [c.lv("msite_current")] + extra_frame(c), name="%sadvanceWhileInvalid" % nm, autoinv=False)

    def next_post(c):
        st0 = G.state_old(c)
        q = [z3.Int("t%d!" % i) for i in range(len(st0))]
        return [("every pair between the two bonds is out of range or of zero length", z3.ForAll(q, z3.Implies(
                    z3.And(G.inside(c, q), lexlt(st0, q), z3.Or(cur(c) >= last(c), lexlt(q, G.state(c)))), G.BAD(*q)), patterns=[G.BAD(*q)])),
                ("the next bond is valid and comes later", z3.Implies(cur(c) < last(c), z3.And(
                    z3.Not(bad(c, G.vec(c, G.state(c)))), lexlt(st0, G.state(c)))))] + G.consistent(c)

    nxt = Spec(B + "next", dyn=dyn, use=[getNext, adv], setup=itersetup, name="%snext" % nm,
               pre=lambda c: adv_pre(c) + [("not finished", cur(c) < last(c))], post=next_post,
               frame=lambda c: moved(c) + [c.lv("msite_current")] + extra_frame(c))

    return getNext, adv, nxt


selfPair = Spec(B + "atSelfPair", frame=lambda c: [], post=self_pair)




def rewspec(G, rewSym, adv, qn, extra_frame, use=None, first_state=None, pre0=None, alive=None):
    """rewind: start at the first pair and stop at the first valid bond"""
    def post(c):
        q = [z3.Int("r%d!" % i) for i in range(len(G.names))]
        return [("no valid bond is skipped from the start", z3.ForAll(q, z3.Implies(
                    z3.And(G.inside(c, q), z3.Or(cur(c) >= last(c), lexlt(q, G.state(c)))), G.BAD(*q)), patterns=[G.BAD(*q)])),
                ("stops at a valid bond or when finished", z3.Implies(cur(c) < last(c), z3.And(G.inside(c, G.state(c)), z3.Not(bad(c, G.vec(c, G.state(c)))))))] + G.consistent(c)
    return Spec(qn, dyn=G.dyn, use=[rewSym, adv] + (use or []), setup=itersetup, pre=lambda c: wellformed(c) + (pre0(c) if pre0 else []), post=post,
                frame=lambda c: moved(c) + [c.lv("msite_current")] + extra_frame(c), name=(qn + " of " + G.dyn.split("::")[-1]).replace(N, ""))


G1.state_old = lambda c: [cur(c, True)]
G1.exhausted = lambda c: z3.BoolVal(True)
G1.keep = lambda c: []
G1.names = ["k"]
rewSym1 = Spec(B + "rewindSymmetry", use=[updateDistance, sitepos], setup=itersetup, dyn=N + "BaseBondGenerator",
               pre=lambda c: wellformed(c) + [("valid site", cur(c) < last(c))], post=lambda c: G1.consistent(c), frame=moved)
next1, adv1, nxt1 = genspecs(G1, lambda c: [], [rewSym1])
rew1 = rewspec(G1, rewSym1, adv1, B + "rewind", lambda c: [])
SPECS = [updateDistance, bondOutOfRange, selfPair, rewSym1, next1, adv1, nxt1, rew1]

# ---- periodic structures: all sites for one lattice point, then the next lattice point ----------
SPH = LV("$sphere", (), I)


def sph(c, old=False):
    return c.ex.read(SPH, c.pre).lv[()] if old else c.ex.load(SPH).lv[()]


def sph_next(ex, call):
    s = ex.load(SPH).lv[()]
    ex.write(SPH, ex.vI(s + 1))
    return V(VOID, {})


def sph_rewind(ex, call):
    ex.write(SPH, ex.vI(0))
    return V(VOID, {})


def sph_mno(ex, call):
    s = ex.load(SPH).lv[()]
    ex.check("the lattice point is read before the sphere is finished", s < NSPH, "precondition")
    return V(Ptr(call.fd.ret.to), {(): MNO(s)})


def cartmno(ex, call):
    t = ex.load(call.args[0]).lv[()]
    return ex.tmp(V(V3, {(str(i),): CART[i](t) for i in range(3)}), "cart")


SPHERE = [Custom(N + "PointsInSphere::next", sph_next, trusted="C05: the next point of the sequence", name="PointsInSphere::next"),
          Custom(N + "PointsInSphere::rewind", sph_rewind, trusted="C05: back to the first point", name="PointsInSphere::rewind"),
          Custom(N + "PointsInSphere::finished", lambda ex, call: ex.vB(ex.load(SPH).lv[()] >= NSPH), trusted="C05: all points used", name="PointsInSphere::finished"),
          Custom(N + "PointsInSphere::mno", sph_mno, trusted="C05: the current point", name="PointsInSphere::mno"),
          Custom(N + "Lattice::cartesian", cartmno, trusted="C06: cartesian coordinates of the lattice point", name="Lattice::cartesian")]


def uc(c, k):
    s = c.v("mcartesian_positions_uc")
    return [z3.Select(s.lv[("el", str(i))], k) for i in range(3)]


def shift(st):
    return [z3.If(st < NSPH, CART[i](MNO(st)), 0) for i in range(3)]


def per_vec(c, st):
    k = site(c, st[1])
    return sub([a + b for a, b in zip(shift(st[0]), uc(c, k))], Vv(c, "mr0"))


def per_same(c):
    k = site(c, cur(c))
    r = [a + b for a, b in zip(shift(sph(c)), uc(c, k))]
    return [("r1 is the image of the current site at the current lattice point [%d]" % i, Vv(c, "mr1")[i] == r[i]) for i in range(3)] + \
           [("current lattice translation [%d]" % i, Vv(c, "mrcsphere")[i] == shift(sph(c))[i]) for i in range(3)]


G2 = Gen(P, N + "PeriodicStructureBondGenerator", BAD2, lambda c: [sph(c), cur(c)], per_vec, per_same)
G2.exhausted = lambda c: z3.And(sph(c) >= NSPH, sph(c) > 0)
G2.keep = lambda c: per_same(c)[3:]
G2.names = ["s", "k"]
G2.state_old = lambda c: [sph(c, True), cur(c, True)]
# an empty sphere leaves one round over the sites at the zero cell; it has no bond in range
G2.inside = lambda c, q: z3.And(0 <= q[0], z3.Or(q[0] < NSPH, q[0] == 0), first(c) <= q[1], q[1] < last(c))


def per_pre(c):
    k = z3.Int("k!")
    return [("sphere", z3.And(NSPH >= 0, 0 <= sph(c), z3.Implies(cur(c) < last(c), z3.Or(sph(c) < NSPH, sph(c) == 0)))), ("a sphere is set up", c.t("msphere") != 0), ("structure", c.t("mpstructure") != 0)] + selpre(c)


def rew_pre(c):
    return [("sphere", NSPH >= 0)] + per_pre(c)[1:]


def selpre(c):
    k = z3.Int("k!")
    return [("selected sites exist", z3.ForAll([k], z3.Implies(z3.And(first(c) <= k, k < last(c)),
                                                               z3.And(0 <= site(c, k), site(c, k) < c.len("mcartesian_positions_uc"))),
                                               patterns=[site(c, k)]))]


def per_frame(c):
    return [c.lv("mrcsphere"), SPH]


iterSym2 = Spec(P + "iterateSymmetry", use=SPHERE, dyn=G2.dyn, pre=lambda c: per_pre(c)[:3],
                post=lambda c: [("advances to the next lattice point", sph(c) == sph(c, True) + 1),
                                ("true unless it was the last one", c.rt == (sph(c) < NSPH))] +
                [("translation [%d]" % i, Vv(c, "mrcsphere")[i] == shift(sph(c))[i]) for i in range(3)],
                frame=per_frame)
rewSym2 = Spec(P + "rewindSymmetry", use=SPHERE + [updateDistance], dyn=G2.dyn, setup=itersetup,
               pre=lambda c: wellformed(c) + rew_pre(c) + [("valid site", cur(c) < last(c))],
               post=lambda c: [("starts at the first lattice point", sph(c) == 0)] + G2.consistent(c), frame=lambda c: moved(c) + per_frame(c))
next2, adv2, nxt2 = genspecs(G2, per_frame, [iterSym2, updateDistance], per_pre)
rew2 = rewspec(G2, rewSym2, adv2, B + "rewind", per_frame, pre0=rew_pre)
SPECS += [iterSym2, rewSym2, next2, adv2, nxt2, rew2]

# ---- crystals: for one site all its symmetry images, for each image all lattice points -----------
NAT = z3.Int("NAT")
NSYM = z3.Function("NSYM", Is, Is)
ARR = z3.ArraySort(Is, Rs)
SYMX = [z3.Function("SYMX%d" % i, Is, ARR) for i in range(3)]


def symatoms(ex, call):
    i = ex.load(call.args[0]).lv[()]
    ex.check("the site index is valid", z3.And(0 <= i, i < NAT), "precondition")
    sh = ex.st.of(call.fd.ret.to)
    v = ex.freshV(sh, "symatoms")
    lv = dict(v.lv)
    lv[("len",)] = NSYM(i)
    for j in range(3):
        lv[("el", "Atom::xyz_cartn", str(j))] = SYMX[j](i)
    return ex.tmp(V(sh, lv), "symatoms")


SYM = Custom(C + "symatoms", symatoms, trusted="C16: symmetry images of the site, at least one", name="CrystalStructureBondGenerator::symatoms")


def sidx(c, old=False):
    return c.ot("msymidx") if old else c.t("msymidx")


def cry_vec(c, st):
    k = site(c, st[0])
    return sub([a + z3.Select(SYMX[i](k), st[1]) for i, a in enumerate(shift(st[2]))], Vv(c, "mr0"))


def cry_same(c):
    k = site(c, cur(c))
    r = [a + z3.Select(SYMX[i](k), sidx(c)) for i, a in enumerate(shift(sph(c)))]
    return [("r1 is the image of the current symmetry position at the current lattice point [%d]" % i, Vv(c, "mr1")[i] == r[i]) for i in range(3)]


G3 = Gen(C, N + "CrystalStructureBondGenerator", BAD3, lambda c: [cur(c), sidx(c), sph(c)], cry_vec, cry_same)
G3.exhausted = lambda c: z3.BoolVal(True)
G3.keep = lambda c: []
G3.names = ["k", "j", "s"]
G3.state_old = lambda c: [cur(c, True), sidx(c, True), sph(c, True)]
G3.inside = lambda c, q: z3.And(first(c) <= q[0], q[0] < last(c), 0 <= q[1], q[1] < NSYM(site(c, q[0])), 0 <= q[2], z3.Or(q[2] < NSPH, q[2] == 0))


def cry_pre(c):
    k = z3.Int("k!")
    return [("sphere", NSPH >= 0), ("a sphere is set up", c.t("msphere") != 0), ("structure", c.t("mpstructure") != 0),
            ("selected sites exist and have images", z3.ForAll([k], z3.Implies(z3.And(first(c) <= k, k < last(c)),
                                                                               z3.And(0 <= site(c, k), site(c, k) < NAT, NSYM(site(c, k)) >= 1)), patterns=[site(c, k)]))]


def cry_frame(c):
    return [c.lv("mrcsphere"), SPH, c.lv("msymidx"), c.lv("mpuc1")]


cryUpd = Spec(C + "updater1", dyn=G3.dyn, use=[SYM, updateDistance], setup=itersetup,
              pre=lambda c: wellformed(c) + cry_pre(c) + [("valid site", cur(c) < last(c)), ("valid symmetry index", z3.And(0 <= sidx(c), sidx(c) < NSYM(site(c, cur(c)))))],
              post=lambda c: upd(c, pairvec(c)) + [("r1 [%d]" % i, Vv(c, "mr1")[i] == Vv(c, "mrcsphere")[i] + z3.Select(SYMX[i](site(c, cur(c))), sidx(c))) for i in range(3)],
              frame=lambda c: moved(c) + [c.lv("mpuc1")])
cryIter = Spec(C + "iterateSymmetry", dyn=G3.dyn, use=SPHERE + [SYM, cryUpd], setup=itersetup,
               pre=lambda c: wellformed(c) + cry_pre(c) + [("not finished", cur(c) < last(c)), ("state", G3.inside(c, G3.state(c)))],
               post=lambda c: [("next lattice point, else next symmetry image", z3.If(
                   sph(c, True) + 1 < NSPH, z3.And(c.rt, sph(c) == sph(c, True) + 1, sidx(c) == sidx(c, True)),
                   z3.If(sidx(c, True) + 1 < NSYM(site(c, cur(c))), z3.And(c.rt, sph(c) == 0, sidx(c) == sidx(c, True) + 1), z3.Not(c.rt))))] +
               [(n, z3.Implies(c.rt, f)) for n, f in G3.consistent(c)],
               frame=lambda c: moved(c) + cry_frame(c))
cryRew = Spec(C + "rewindSymmetry", dyn=G3.dyn, use=SPHERE + [cryUpd], setup=itersetup,
              pre=lambda c: wellformed(c) + cry_pre(c) + [("valid site", cur(c) < last(c))],
              post=lambda c: [("starts at the first image and lattice point", z3.And(sph(c) == 0, sidx(c) == 0))] + G3.consistent(c),
              frame=lambda c: moved(c) + cry_frame(c))
next3, adv3, nxt3 = genspecs(G3, cry_frame, [cryIter, cryRew], cry_pre)
rew3 = rewspec(G3, cryRew, adv3, B + "rewind", cry_frame, pre0=cry_pre)
SPECS += [cryUpd, cryIter, cryRew, next3, adv3, nxt3, rew3]
# ---- configuration ------------------------------------------------------------------------------


def finished(c):
    return [("nothing is yielded before the next rewind", cur(c) == last(c))]


def keepsphere(c, nm, i):
    return [("stored", c.t(nm) == c.at(0)), ("a changed range ends the iteration", z3.Implies(c.ot(nm) != c.at(0), cur(c) == last(c)))]


def curframe(c):
    return [c.lv("msite_current")]


setRmin0 = Spec(B + "setRmin", setup=itersetup, post=lambda c: keepsphere(c, "mrmin", 0), frame=lambda c: curframe(c) + [c.lv("mrmin")], noexcept=True)
setRmax0 = Spec(B + "setRmax", setup=itersetup, post=lambda c: keepsphere(c, "mrmax", 0), frame=lambda c: curframe(c) + [c.lv("mrmax")], noexcept=True)


def perset(nm, base):
    return Spec(P + "set" + nm, use=[base], setup=itersetup, noexcept=True, pre=covers,
                post=lambda c: covers(c) + keepsphere(c, "mr" + nm[1:], 0) + [("a changed range discards the lattice points of the old one",
                                                                  z3.Implies(c.ot("mr" + nm[1:]) != c.at(0), c.t("msphere") == 0))],
                frame=lambda c: curframe(c) + [c.lv("mr" + nm[1:]), c.lv("msphere")])


CNT = z3.Int("CNT")
countSites = Assumed(N + "StructureAdapter::countSites", post=lambda c: [("", c.rt == CNT)], name="StructureAdapter::countSites")
selAnchor0 = Spec(B + "selectAnchorSite", setup=itersetup, use=[sitepos, countSites], pre=lambda c: [("structure", c.t("mstructure") != 0), ("valid anchor", z3.And(0 <= c.at(0), c.at(0) < CNT))],
                  post=lambda c: finished(c) + [("anchor stored", c.t("msite_anchor") == c.at(0))] +
                  [("r0 is the anchor position [%d]" % i, Vv(c, "mr0")[i] == POS[i](c.at(0))) for i in range(3)],
                  frame=lambda c: curframe(c) + [c.lv("msite_anchor"), c.lv("mr0")])
selAnchor2 = Spec(P + "selectAnchorSite", dyn=G2.dyn, setup=itersetup, use=[selAnchor0],
                  pre=lambda c: [("structure", c.t("mstructure") != 0), ("valid anchor", z3.And(0 <= c.at(0), c.at(0) < CNT, c.len("mcartesian_positions_uc") == CNT))],
                  post=lambda c: finished(c) + [("anchor stored", c.t("msite_anchor") == c.at(0))] +
                  [("r0 is the anchor position in the unit cell [%d]" % i, Vv(c, "mr0")[i] == uc(c, c.at(0))[i]) for i in range(3)],
                  frame=lambda c: curframe(c) + [c.lv("msite_anchor"), c.lv("mr0")])
selAnchor3 = Spec(C + "selectAnchorSite", dyn=G3.dyn, setup=itersetup, use=[selAnchor0, SYM],
                  pre=lambda c: [("structure", c.t("mstructure") != 0), ("valid anchor", z3.And(0 <= c.at(0), c.at(0) < NAT, NAT == CNT)), ("it has images", NSYM(c.at(0)) >= 1)],
                  post=lambda c: finished(c) + [("anchor stored", c.t("msite_anchor") == c.at(0))] +
                  [("r0 is the first image of the anchor [%d]" % i, Vv(c, "mr0")[i] == z3.Select(SYMX[i](c.at(0)), 0)) for i in range(3)],
                  frame=lambda c: curframe(c) + [c.lv("msite_anchor"), c.lv("mr0")])


def itlv(c, n):
    return c.v(n).lv[("cont",)].lv


def window(c, cont, lo, hi):
    return finished(c) + [("the window covers exactly the selected sites", z3.And(first(c) == lo, last(c) == hi)),
                          ("the window is in the right list", z3.BoolVal(all(itlv(c, n).same(c.lv(cont)) for n in ("msite_first", "msite_last"))))]


def winframe(c):
    return [c.lv(n) for n in ("msite_first", "msite_last", "msite_current")]


selRange = Spec(B + "selectSiteRange", setup=itersetup, use=[countSites],
                pre=lambda c: [("structure", c.t("mstructure") != 0), ("range", z3.And(0 <= c.at(0), c.at(0) <= c.at(1), c.at(1) <= CNT, c.len("msite_all") == CNT))],
                post=lambda c: window(c, "msite_all", c.at(0), c.at(1)), frame=winframe, noexcept=True)
selSites = Spec(B + "selectSites", params=["vector"], setup=itersetup, noexcept=True,
                post=lambda c: window(c, "msite_selection", 0, c.len(c.args[0])) + [("the selection is stored", z3.And(c.len("msite_selection") == c.len(c.args[0]), c.v("msite_selection").lv[("el",)] == c.a(0).lv[("el",)]))],
                frame=lambda c: winframe(c) + [c.lv("msite_selection")])


# ---- the shell of lattice points covers the range -----------------------------------------------
DIAG = z3.Real("DIAG")
diag = Assumed(N + "Lattice::ucMaxDiagonalLength", post=lambda c: [("", c.rt == DIAG)], name="Lattice::ucMaxDiagonalLength")
SPLO, SPHI = LV("$sphlo", (), R), LV("$sphhi", (), R)


def covers(c):
    """class invariant: the set up shell includes every lattice point that can give a bond in the range"""
    lo, hi = c.ex.load(SPLO).lv[()], c.ex.load(SPHI).lv[()]
    return [("the shell of lattice points covers the range widened by the cell diagonal", z3.Implies(
        c.t("msphere") != 0, z3.And(lo <= c.t("mrmin") - DIAG, hi >= c.t("mrmax") + DIAG)))]


def newsphere(ex, call):
    ex.write(SPLO, ex.load(call.args[0]))
    ex.write(SPHI, ex.load(call.args[1]))
    return V(VOID, {})


mksphere = Custom(N + "PointsInSphere::PointsInSphere", newsphere, trusted="C05: the points within the bounds", name="PointsInSphere(rmin, rmax, lattice)")
perRewind = Spec(P + "rewind", dyn=G2.dyn, setup=itersetup, use=[rew2, diag, mksphere],
                 pre=lambda c: wellformed(c) + [("sphere", NSPH >= 0), ("structure", c.t("mpstructure") != 0)] + selpre(c) + covers(c),
                 post=lambda c: covers(c) + [("a shell is set up", c.t("msphere") != 0)] + rew2.post(c),
                 frame=lambda c: rew2.frame(c) + [c.lv("msphere"), SPLO, SPHI])
SPECS += [setRmin0, setRmax0, perset("Rmin", setRmin0), perset("Rmax", setRmax0), selAnchor0, selAnchor2, selAnchor3, selRange, selSites, perRewind]
