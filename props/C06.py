from dv.contract import *
import z3
from dv.models import UF, det3
ID = "C06"
LEVEL = "proof"
TUS = ["srreal/Lattice.cpp", "srreal/R3linalg.cpp", "/verif/tus/lattice.cpp"]
HARNESS = "C06.cpp"
BOUNDED = ["Lattice::setLatPar / setLatBase on concrete cells (round-off, angles in degrees)"]
ASSUMPTIONS = ["cosd/sind are the cosine and sine of the angle with sin^2+cos^2=1 (property C17)",
               "gsl LU inverse is exact (dv/models.py)"]
L = "diffpy::srreal::Lattice::"
R3N = "diffpy::srreal::R3::"
I3 = range(3)


def M(c, x, old=False):
    v = (c.old(x) if old else c.v(x)) if not isinstance(x, V) else x
    return [[v.lv[("%d%d" % (i, j),)] for j in I3] for i in I3]


def Vv(c, x, old=False):
    v = (c.old(x) if old else c.v(x)) if not isinstance(x, V) else x
    return [v.lv[(str(i),)] for i in I3]


def mul(A, B):
    return [[A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j] for j in I3] for i in I3]


def vm(u, A):
    return [u[0] * A[0][j] + u[1] * A[1][j] + u[2] * A[2][j] for j in I3]


def mv(A, u):
    return [A[i][0] * u[0] + A[i][1] * u[1] + A[i][2] * u[2] for i in I3]


def T(A):
    return [[A[j][i] for j in I3] for i in I3]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def meq(nm, A, B):
    return [("%s (%d,%d)" % (nm, i, j), A[i][j] == B[i][j]) for i in I3 for j in I3]


def veq(nm, u, v):
    return [("%s [%d]" % (nm, i), u[i] == v[i]) for i in I3]


ID3 = [[z3.RealVal(int(i == j)) for j in I3] for i in I3]
# ---- R3 ---------------------------------------------------------------------
inverse = Spec(R3N + "inverse", pre=lambda c: [("matrix is regular", det3(M(c, c.a(0))) != 0)],
               post=lambda c: meq("A * inverse(A) = 1", mul(M(c, c.a(0)), M(c, c.r)), ID3) + meq("inverse(A) * A = 1", mul(M(c, c.r), M(c, c.a(0))), ID3))
determinant = Spec(R3N + "determinant", post=lambda c: [("determinant", c.rt == det3(M(c, c.a(0))))])
mxv1 = Spec(R3N + "mxvecproduct", params=["R3::Matrix", "R3::Vector"], name="R3::mxvecproduct(M,u)",
            post=lambda c: veq("M*u", Vv(c, c.r), mv(M(c, c.a(0)), Vv(c, c.a(1)))))
mxv2 = Spec(R3N + "mxvecproduct", params=["R3::Vector", "R3::Matrix"], name="R3::mxvecproduct(u,M)",
            post=lambda c: veq("u*M", Vv(c, c.r), vm(Vv(c, c.a(0)), M(c, c.a(1)))))


def cross(c):
    u, v, r = Vv(c, c.a(0)), Vv(c, c.a(1)), Vv(c, c.r)
    return veq("u x v", r, [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])


def sqnorm(c, d2):
    return [("nonnegative square root of the squared length", z3.And(c.rt >= 0, c.rt * c.rt == d2))]


def fl(c):
    u, r = Vv(c, c.a(0)), Vv(c, c.r)
    return [("floor [%d]" % i, z3.And(r[i] <= u[i], u[i] < r[i] + 1, z3.IsInt(r[i]))) for i in I3]


R3SPECS = [
    inverse, determinant, mxv1, mxv2,
    Spec(R3N + "identity", post=lambda c: meq("identity", M(c, c.r), ID3)),
    Spec(R3N + "dot", params=["R3::Vector", "R3::Vector"], post=lambda c: [("u.v", c.rt == dot(Vv(c, c.a(0)), Vv(c, c.a(1))))]),
    Spec(R3N + "norm", params=["R3::Vector"], post=lambda c: sqnorm(c, dot(Vv(c, c.a(0)), Vv(c, c.a(0))))),
    Spec(R3N + "distance", params=["R3::Vector", "R3::Vector"],
         post=lambda c: sqnorm(c, dot(*[[a - b for a, b in zip(Vv(c, c.a(0)), Vv(c, c.a(1)))]] * 2))),
    Spec(R3N + "cross", params=["R3::Vector", "R3::Vector"], post=cross),
    Spec(R3N + "floor", params=["R3::Vector"], post=fl),
]
USE = [inverse, determinant, mxv1, mxv2]
COSD, SIND = z3.Function("COSD", z3.RealSort(), z3.RealSort()), z3.Function("SIND", z3.RealSort(), z3.RealSort())


def trig(c):
    x = c.at(0)
    return [("", z3.And(COSD(x) * COSD(x) + SIND(x) * SIND(x) == 1, COSD(x) <= 1, COSD(x) >= -1))]


cosd = Assumed("diffpy::mathutils::cosd", name="mathutils::cosd (sin^2+cos^2=1)", post=lambda c: [("", c.rt == COSD(c.at(0)))] + trig(c))
sind = Assumed("diffpy::mathutils::sind", name="mathutils::sind (sin^2+cos^2=1)", post=lambda c: [("", c.rt == SIND(c.at(0)))] + trig(c))
ACOSD = z3.Function("ACOSD", z3.RealSort(), z3.RealSort())
acosd = Assumed("diffpy::mathutils::acosd", name="mathutils::acosd", post=lambda c: [("", c.rt == ACOSD(c.at(0)))])

# ---- set up a lattice ---------------------------------------------------------


def vn2(ca, cb, cg):
    return 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg


def par_pre(c):
    al, be, ga = c.at(3), c.at(4), c.at(5)
    R_ = M(c, "mbaserot")
    out = [("a>0", c.at(0) > 0), ("b>0", c.at(1) > 0), ("c>0", c.at(2) > 0)]
    for x in (al, be, ga):
        out += [("sin>0", SIND(x) > 0)] + trig_x(x)
    out.append(("the angles make a cell", vn2(COSD(al), COSD(be), COSD(ga)) > 0))
    out += meq("baserot is a rotation", mul(R_, T(R_)), ID3)
    out += meq("baserot is a rotation'", mul(T(R_), R_), ID3)
    out += [("baserot is proper", det3(R_) == 1)]
    return out


def trig_x(x):
    return [("", COSD(x) * COSD(x) + SIND(x) * SIND(x) == 1)]


def consistent(c, a, b, cc, ca, cb, cg, sa, sb, sg):
    """relations between the published numbers of a cell with the given edges and angle cosines"""
    t = c.t
    out = []
    V_ = UF["sqrt"](vn2(ca, cb, cg))
    out += [("lemma: unit cell volume", z3.And(V_ > 0, V_ * V_ == vn2(ca, cb, cg)))]
    out += [("lemma: reciprocal a", t("mar") * a * V_ == sa), ("lemma: reciprocal b", t("mbr") * b * V_ == sb), ("lemma: reciprocal c", t("mcr") * cc * V_ == sg)]
    out += [("lemma: reciprocal lengths are positive", z3.And(t("mar") > 0, t("mbr") > 0, t("mcr") > 0))]
    out += [("lemma: cosine of reciprocal alpha", t("mcosar") * sb * sg == cb * cg - ca),
            ("lemma: cosine of reciprocal beta", t("mcosbr") * sa * sg == ca * cg - cb),
            ("lemma: cosine of reciprocal gamma", t("mcosgr") * sa * sb == ca * cb - cg)]
    for nm, c1, s1, x, y in (("alpha", "mcosar", "msinar", sb, sg), ("beta", "mcosbr", "msinbr", sa, sg), ("gamma", "mcosgr", "msingr", sa, sb)):
        out += [("lemma: 1-cos^2 of reciprocal %s" % nm, (1 - t(c1) * t(c1)) * (x * x) * (y * y) == V_ * V_)]
        out += [("lemma: 1-cos^2 of reciprocal %s > 0" % nm, 1 - t(c1) * t(c1) > 0)]
        out += [("lemma: sine of reciprocal %s is positive" % nm, z3.And(t(s1) > 0, t(s1) * t(s1) + t(c1) * t(c1) == 1))]
    out += [("lemma: sine of reciprocal gamma", t("msingr") * sa * sb == V_,
             [(1 - t("mcosgr") * t("mcosgr")) * (sa * sa) * (sb * sb) == V_ * V_, t("msingr") > 0, t("msingr") * t("msingr") + t("mcosgr") * t("mcosgr") == 1,
              sa > 0, sb > 0, V_ > 0], [t("msingr"), t("mcosgr"), V_, sa, sb])]
    return out


def std_base(c, a, b, cc, ca, cb, cg, sa, sb, sg):
    V_ = UF["sqrt"](vn2(ca, cb, cg))
    S_ = M(c, "mstdbase")
    z = z3.RealVal(0)
    out = [("lemma: standard base (0,0)", S_[0][0] * sa == a * V_),
           ("lemma: standard base (0,1)", S_[0][1] * sa == a * (cg - ca * cb),
            [S_[0][1] * c.t("msingr") * c.t("mar") == -c.t("mcosgr"), c.t("mcosgr") * sa * sb == ca * cb - cg, c.t("msingr") * sa * sb == V_,
             c.t("mar") * a * V_ == sa, c.t("msingr") > 0, c.t("mar") > 0, sa > 0, sb > 0, a > 0, V_ > 0],
            [S_[0][1], c.t("msingr"), c.t("mcosgr"), c.t("mar"), V_, sa, sb, ca, cb, cg, a]),
           ("lemma: standard base (0,2)", S_[0][2] == a * cb)]
    out += [("lemma: standard base row b", z3.And(S_[1][0] == z, S_[1][1] == b * sa, S_[1][2] == b * ca)),
            ("lemma: standard base row c", z3.And(S_[2][0] == z, S_[2][1] == z, S_[2][2] == cc))]
    return out


def metric(c, a, b, cc, ca, cb, cg):
    G = [[a * a, a * b * cg, a * cc * cb], [a * b * cg, b * b, b * cc * ca], [a * cc * cb, b * cc * ca, cc * cc]]
    return meq("metric tensor", M(c, "mmetrics"), G), G


def derived(c):
    """vectors, reciprocal base and normalized bases follow from the base"""
    B, RB, NB, RN = (M(c, x) for x in ("mbase", "mrecbase", "mnormbase", "mrecnormbase"))
    out = []
    for i, n in enumerate(("mva", "mvb", "mvc")):
        out += veq("%s is row %d of the base" % (n, i), Vv(c, n), B[i])
    out += meq("lemma: base * recbase = 1", mul(B, RB), ID3)
    out += meq("lemma: recbase * base = 1", mul(RB, B), ID3)
    for j, n in enumerate(("mvar", "mvbr", "mvcr")):
        out += veq("%s is column %d of the reciprocal base" % (n, j), Vv(c, n), [RB[i][j] for i in I3])
    for i, n in enumerate(("mar", "mbr", "mcr")):
        out += [("normalized base row %d" % i, z3.And([NB[i][j] == B[i][j] * c.t(n) for j in I3])),
                ("normalized reciprocal base column %d" % i, z3.And([RN[j][i] * c.t(n) == RB[j][i] for j in I3]))]
    return out


def par_post(c):
    a, b, cc = c.at(0), c.at(1), c.at(2)
    al, be, ga = c.at(3), c.at(4), c.at(5)
    ca, cb, cg, sa, sb, sg = COSD(al), COSD(be), COSD(ga), SIND(al), SIND(be), SIND(ga)
    t = c.t
    out = [("edges", z3.And(t("ma") == a, t("mb") == b, t("mc") == cc)), ("angles", z3.And(t("malpha") == al, t("mbeta") == be, t("mgamma") == ga)),
           ("cosines", z3.And(t("mcosa") == ca, t("mcosb") == cb, t("mcosg") == cg)),
           ("sines", z3.And(t("msina") == sa, t("msinb") == sb, t("msing") == sg))]
    out += consistent(c, a, b, cc, ca, cb, cg, sa, sb, sg)
    out += [("reciprocal angles", z3.And(t("malphar") == ACOSD(t("mcosar")), t("mbetar") == ACOSD(t("mcosbr")), t("mgammar") == ACOSD(t("mcosgr"))))]
    out += std_base(c, a, b, cc, ca, cb, cg, sa, sb, sg)
    gm, G = metric(c, a, b, cc, ca, cb, cg)
    out += gm
    S_ = M(c, "mstdbase")
    V_ = UF["sqrt"](vn2(ca, cb, cg))
    out += [("lemma: volume and angles", V_ * V_ + (cg - ca * cb) * (cg - ca * cb) == sa * sa * sb * sb,
             [V_ * V_ == vn2(ca, cb, cg), sa * sa + ca * ca == 1, sb * sb + cb * cb == 1], [V_, ca, cb, cg, sa, sb]),
            ("lemma: length of a in the bc plane", S_[0][0] * S_[0][0] + S_[0][1] * S_[0][1] == a * a * (sb * sb),
             [S_[0][0] * sa == a * V_, S_[0][1] * sa == a * (cg - ca * cb), V_ * V_ + (cg - ca * cb) * (cg - ca * cb) == sa * sa * sb * sb, sa > 0],
             [S_[0][0], S_[0][1], V_, ca, cb, cg, sa, sb])]
    SST = meq("lemma: standard base times its transpose is the metric tensor", mul(S_, T(S_)), G)
    out.append(SST[0] + ([S_[0][0] * S_[0][0] + S_[0][1] * S_[0][1] == a * a * (sb * sb), S_[0][2] == a * cb, sb * sb + cb * cb == 1],
                         [S_[0][0], S_[0][1], S_[0][2], a, sb, cb]))
    out += SST[1:]
    out += meq("base = stdbase * baserot", M(c, "mbase"), mul(S_, M(c, "mbaserot", True)))
    out += derived(c)
    return out


def par_frame(c):
    return [c.m(k.split("::")[-1]) for k in c.this.shape.fields if not k.endswith("mbaserot")]


setLatPar = Spec(L + "setLatPar", params=["double"] * 6, pre=par_pre, post=par_post, frame=par_frame, use=USE + [cosd, sind, acosd], divcheck=True, T=20)

# ---- base vectors given directly ----------------------------------------------


def given(c):
    return [Vv(c, c.a(i)) for i in I3]


def gram(c):
    """facts about the given vectors: Gram determinant, |b x c|^2 etc. (polynomial identities)"""
    B = given(c)
    a2, b2, c2 = (dot(x, x) for x in B)
    bc, ac, ab = dot(B[1], B[2]), dot(B[0], B[2]), dot(B[0], B[1])
    d = det3(B)
    return B, a2, b2, c2, bc, ac, ab, d


def crossv(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def base_lemmas(c, stage):
    """what the code has established when it asks for the inverse of the standard base"""
    B, a2, b2, c2, bc, ac, ab, d = gram(c)
    t = c.t
    a, b, cc, ca, cb, cg, sa, sb, sg = (t(x) for x in "ma mb mc mcosa mcosb mcosg msina msinb msing".split())
    out = [("lemma: Gram determinant", a2 * b2 * c2 + 2 * bc * ac * ab - a2 * bc * bc - b2 * ac * ac - c2 * ab * ab == d * d),
           ("lemma: det is positive", d > 0)]
    nz = []
    for i, (u, v) in enumerate(((1, 2), (0, 2), (0, 1))):
        w = crossv(B[u], B[v])
        out += [("lemma: Lagrange identity %d" % i, dot(B[u], B[u]) * dot(B[v], B[v]) - dot(B[u], B[v]) * dot(B[u], B[v]) == dot(w, w)),
                ("lemma: vectors are independent %d" % i, dot(w, w) > 0, [d > 0, d == (1 if i != 1 else -1) * dot(B[i], w)], sum([[x] for x in w], []) + [d])]
    for n, m, e in (("edge a", a, a2), ("edge b", b, b2), ("edge c", cc, c2)):
        out += [("lemma: %s" % n, z3.And(m >= 0, m * m == e))]
    for n, m, e, k in (("edge a", a, a2, 0), ("edge b", b, b2, 1), ("edge c", cc, c2, 2)):
        out += [("lemma: %s is not zero" % n, e > 0, [d > 0, d == (1 if k != 1 else -1) * dot(B[k], crossv(*[B[i] for i in I3 if i != k]))],
                 crossv(*[B[i] for i in I3 if i != k]) + [d]),
                ("lemma: %s > 0" % n, m > 0, [m >= 0, m * m == e, e > 0], [m, e])]
    out += [("lemma: cos alpha", ca * b * cc == bc), ("lemma: cos beta", cb * a * cc == ac), ("lemma: cos gamma", cg * a * b == ab)]
    for i, (n, x, s_, e1, e2, q2, p2, q) in enumerate((("alpha", ca, sa, b, cc, b2, c2, bc), ("beta", cb, sb, a, cc, a2, c2, ac), ("gamma", cg, sg, a, b, a2, b2, ab))):
        w = crossv(*[B[k] for k in I3 if k != i])
        ww = dot(w, w)
        out += [("lemma: 1-cos^2 %s" % n, (1 - x * x) > 0, [q2 * p2 - q * q == ww, ww > 0, e1 > 0, e2 > 0, e1 * e1 == q2, e2 * e2 == p2, x * e1 * e2 == q], [ww, q2, p2, q, e1, e2, x]),
                ("lemma: sin %s" % n, z3.And(s_ > 0, s_ * s_ + x * x == 1))]
    hy = [a2 * b2 * c2 + 2 * bc * ac * ab - a2 * bc * bc - b2 * ac * ac - c2 * ab * ab == d * d, d > 0, a > 0, b > 0, cc > 0,
          a * a == a2, b * b == b2, cc * cc == c2, ca * b * cc == bc, cb * a * cc == ac, cg * a * b == ab]
    out += [("lemma: volume in terms of the edges", vn2(ca, cb, cg) * (a * a) * (b * b) * (cc * cc) == d * d, hy, [a2, b2, c2, bc, ac, ab, d, a, b, cc, ca, cb, cg]),
            ("lemma: the angles make a cell", vn2(ca, cb, cg) > 0, [vn2(ca, cb, cg) * (a * a) * (b * b) * (cc * cc) == d * d, d > 0, a > 0, b > 0, cc > 0],
             [d, a, b, cc, vn2(ca, cb, cg)])]
    out += consistent(c, a, b, cc, ca, cb, cg, sa, sb, sg)
    out += std_base(c, a, b, cc, ca, cb, cg, sa, sb, sg)
    V_ = UF["sqrt"](vn2(ca, cb, cg))
    S_ = M(c, "mstdbase")
    out += [("lemma: standard base (0,0) > 0", S_[0][0] > 0, [S_[0][0] * sa == a * V_, sa > 0, a > 0, V_ > 0], [S_[0][0], sa, a, V_]),
            ("lemma: standard base is regular", det3(S_) == S_[0][0] * (b * sa) * cc),
            ("lemma: its determinant is positive", S_[0][0] * (b * sa) * cc > 0, [S_[0][0] > 0, b > 0, sa > 0, cc > 0], [S_[0][0], b, sa, cc])]
    out += metric(c, a, b, cc, ca, cb, cg)[0] if stage else []
    return out


def base_hint(c, call):
    if len(c.calls("R3::inverse")) == 0 and "mstdbase" in repr(call.args[0]):
        return base_lemmas(c, 0)
    return []


EPSD = z3.RealVal("1e-8")


def base_post(c):
    B = given(c)
    t = c.t
    d = det3(B)
    a2, b2, c2 = (dot(x, x) for x in B)
    out = [("accepted only when right-handed and not degenerate", d >= EPSD * z3.RealVal("99/100"))]
    if not any("mstdbase" in repr(x.args[0]) for x in c.calls("R3::inverse")):
        out += base_lemmas(c, 0)
    out += meq("base rows are the given vectors", M(c, "mbase"), B)
    out += [("edges are the lengths", z3.And(t("ma") >= 0, t("mb") >= 0, t("mc") >= 0, t("ma") * t("ma") == a2, t("mb") * t("mb") == b2, t("mc") * t("mc") == c2))]
    out += [("lemma: %s > 0" % x, t(x) > 0) for x in ("ma", "mb", "mc")]
    out += [("cosine of alpha", t("mcosa") * t("mb") * t("mc") == dot(B[1], B[2])),
            ("cosine of beta", t("mcosb") * t("ma") * t("mc") == dot(B[0], B[2])),
            ("cosine of gamma", t("mcosg") * t("ma") * t("mb") == dot(B[0], B[1]))]
    out += [("metric tensor %s" % n, M(c, "mmetrics")[i][j] == dot(B[i], B[j])) for i in I3 for j in I3 for n in ["(%d,%d)" % (i, j)]]
    out += [("angles", z3.And(t("malpha") == ACOSD(t("mcosa")), t("mbeta") == ACOSD(t("mcosb")), t("mgamma") == ACOSD(t("mcosg"))))]
    for i, n in enumerate(("mva", "mvb", "mvc")):
        out += veq("%s is the given vector" % n, Vv(c, n), B[i])
    RB, NB, RN, S_ = (M(c, x) for x in ("mrecbase", "mnormbase", "mrecnormbase", "mstdbase"))
    Q = M(c, "mbaserot")
    out += meq("base * recbase = 1", mul(B, RB), ID3)
    SI = M(c, [x for x in c.calls("R3::inverse") if "mstdbase" in repr(x.args[0])][0].ret)
    si = [f for _, f in meq("", mul(S_, SI), ID3) + meq("", mul(SI, S_), ID3)]
    q = [f for _, f in meq("", Q, mul(SI, B))]
    ab_ = sum(B, []) + sum(SI, []) + sum(S_, [])
    out += [(n, f, si + q, ab_) for n, f in meq("stdbase * baserot = base", mul(S_, Q), B)]
    for j, n in enumerate(("mvar", "mvbr", "mvcr")):
        out += veq("%s is column %d of the reciprocal base" % (n, j), Vv(c, n), [RB[i][j] for i in I3])
    for i, n in enumerate(("mar", "mbr", "mcr")):
        out += [("normalized base row %d" % i, z3.And([NB[i][j] == B[i][j] * t(n) for j in I3])),
                ("normalized reciprocal base column %d" % i, z3.And([RN[j][i] * t(n) == RB[j][i] for j in I3]))]
    return out


def base_raises(c, e):
    return [("rejected only when degenerate or left-handed", det3(given(c)) < EPSD * z3.RealVal("101/100"))] + \
        [("state is unchanged: %s" % k, c.same(c.m(k.split("::")[-1]))) for k in c.this.shape.fields]


# R3::inverse(mstdbase) is needed for the rotation: its regularity follows from mar, mb*sina, mc != 0
setLatBase = Spec(L + "setLatBase", params=["R3::Vector"] * 3, post=base_post, hints={"R3::inverse": base_hint}, raises=base_raises, use=USE + [acosd], divcheck=False, T=20)


# ---- conversions ----------------------------------------------------------------
def inv(c):
    return [("inverse", f) for _, f in meq("", mul(M(c, "mbase"), M(c, "mrecbase")), ID3) + meq("", mul(M(c, "mrecbase"), M(c, "mbase")), ID3)]


cartesian = Spec(L + "cartesian", params=["R3::Vector"], use=[mxv1, mxv2], post=lambda c: veq("lv * base", Vv(c, c.r), vm(Vv(c, c.a(0)), M(c, "mbase"))))
fractional = Spec(L + "fractional", params=["R3::Vector"], use=[mxv1, mxv2],
                  post=lambda c: veq("cv * recbase", Vv(c, c.r), vm(Vv(c, c.a(0)), M(c, "mrecbase"))))
TOL = z3.RealVal("1e-7")


def ucvf(c):
    u, r = Vv(c, c.a(0)), Vv(c, c.r)
    out = []
    for i in I3:
        out.append(("inside the cell [%d]" % i, z3.And(r[i] >= 0, r[i] < 1)))
        out.append(("differs by whole translations [%d]" % i, z3.Or(z3.IsInt(u[i] - r[i]), z3.And(r[i] == 0, u[i] - z3.ToReal(c.ex.floor(u[i])) >= 1 - TOL))))
    return out


ucvFractional = Spec(L + "ucvFractional", params=["R3::Vector"], post=ucvf)


def ucvc(c):
    """Cartesian image of the position whose fractional coordinates are reduced to the cell"""
    q = c.ex.fresh
    r = Vv(c, c.r)
    f = vm(r, M(c, "mrecbase"))
    u = vm(Vv(c, c.a(0)), M(c, "mrecbase"))
    out = []
    w = Vv(c, c.calls("Lattice::ucvFractional")[-1].ret)
    B = M(c, "mbase")
    inv_ = [x for _, x in meq("", mul(B, M(c, "mrecbase")), ID3)]
    RC = sum(M(c, "mrecbase"), []) + sum(B, [])
    for i in I3:
        out.append(("lemma: fractional coordinates of the result [%d]" % i, f[i] == w[i], inv_ + [r[k] == vm(w, B)[k] for k in I3], RC + w + r))
    for i in I3:
        out.append(("inside the cell [%d]" % i, z3.And(f[i] >= 0, f[i] < 1)))
        out.append(("differs by whole translations [%d]" % i, z3.Or(z3.IsInt(u[i] - f[i]), z3.And(f[i] == 0, u[i] - z3.ToReal(c.ex.floor(u[i])) >= 1 - TOL))))
    return out


def cm(c):
    N = M(c, "mnormbase")
    return meq("N^T M N", M(c, c.r), mul(T(N), mul(M(c, c.a(0)), N)))


def fm(c):
    N = M(c, "mrecnormbase")
    return meq("N^-T M N^-1", M(c, c.r), mul(T(N), mul(M(c, c.a(0)), N)))


def sym(c):
    G = M(c, "mmetrics")
    return [("metric tensor is symmetric", z3.And(G[0][1] == G[1][0], G[0][2] == G[2][0], G[1][2] == G[2][1]))]


def qf(c, u, v):
    return dot(u, mv(M(c, "mmetrics"), v))


def diag(c):
    r = Vv(c, c.r)
    one = z3.And([z3.Or(x == 1, x == -1) for x in r])
    qs = [qf(c, d, d) for d in ([1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1])]
    return [("is a cell diagonal", one)] + [("no diagonal is longer %d" % i, qf(c, r, r) >= q) for i, q in enumerate(qs)]


def posdef(c):
    G = M(c, "mmetrics")
    return sym(c) + [("", qf(c, [z3.RealVal(x) for x in d], [z3.RealVal(x) for x in d]) >= 0) for d in ([1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1])]


ldot = Spec(L + "dot", params=["R3::Vector"] * 2, pre=sym, post=lambda c: [("u G v", c.rt == qf(c, Vv(c, c.a(0)), Vv(c, c.a(1))))])
lnorm = Spec(L + "norm", params=["R3::Vector"], pre=lambda c: sym(c) + [("", qf(c, Vv(c, c.a(0)), Vv(c, c.a(0))) >= 0)],
             post=lambda c: sqnorm(c, qf(c, Vv(c, c.a(0)), Vv(c, c.a(0)))))


def dpre(c):
    d = [a - b for a, b in zip(Vv(c, c.a(0)), Vv(c, c.a(1)))]
    return sym(c) + [("", qf(c, d, d) >= 0)]


def dpost(c):
    d = [a - b for a, b in zip(Vv(c, c.a(0)), Vv(c, c.a(1)))]
    return sqnorm(c, qf(c, d, d))


def angpre(c):
    u, v = Vv(c, c.a(0)), Vv(c, c.a(1))
    return sym(c) + [("u is not zero", qf(c, u, u) > 0), ("v is not zero", qf(c, v, v) > 0),
                     ("Cauchy-Schwarz", qf(c, u, v) * qf(c, u, v) <= qf(c, u, u) * qf(c, v, v))]


def angpost(fn, unit):
    def post(c):
        u, v = Vv(c, c.a(0)), Vv(c, c.a(1))
        n = c.calls("Lattice::norm")
        d = c.calls("Lattice::dot")[-1].ret.t
        nu, nv = n[-2].ret.t, n[-1].ret.t
        q, qu, qv = qf(c, u, v), qf(c, u, u), qf(c, v, v)
        x = d / (nu * nv)
        lens = [nu >= 0, nv >= 0, z3.Or(z3.And(nu * nu == qu, nv * nv == qv), z3.And(nu * nu == qv, nv * nv == qu)), qu > 0, qv > 0, d == q, q * q <= qu * qv]
        return [("the cosine is u.v/(|u||v|)", x * (nu * nv) == q, lens, [q, qu, qv]),
                ("lemma: the cosine is in range", z3.And(x >= -1, x <= 1), lens, [q, qu, qv]),
                ("arc cosine of it", c.rt == fn(x))]
    return post


DIAGS = ([1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1])


def diag_static(ex, lv):
    """the list is filled on the first call: it is empty or holds the four diagonals"""
    first = ex.decide(ex.fresh("first call", z3.BoolSort()))
    v = ex.zero(lv.shape)
    if not first:
        d = dict(v.lv)
        d[("len",)] = z3.IntVal(4)
        for k in range(3):
            a = d[("el", str(k))]
            for i, g in enumerate(DIAGS):
                a = z3.Store(a, i, z3.RealVal(g[k]))
            d[("el", str(k))] = a
        v = V(v.shape, d)
    ex.assign(lv, v)


same_base = lambda c: z3.And([x == y for x, y in zip(sum(M(c, "mbase"), []), sum(M(c, c.args[0].f([k for k in c.args[0].shape.fields if k.endswith("mbase")][0])), []))])
SPECS = R3SPECS + [
    setLatPar, setLatBase, cartesian, fractional, ucvFractional,
    Spec(L + "ucvCartesian", params=["R3::Vector"], pre=inv, use=[cartesian, fractional, ucvFractional], post=ucvc),
    Spec(L + "cartesianMatrix", post=cm), Spec(L + "fractionalMatrix", post=fm),
    ldot, lnorm,
    Spec(L + "distance", params=["R3::Vector"] * 2, pre=dpre, post=dpost, use=[lnorm]),
    Spec(L + "angledeg", params=["R3::Vector"] * 2, pre=angpre, use=[acosd, ldot, lnorm], post=angpost(ACOSD, 180)),
    Spec(L + "anglerad", params=["R3::Vector"] * 2, pre=angpre, use=[ldot, lnorm], post=angpost(UF["acos"], 1)),
    Spec(L + "ucMaxDiagonal", pre=posdef, post=diag, statics={"ucdiagonals": diag_static}, use=[lnorm]),
    Spec(L + "ucMaxDiagonalLength", pre=posdef, use=[Spec(L + "ucMaxDiagonal", post=diag)],
         post=lambda c: [("at least every diagonal %d" % i, z3.And(c.rt >= 0, c.rt * c.rt >= qf(c, d, d))) for i, d in enumerate(([1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]))]),
    Spec(L + "volume", pre=lambda c: [("", vn2(c.t("mcosa"), c.t("mcosb"), c.t("mcosg")) >= 0)],
         post=lambda c: [("abc * sqrt(1+2cacbcg-ca2-cb2-cg2)", c.rt * c.rt == vn2(c.t("mcosa"), c.t("mcosb"), c.t("mcosg")) * c.t("ma") * c.t("ma") * c.t("mb") * c.t("mb") * c.t("mc") * c.t("mc"))]),
    Spec(L + "operator==", post=lambda c: [("equal exactly when the bases are equal", c.rt == same_base(c))]),
    Spec(L + "operator!=", post=lambda c: [("unequal exactly when the bases differ", c.rt == z3.Not(same_base(c)))]),
]
for n in "a b c alpha beta gamma cosalpha cosbeta cosgamma sinalpha sinbeta singamma ar br cr alphar betar gammar cosalphar cosbetar cosgammar sinalphar sinbetar singammar va vb vc var vbr vcr metrics base stdbase baserot recbase".split():
    f = {"alpha": "malpha", "beta": "mbeta", "gamma": "mgamma"}.get(n)
    f = "m" + n.replace("alpha", "a").replace("beta", "b").replace("gamma", "g") if f is None and n[:3] in ("cos", "sin") else "m" + n
    SPECS.append(Spec(L + n, params=[], post=lambda c, f=f: [("returns the stored value", c.ex.eq(c.r, c.v(f))), ]))
