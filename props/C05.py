"""One arbitrary lattice point P=(gm,gn,go) is fixed; the contracts say that the enumeration moves strictly forward in (m,n,o), that every
point it stops at is in the shell, and that it never steps over P when P is in the shell."""
import math
from fractions import Fraction
from dv.contract import *
import z3
from dv.models import UF
ID = "C05"
LEVEL = "proof"
TUS = ["srreal/PointsInSphere.cpp"]
HARNESS = "C05.cpp"
BOUNDED = ["termination of the enumeration (executed, not proved)", "template constructors taking a lattice object"]
ASSUMPTIONS = ["real arithmetic for double and mathematical integers for int: the shell is exact, Rmin <= r < Rmax",
               "sqrt(x)^2 = x and sqrt(x) >= 0 for x >= 0; sind^2 + cosd^2 = 1 and sind > 0 for the angles of a valid cell (C17 covers the values)",
               "valid cell: a, b, c > 0, sines positive, squared unit volume positive"]
N = "diffpy::srreal::"
P = N + "PointsInSphere::"
LP = N + "pointsinsphere::LatticeParameters::"
gm, gn, go = z3.Ints("gm gn go")
tr = z3.ToReal
sqrt = UF["sqrt"]


def rv(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


PI = rv(math.pi)


def alias(c):
    mno = c.lv("_mno")
    for i, nm in enumerate(("_m", "_n", "_o")):
        for k in c.this.shape.fields:
            if k.endswith("::" + nm):
                c.ex.refmembers[(c.this.root, c.this.static(), k)] = mno.f(str(i))


class F:
    """fields as terms, now or at entry"""

    def __init__(self, c, old=False):
        self.ctx_, self.isold = c, old

    def __getattr__(self, k):
        c = self.ctx_
        if k in ("m", "n", "o"):
            lv = c.lv("_mno").f(str("mno".index(k)))
        elif k in LATF:
            lv = c.m(k, c.lv("latpar"))
        else:
            lv = c.lv(k)
        return (c.ex.read(lv, c.pre) if self.isold else c.v(lv)).lv[()]


LATF = "a b c ca cb cg sa sb sg ar br cr car cbr cgr sar sbr sgr".split()
INNER = "n0plane o0plane o0line nHalfSpan oHalfSpan oExclHalfSpan hi_n hi_o outside_o RplaneSquare".split()


def n0(f, m):
    return tr(m) * f.dn0dm


def o0(f, m, n):
    return tr(m) * f.do0dm + (tr(n) - n0(f, m)) * f.do0dn


def sq(x):
    return x * x


def A(f, m):
    return sq(tr(m) / f.ar)


def B(f, m, n):
    return sq((tr(n) - n0(f, m)) / f.b2r)


def C(f, m, n, o):
    return sq((tr(o) - o0(f, m, n)) / f.c1r)


def Q(f, m, n, o):
    return A(f, m) + B(f, m, n) + C(f, m, n, o)


def valid(f, m, n, o):
    q = Q(f, m, n, o)
    return z3.And(q >= f.RminSquare, q < f.RmaxSquare)


VPB = z3.Bool("P in the shell")


def VP(f):
    return VPB


def defP(c):
    """what it means for P to be in the shell (the constants never change)"""
    c.ex.assume(VPB == valid(F(c), gm, gn, go))
    return []


def ghostline(f):
    d, h, e = tr(go) - f.o0line, f.oHalfSpan, f.oExclHalfSpan
    return z3.Implies(z3.And(gm == f.m, gn == f.n), VPB == z3.And(d < h, -d < h, z3.Or(e == 0, d >= e, -d >= e)))


def ceil(c, x):
    return -c.ex.floor(-x)


def floor(c, x):
    return c.ex.floor(x)


def consts(c):
    f = F(c)
    R = f._Rmax
    return [("positive spans per unit", z3.And(f.ar > 0, f.b2r > 0, f.c1r > 0)),
            ("squared outer bound", f.RmaxSquare == z3.If(R < 0, -(R * R), R * R)),
            ("squared inner bound", f.RminSquare == z3.If(f._Rmin < 0, -(f._Rmin * f._Rmin), f._Rmin * f._Rmin))]


def mrange(c):
    f = F(c)
    return [("range of m", f.hi_m == ceil(c, f._Rmax * f.ar))]


def sqrtspan(c, S, h, unit):
    """h is the half span sqrt(S)*unit of a nonnegative S"""
    return z3.And(h >= 0, z3.Implies(S > 0, z3.And(h > 0, sq(h / unit) == S)), z3.Implies(S <= 0, h == 0))


def planegood(c, f):
    return z3.And(f.n0plane == n0(f, f.m), f.o0plane == tr(f.m) * f.do0dm, f.RplaneSquare == f.RmaxSquare - A(f, f.m),
                  sqrtspan(c, f.RplaneSquare, f.nHalfSpan, f.b2r), f.hi_n == ceil(c, f.n0plane + f.nHalfSpan),
                  f.n >= floor(c, f.n0plane - f.nHalfSpan), f.m < f.hi_m)


def rline(f):
    return f.RplaneSquare - B(f, f.m, f.n)


def linegood(c, f):
    e, h, x = f.oExclHalfSpan, f.oHalfSpan, f.o0line
    Rl = rline(f)
    hole = floor(c, x - e) + 1
    return z3.And(x == o0(f, f.m, f.n), sqrtspan(c, Rl, h, f.c1r), sqrtspan(c, Rl - f.RmaxSquare + f.RminSquare, e, f.c1r),
                  f.outside_o == ceil(c, x + h), f.o >= floor(c, x - h),
                  z3.Or(z3.And(f.hi_o == f.outside_o, z3.Or(e == 0, f.o + 1 >= ceil(c, x + e), tr(floor(c, x - e) + 1) >= x + e)),
                        z3.And(f.hi_o == hole, z3.Or(f.o < hole, z3.And(e > h, f.o == floor(c, x - h))), e > 0, tr(hole) < x + e)))


def ahead(f, m, n):
    """P is in the plane/line ahead of (m, n)"""
    return z3.Or(gm > m, z3.And(gm == m, gn > n))


def inv_plane(c):
    f = F(c)
    return z3.Or(z3.And(planegood(c, f), z3.Implies(z3.And(VP(f), gm == f.m), gn < f.hi_n)), z3.And(f.n >= f.hi_n, z3.Implies(VP(f), z3.Not(z3.And(gm == f.m, gn > f.n)))))


def inv_line(c):
    f = F(c)
    return z3.Or(z3.And(planegood(c, f), linegood(c, f), ghostline(f)),
                 z3.And(f.o >= f.hi_o, f.hi_o == f.outside_o, z3.Implies(VP(f), z3.Not(z3.And(gm == f.m, gn == f.n, go > f.o)))))


def INV(c):
    return consts(c) + mrange(c) + [("plane", inv_plane(c)), ("line", inv_line(c))]


def span_in(x, h, S, unit):
    """|x| < h when (x/unit)^2 < S"""
    return z3.Implies(sq(x / unit) < S, z3.And(x < h, -x < h))


# ---------------------------------------------------------------- next_m
def nm_post(c):
    f, g = F(c), F(c, True)
    d = tr(gn) - f.n0plane
    going = f.m < f.hi_m
    S, h, b = f.RplaneSquare, f.nHalfSpan, f.b2r
    return [("one step", f.m == g.m + 1),
            ("lemma plane data", z3.Implies(going, planegood(c, f))),
            ("lemma starts below the range", z3.Implies(going, f.n == floor(c, f.n0plane - h))),
            ("lemma P in this plane is within the plane radius", z3.Implies(z3.And(going, gm == f.m, VP(f)), sq(d / b) < S)),
            ("lemma span", z3.Implies(going, span_in(d, h, S, b))),
            ("P in this plane is within the range of n", z3.Implies(z3.And(going, gm == f.m, VP(f)), z3.And(gn > f.n, gn < f.hi_n)))]


NM = Spec(P + "next_m", setup=alias, pre=lambda c: defP(c) + consts(c) + mrange(c), post=nm_post,
          frame=lambda c: [c.lv("_mno").f("0"), c.lv("_mno").f("1")] + [c.lv(x) for x in ("n0plane", "o0plane", "RplaneSquare", "nHalfSpan", "hi_n")])


# ---------------------------------------------------------------- next_n
def done_post(c, f, g, after):
    """when finished nothing valid is left ahead"""
    return ("finished only when P is not ahead", z3.Implies(z3.And(f.m >= f.hi_m, VP(f)), z3.Not(after)))


def linelemmas(c, f):
    """P on the line just entered is in its range"""
    d, h, e, k = tr(go) - f.o0line, f.oHalfSpan, f.oExclHalfSpan, f.c1r
    Rl = rline(f)
    Re = Rl - f.RmaxSquare + f.RminSquare
    on = z3.And(f.m < f.hi_m, gm == f.m, gn == f.n)
    return on, [("lemma P on the line", z3.Implies(on, z3.And(VP(f) == z3.And(sq(d / k) < Rl, sq(d / k) >= Re)))),
                ("lemma outer span", z3.Implies(f.m < f.hi_m, (sq(d / k) < Rl) == z3.And(d < h, -d < h))),
                ("lemma inner span", z3.Implies(f.m < f.hi_m, (sq(d / k) >= Re) == z3.Or(e == 0, d >= e, -d >= e)))]


def nn_post(c):
    f, g = F(c), F(c, True)
    going = f.m < f.hi_m
    on, lem = linelemmas(c, f)
    return [("forward", z3.Or(f.m > g.m, z3.And(f.m == g.m, f.n > g.n))),
            ("lemma in a good plane", z3.Implies(going, z3.And(planegood(c, f), f.n < f.hi_n))),
            ("plane", z3.Implies(going, inv_plane(c))),
            ("lemma hole within the span", z3.Implies(z3.And(going, f.RminSquare <= f.RmaxSquare), f.oExclHalfSpan <= f.oHalfSpan)),
            ("lemma span within the hole", z3.Implies(z3.And(going, f.RminSquare > f.RmaxSquare), z3.Or(f.oExclHalfSpan > f.oHalfSpan, f.oExclHalfSpan == 0))),
            ("lemma line data", z3.Implies(going, linegood(c, f))),
            ("starts below the range", z3.Implies(going, f.o == floor(c, f.o0line - f.oHalfSpan)))] + lem + \
           [("ghost line", z3.Implies(going, ghostline(f))),
            ("P is not stepped over", z3.Implies(z3.And(going, VP(f), ahead(g, g.m, g.n)),
                                                 z3.Or(ahead(f, f.m, f.n), z3.And(gm == f.m, gn == f.n, go > f.o)))),
            done_post(c, f, g, ahead(g, g.m, g.n))]


def nn_loop(c, l):
    f, g = F(c), F(c, True)
    return consts(c) + mrange(c) + [("plane", inv_plane(c)),
            ("forward", z3.Or(f.m > g.m, z3.And(f.m == g.m, f.n >= g.n))),
            ("P is still ahead", z3.Implies(z3.And(VP(f), ahead(g, g.m, g.n)), ahead(f, f.m, f.n))),
            ("moved into a new plane", z3.Implies(z3.Or(f.m != g.m, f.n != g.n), f.m < f.hi_m))]


NNFRAME = lambda c: [c.lv("_mno")] + [c.lv(x) for x in INNER]
NN = Spec(P + "next_n", setup=alias, use=[NM], pre=lambda c: defP(c) + consts(c) + mrange(c) + [("plane", inv_plane(c))], post=nn_post, loops=nn_loop, autoinv=False, frame=NNFRAME)


# ---------------------------------------------------------------- next_o
def afterP(f):
    return z3.Or(ahead(f, f.m, f.n), z3.And(gm == f.m, gn == f.n, go > f.o))


def fin(f):
    return f.m >= f.hi_m


def step_post(c, forward=True):
    f, g = F(c), F(c, True)
    out = consts(c) + mrange(c)
    d, h, e, k = tr(f.o) - f.o0line, f.oHalfSpan, f.oExclHalfSpan, f.c1r
    Rl = rline(f)
    Re = Rl - f.RmaxSquare + f.RminSquare
    going = z3.Not(fin(f))
    out += [("lemma line data", z3.Implies(going, z3.And(planegood(c, f), linegood(c, f), f.o < f.hi_o))),
            ("lemma inside the outer span", z3.Implies(going, z3.And(d < h, -d < h))),
            ("lemma outside the hole", z3.Implies(going, z3.Or(e == 0, d >= e, -d >= e))),
            ("lemma within the line radius", z3.Implies(going, sq(d / k) < Rl)),
            ("lemma beyond the hole radius", z3.Implies(going, sq(d / k) >= Re)),
            ("every point is in the shell", z3.Implies(going, valid(f, f.m, f.n, f.o)))]
    if forward:
        out += [("strictly forward", z3.Or(f.m > g.m, z3.And(f.m == g.m, f.n > g.n), z3.And(f.m == g.m, f.n == g.n, f.o > g.o))),
                ("no point of the shell is stepped over", z3.Implies(z3.And(VP(f), afterP(g)),
                 z3.And(going, z3.Or(afterP(f), z3.And(gm == f.m, gn == f.n, go == f.o)))))]
    out += [("plane", z3.Implies(going, inv_plane(c))), ("line", z3.Implies(going, inv_line(c)))]
    return out


def no_loop(c, l):
    f, g = F(c), F(c, True)
    return INV(c) + [("forward", z3.Or(f.m > g.m, z3.And(f.m == g.m, f.n > g.n), z3.And(f.m == g.m, f.n == g.n, f.o >= g.o))),
                     ("P is still ahead", z3.Implies(z3.And(VP(f), afterP(g)), afterP(f)))]


NO = Spec(P + "next_o", setup=alias, use=[NN], pre=INV, post=step_post, loops=no_loop, autoinv=False, frame=NNFRAME)
NX = Spec(P + "next", setup=alias, use=[NO], pre=INV, post=step_post, frame=NNFRAME)
FI = Spec(P + "finished", setup=alias, post=lambda c: [("past the last plane", c.rt == (F(c).m >= F(c).hi_m))], frame=lambda c: [])


# ---------------------------------------------------------------- rewind
def rw_post(c):
    f = F(c)
    R, s = f._Rmax, f._Rmax * f.ar
    x = tr(gm) / f.ar
    return [("lemma P within the sphere", z3.Implies(VP(f), sq(x) < f.RmaxSquare)),
            ("lemma nonnegative bound", z3.Implies(VP(f), R > 0)),
            ("lemma distance of the plane", z3.Implies(VP(f), z3.And(x < R, -x < R))),
            ("lemma index of the plane", z3.Implies(VP(f), z3.And(tr(gm) < s, -tr(gm) < s)))] + \
        step_post(c, False) + \
        [("no point of the shell precedes the first one", z3.Implies(VP(f), z3.And(z3.Not(fin(f)),
          z3.Or(afterP(f), z3.And(gm == f.m, gn == f.n, go == f.o)))))]


def rw_hint(c, k):
    """before the first step: P lies in a plane ahead"""
    f = F(c)
    R, s = f._Rmax, f._Rmax * f.ar
    x = tr(gm) / f.ar
    return [("lemma P within the sphere", z3.Implies(VP(f), sq(x) < f.RmaxSquare)),
            ("lemma positive bound", z3.Implies(VP(f), R > 0)),
            ("lemma distance of the plane", z3.Implies(VP(f), z3.And(x < R, -x < R))),
            ("lemma index of the plane", z3.Implies(VP(f), z3.And(tr(gm) < s, -tr(gm) < s))),
            ("lemma P ahead of the first plane", z3.Implies(VP(f), z3.And(gm > f.m, gm < f.hi_m)))]


RW = Spec(P + "rewind", setup=alias, use=[NO], pre=lambda c: defP(c) + consts(c), post=rw_post, hints={"srreal": None},
          frame=lambda c: NNFRAME(c) + [c.lv("hi_m"), c.lv("mHalfSpan")])
RW.hints = {NO.name: rw_hint}

# ---------------------------------------------------------------- lattice parameters
sinD, cosD = z3.Function("sind", z3.RealSort(), z3.RealSort()), z3.Function("cosd", z3.RealSort(), z3.RealSort())
MU = "diffpy::mathutils::"
COSD = Custom(MU + "cosd", lambda ex, call: ex.vR(cosD(ex.load(call.args[0]).lv[()])), trusted="C17", name="cosd")
SIND = Custom(MU + "sind", lambda ex, call: ex.vR(sinD(ex.load(call.args[0]).lv[()])), trusted="C17", name="sind")
SWAP = None


class L:
    """lattice parameters of a location as terms"""

    def __init__(self, c, lv, old=False):
        self.ctx_, self.lv_, self.isold = c, lv, old

    def __getattr__(self, k):
        lv = self.ctx_.m(k, self.lv_)
        return (self.ctx_.ex.read(lv, self.ctx_.pre) if self.isold else self.ctx_.v(lv)).lv[()]


def vu2(p):
    return 1 + 2 * p.ca * p.cb * p.cg - sq(p.ca) - sq(p.cb) - sq(p.cg)


def consistent(p):
    """direct and reciprocal parameters belong to one lattice"""
    V2 = vu2(p)
    return [("positive", z3.And(p.a > 0, p.b > 0, p.c > 0, p.ar > 0, p.br > 0, p.cr > 0)),
            ("positive sines", z3.And(p.sa > 0, p.sb > 0, p.sg > 0)),
            ("positive reciprocal sines", z3.And(p.sar > 0, p.sbr > 0, p.sgr > 0)),
            ("sines and cosines", z3.And([sq(x) + sq(y) == 1 for x, y in ((p.sa, p.ca), (p.sb, p.cb), (p.sg, p.cg))])),
            ("reciprocal sines and cosines", z3.And([sq(x) + sq(y) == 1 for x, y in ((p.sar, p.car), (p.sbr, p.cbr), (p.sgr, p.cgr))])),
            ("positive volume", V2 > 0),
            ("reciprocal edges", z3.And([sq(x * y) * V2 == sq(z) for x, y, z in ((p.ar, p.a, p.sa), (p.br, p.b, p.sb), (p.cr, p.c, p.sg))])),
            ("ratios of the reciprocal edges", z3.And(p.ar * p.a * p.sb == p.br * p.b * p.sa, p.ar * p.a * p.sg == p.cr * p.c * p.sa)),
            ("reciprocal angles", z3.And(p.car * p.sb * p.sg == p.cb * p.cg - p.ca, p.cbr * p.sa * p.sg == p.ca * p.cg - p.cb,
                                         p.cgr * p.sa * p.sb == p.ca * p.cb - p.cg))]


def up_pre(c):
    p = L(c, c.this)
    ca, cb, cg = (cosD(x) for x in (p.alpha, p.beta, p.gamma))
    sa, sb, sg = (sinD(x) for x in (p.alpha, p.beta, p.gamma))
    for s_, k in ((sa, ca), (sb, cb), (sg, cg)):
        c.ex.assume(sq(s_) + sq(k) == 1)
    return cell_pre(c, p)


def up_post(c):
    p = L(c, c.this)
    V2 = vu2(p)
    V = sqrt(1 + 2 * p.ca * p.cb * p.cg - p.ca * p.ca - p.cb * p.cb - p.cg * p.cg)
    out = [("lemma cosines and sines", z3.And(p.ca == cosD(p.alpha), p.cb == cosD(p.beta), p.cg == cosD(p.gamma),
                                              p.sa == sinD(p.alpha), p.sb == sinD(p.beta), p.sg == sinD(p.gamma))),
           ("lemma sines and cosines", z3.And([sq(x) + sq(y) == 1 for x, y in ((p.sa, p.ca), (p.sb, p.cb), (p.sg, p.cg))])),
           ("lemma positive sines", z3.And(p.sa > 0, p.sb > 0, p.sg > 0, p.a > 0, p.b > 0, p.c > 0)),
           ("lemma positive volume", V2 > 0),
           ("lemma unit volume", z3.And(V > 0, sq(V) == V2))]
    for e, k, x, s_ in (("ar", "a", p.a, p.sa), ("br", "b", p.b, p.sb), ("cr", "c", p.c, p.sg)):
        r = getattr(p, e)
        out += [("lemma reciprocal edge " + k, r * (x * V) == s_, (r == s_ / (x * V), x > 0, V > 0)),
                ("lemma positive reciprocal edge " + k, r > 0, (r == s_ / (x * V), x > 0, V > 0, s_ > 0)),
                ("lemma squared reciprocal edge " + k, sq(r * x) * V2 == sq(s_), (r * (x * V) == s_, sq(V) == V2), (V2,))]
    for e, num, den in (("car", p.cb * p.cg - p.ca, p.sb * p.sg), ("cbr", p.ca * p.cg - p.cb, p.sa * p.sg), ("cgr", p.ca * p.cb - p.cg, p.sa * p.sb)):
        k = getattr(p, e)
        out += [("lemma reciprocal cosine " + e, k * den == num, (k == num / den, p.sa > 0, p.sb > 0, p.sg > 0))]
    for s_, k, (u, v, su, sv, w) in (("sar", p.car, (p.cb, p.cg, p.sb, p.sg, p.ca)), ("sbr", p.cbr, (p.ca, p.cg, p.sa, p.sg, p.cb)),
                                     ("sgr", p.cgr, (p.ca, p.cb, p.sa, p.sb, p.cg))):
        sr = getattr(p, s_)
        out += [("lemma reciprocal sine squared " + s_, (1 - sq(k)) * sq(su) * sq(sv) == V2,
                 (k * (su * sv) == u * v - w, sq(su) + sq(u) == 1, sq(sv) + sq(v) == 1)),
                ("lemma reciprocal cosine in range " + s_, 1 - sq(k) > 0, ((1 - sq(k)) * sq(su) * sq(sv) == V2, V2 > 0, su > 0, sv > 0), (V2, k)),
                ("lemma reciprocal sine " + s_, z3.And(sr > 0, sq(sr) == 1 - sq(k)))]
    return out + consistent(p)


RECF = ["ca", "cb", "cg", "sa", "sb", "sg", "ar", "br", "cr", "alphar", "betar", "gammar", "car", "cbr", "cgr", "sar", "sbr", "sgr"]
UP = Spec(LP + "update", use=[COSD, SIND], pre=up_pre, post=up_post, frame=lambda c: [c.lv(x) for x in RECF])


def pairs():
    return [("a", "ar"), ("b", "br"), ("c", "cr"), ("alpha", "alphar"), ("beta", "betar"), ("gamma", "gammar"), ("ca", "car"), ("cb", "cbr"),
            ("cg", "cgr"), ("sa", "sar"), ("sb", "sbr"), ("sg", "sgr")]


def rec_post(c):
    p = L(c, c.this)
    r = {k.split("::")[-1]: c.r.sub(k).lv[()] for k in c.this.shape.fields}
    out = []
    for x, y in pairs():
        out += [("reciprocal " + x, z3.And(r[x] == getattr(p, y), r[y] == getattr(p, x)))]
    return out


class D:
    def __init__(self, d):
        self.__dict__.update(d)


def dual(c, p):
    """swapping direct and reciprocal parameters gives a consistent lattice again"""
    ca, cb, cg, sa, sb, sg = p.ca, p.cb, p.cg, p.sa, p.sb, p.sg
    car, cbr, cgr, sar, sbr, sgr = p.car, p.cbr, p.cgr, p.sar, p.sbr, p.sgr
    V2 = vu2(p)
    q = D({x: getattr(p, y) for x, y in pairs()} | {y: getattr(p, x) for x, y in pairs()})
    out = []
    tri = [("a", ca, cb, cg, sa, sb, sg, car, cbr, cgr, sar, sbr, sgr), ("b", cb, ca, cg, sb, sa, sg, cbr, car, cgr, sbr, sar, sgr),
           ("g", cg, ca, cb, sg, sa, sb, cgr, car, cbr, sgr, sar, sbr)]
    for nm, x, y, z, sx, sy, sz, xr, yr, zr, sxr, syr, szr in tri:
        h = [xr * sy * sz == y * z - x, yr * sx * sz == x * z - y, zr * sx * sy == x * y - z,
             sq(sx) + sq(x) == 1, sq(sy) + sq(y) == 1, sq(sz) + sq(z) == 1]
        hs = h + [sq(sxr) + sq(xr) == 1, sq(syr) + sq(yr) == 1, sq(szr) + sq(zr) == 1, sx > 0, sy > 0, sz > 0, sxr > 0, syr > 0, szr > 0]
        p1 = (yr * sx * sz) * (zr * sx * sy) == (x * z - y) * (x * y - z)
        p2 = (xr * sy * sz) * sq(sx) == (y * z - x) * (1 - sq(x))
        out += [("lemma dual product 1 " + nm, p1, h[1:3], (yr * sx * sz, zr * sx * sy)),
                ("lemma dual product 2 " + nm, p2, [h[0], h[3]], (xr * sy * sz,)),
                ("lemma dual cosine " + nm, (yr * zr - xr) * sq(sx) * sy * sz == x * V2, [p1, p2]),
                ("lemma dual squared sine " + nm, sq(sxr) * sq(sy) * sq(sz) == V2, h + [sq(sxr) + sq(xr) == 1])]
    for nm, x, y, z, sx, sy, sz, xr, yr, zr, sxr, syr, szr in tri:
        out += [("lemma dual product of sines " + nm, syr * szr * sq(sx) * sy * sz == V2,
                 [sq(syr) * sq(sx) * sq(sz) == V2, sq(szr) * sq(sx) * sq(sy) == V2, sx > 0, sy > 0, sz > 0, syr > 0, szr > 0, V2 > 0], (V2,)),
                ("lemma dual angle " + nm, x * syr * szr == yr * zr - xr,
                 [syr * szr * sq(sx) * sy * sz == V2, (yr * zr - xr) * sq(sx) * sy * sz == x * V2, sx > 0, sy > 0, sz > 0], (V2, yr * zr - xr))]
    W2 = vu2(q)
    g1, g2 = sbr * sgr * sq(sa) * sb * sg, (cbr * cgr - car) * sq(sa) * sb * sg
    w1 = W2 == sq(sbr) * sq(sgr) - sq(cbr * cgr - car)
    w2 = W2 * sq(sq(sa) * sb * sg) == sq(g1) - sq(g2)
    w3 = sq(g1) - sq(g2) == sq(V2) * sq(sa)
    out += [("lemma dual volume 1", w1, [sq(sbr) + sq(cbr) == 1, sq(sgr) + sq(cgr) == 1]),
            ("lemma dual volume 2", w2, [w1], (W2,)),
            ("lemma dual volume 3", w3, [g1 == V2, g2 == ca * V2, sq(sa) + sq(ca) == 1], (g1, g2, V2)),
            ("lemma dual volume", W2 * sq(sa) * sq(sb) * sq(sg) == sq(V2), [w2, w3, sa > 0], (W2, sq(g1) - sq(g2), V2))]
    return q, out


def dual_post(c):
    p = L(c, c.this, True)
    q, out = dual(c, p)
    V2, W2 = vu2(p), vu2(q)
    sv = [p.sa > 0, p.sb > 0, p.sg > 0, p.sar > 0, p.sbr > 0, p.sgr > 0, V2 > 0]
    out += [("lemma dual positive volume", W2 > 0, [W2 * sq(p.sa) * sq(p.sb) * sq(p.sg) == sq(V2)] + sv, (V2, W2))]
    for nm, x, y, z, r, e, srec in (("a", p.sa, p.sb, p.sg, p.ar, p.a, p.sar), ("b", p.sb, p.sa, p.sg, p.br, p.b, p.sbr), ("c", p.sg, p.sa, p.sb, p.cr, p.c, p.sgr)):
        out += [("lemma dual edge " + nm, sq(e * r) * W2 == sq(srec),
                 [W2 * sq(p.sa) * sq(p.sb) * sq(p.sg) == sq(V2), sq(r * e) * V2 == sq(x), sq(srec) * sq(y) * sq(z) == V2, V2 > 0] + sv, (V2, W2))]
    for nm, r1, e1, x1, s1, r2, e2, x2, s2 in (("b", p.ar, p.a, p.sa, p.sar, p.br, p.b, p.sb, p.sbr), ("c", p.ar, p.a, p.sa, p.sar, p.cr, p.c, p.sg, p.sgr)):
        o = p.sg if nm == "b" else p.sb
        out += [("lemma dual sine ratio " + nm, s1 * x2 == s2 * x1,
                 [sq(s1) * sq(x2) * sq(o) == V2, sq(s2) * sq(x1) * sq(o) == V2, o > 0, s1 > 0, s2 > 0, x1 > 0, x2 > 0], (V2,)),
                ("lemma dual ratio " + nm, e1 * r1 * s2 == e2 * r2 * s1, [s1 * x2 == s2 * x1, r1 * e1 * x2 == r2 * e2 * x1, x1 > 0, x2 > 0])]
    return rec_post(c) + out + [("the reciprocal lattice: " + n, f) for n, f in consistent(q)]


def swap(ex, call):
    a, b = call.args
    x, y = ex.load(a), ex.load(b)
    ex.write(a, y)
    ex.write(b, x)
    return V(VOID, {})


def metric(p, m, n, o):
    m, n, o = tr(m), tr(n), tr(o)
    return m * m * p.a * p.a + n * n * p.b * p.b + o * o * p.c * p.c + 2 * m * n * p.a * p.b * p.cg + 2 * m * o * p.a * p.c * p.cb + 2 * n * o * p.b * p.c * p.ca


# ---------------------------------------------------------------- init and r
def in_post(c):
    f = F(c)
    p = L(c, c.lv("latpar"))
    a, b, cc, ca, cb, cg, sa, sb, sg = p.a, p.b, p.c, p.ca, p.cb, p.cg, p.sa, p.sb, p.sg
    dn, do, X, b2, c1, ar = f.dn0dm, f.do0dm, f.do0dn, f.b2r, f.c1r, p.ar
    s2 = [sq(sa) + sq(ca) == 1, sa > 0, b > 0, cc > 0, a > 0, ar > 0]
    m, n, o = tr(gm), tr(gn), tr(go)
    h1 = b2 * b * sa == 1
    h2 = c1 * cc == 1
    h3 = X * cc == -ca * b
    h4 = dn * b * sq(sa) == a * (ca * cb - cg)
    h5 = do * cc * sq(sa) == a * (ca * cg - cb)
    h6 = (do - dn * X) * cc == -a * cb
    V2 = vu2(p)
    h7 = sq(a) * V2 == sq(sa) * sq(1 / ar)
    x, y, z = m / ar, (n - m * dn) / b2, (o - (m * do + (n - m * dn) * X)) / c1
    y1, z1 = (n - m * dn) * b * sa, (o * cc + m * a * cb + n * ca * b)
    h8, h9 = y == y1, z == z1
    t1 = sq(a) - sq(a) * sq(cb)
    h10 = sq(1 / ar) * sq(sa) == sq(a) * V2
    u = dn * b * sa
    h11 = u * sa == a * (ca * cb - cg)
    h12 = sq(u) + sq(1 / ar) == t1
    out = consts(c) + [
        ("lemma b2r", h1, [b2 == 1 / (b * sa), b > 0, sa > 0]), ("lemma c1r", h2, [c1 == 1 / cc, cc > 0]),
        ("lemma do0dn", h3),
        ("lemma dn0dm over edges", dn * ar == p.cgr * p.br), ("lemma do0dm over edges", do * ar == p.cbr * p.cr),
        ("lemma dn0dm", h4, [dn * ar == p.cgr * p.br, p.cgr * sa * sb == ca * cb - cg, ar * a * sb == p.br * b * sa, ar > 0, sb > 0, sa > 0]),
        ("lemma do0dm", h5, [do * ar == p.cbr * p.cr, p.cbr * sa * sg == ca * cg - cb, ar * a * sg == p.cr * cc * sa, ar > 0, sg > 0, sa > 0]),
        ("lemma skew", h6, [h3, h4, h5] + s2),
        ("lemma y", h8, [h1, b > 0, sa > 0, b2 > 0]),
        ("lemma z", h9, [h2, h3, h6, cc > 0, c1 > 0]),
        ("lemma plane spacing", h10, [sq(ar * a) * V2 == sq(sa), ar > 0], (V2,)),
        ("lemma u", h11, [h4, sa > 0]),
        ("lemma m coefficient", h12, [h10, h11] + s2, ),
        ("lemma y expanded", sq(y) == sq(n) * sq(b) * sq(sa) - 2 * m * n * b * a * (ca * cb - cg) + sq(m) * sq(u), [h8, h11]),
        ("lemma sum of squares", Q(f, gm, gn, go) == sq(m) * (sq(1 / ar) + sq(u)) + sq(n) * sq(b) * sq(sa) - 2 * m * n * b * a * (ca * cb - cg) + sq(z1),
         [sq(y) == sq(n) * sq(b) * sq(sa) - 2 * m * n * b * a * (ca * cb - cg) + sq(m) * sq(u), z == z1,
          sq(x) == sq(m) * sq(1 / ar), Q(f, gm, gn, go) == sq(x) + sq(y) + sq(z)], (x, y, z, 1 / ar, u)),
        ("lemma m squared term", sq(m) * (sq(1 / ar) + sq(u)) == sq(m) * t1, [sq(u) + sq(1 / ar) == t1], (1 / ar, u)),
        ("lemma n squared term", sq(n) * sq(b) * sq(sa) == sq(n) * sq(b) * (1 - sq(ca)), [sq(sa) + sq(ca) == 1]),
        ("squared distance of any lattice point", Q(f, gm, gn, go) == metric(p, gm, gn, go),
         [Q(f, gm, gn, go) == sq(m) * (sq(1 / ar) + sq(u)) + sq(n) * sq(b) * sq(sa) - 2 * m * n * b * a * (ca * cb - cg) + sq(z1),
          sq(m) * (sq(1 / ar) + sq(u)) == sq(m) * t1, sq(n) * sq(b) * sq(sa) == sq(n) * sq(b) * (1 - sq(ca))],
         (Q(f, gm, gn, go), sq(m) * (sq(1 / ar) + sq(u)), sq(n) * sq(b) * sq(sa)))]
    return out


INITF = ["RminSquare", "RmaxSquare", "b2r", "c2r", "ca2r", "c1r", "dn0dm", "do0dm", "do0dn"]
IN = Spec(P + "init", setup=alias, pre=lambda c: consistent(L(c, c.lv("latpar"))), post=in_post, frame=lambda c: [c.lv(x) for x in INITF])

R_ = Spec(P + "r", setup=alias, post=lambda c: [("distance from the origin", c.rt == sqrt(metric(L(c, c.lv("latpar")), F(c).m, F(c).n, F(c).o)))],
          frame=lambda c: [])
GET = [Spec(P + k, setup=alias, post=lambda c, i=i: [("the index", c.rt == getattr(F(c), "mno"[i]))], frame=lambda c: []) for i, k in enumerate("mno")]
GET += [Spec(P + "Rmin", post=lambda c: [("the bound", c.rt == c.t("_Rmin"))], frame=lambda c: []),
        Spec(P + "Rmax", post=lambda c: [("the bound", c.rt == c.t("_Rmax"))], frame=lambda c: [])]
REC = Spec(LP + "reciprocal", use=[Custom("std::swap", swap)], pre=lambda c: consistent(L(c, c.this)), post=dual_post, frame=lambda c: [])

# ---------------------------------------------------------------- constructors, reflections
def lpctor_pre(c):
    a = [c.at(i) for i in range(6)]
    q = D(dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), a)))
    return cell_pre(c, q)


def cell_pre(c, p):
    ca, cb, cg = (cosD(x) for x in (p.alpha, p.beta, p.gamma))
    sa, sb, sg = (sinD(x) for x in (p.alpha, p.beta, p.gamma))
    V2 = 1 + 2 * ca * cb * cg - sq(ca) - sq(cb) - sq(cg)
    return [("valid cell", z3.And(p.a > 0, p.b > 0, p.c > 0, sa > 0, sb > 0, sg > 0, V2 > 0))]


def lp_post(c):
    p = L(c, c.this)
    return consistent(p) + [("the parameters that were given", z3.And([getattr(p, k) == c.at(i) for i, k in enumerate(("a", "b", "c", "alpha", "beta", "gamma"))]))]


LPC = Spec(LP + "LatticeParameters", use=[UP], params=["double"] * 6, pre=lpctor_pre, post=lp_post)


def pc_post(c):
    f = F(c)
    p = L(c, c.lv("latpar"))
    return [("lemma the bounds that were given", z3.And(f._Rmin == c.at(0), f._Rmax == c.at(1)))] + rw_post(c)[4:] + \
        [("squared distance of any lattice point", Q(f, gm, gn, go) == metric(p, gm, gn, go))]


PC1 = Spec(P + "PointsInSphere", use=[LPC, IN, RW], params=["double"] * 8, name="PointsInSphere(cell)", T=15,
           pre=lambda c: cell_pre(c, D(dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), [c.at(i) for i in range(2, 8)])))), post=pc_post)
PC2 = Spec(P + "PointsInSphere", use=[IN, RW], params=["double", "double", "LatticeParam"], name="PointsInSphere(LatticeParameters)", T=15,
           pre=lambda c: consistent(L(c, c.args[2])),
           post=lambda c: [("lemma the lattice that was given", z3.And([getattr(L(c, c.lv("latpar")), k) == getattr(L(c, c.args[2], True), k)
                                                                  for xy in pairs() for k in xy]))] + pc_post(c))

RQ = N + "ReflectionsInQminQmax::"
RD = N + "ReflectionsInDmaxDmin::"


def sub(c, base=None):
    """context seen from the embedded PointsInSphere"""
    k = Ctx(c.ex, c.fn, c.lv("sph") if base is None else base, c.args, c.pre)
    return k


def alias2(c):
    alias(sub(c))


def rdist(c):
    k = sub(c)
    return sqrt(metric(L(k, k.lv("latpar")), F(k).m, F(k).n, F(k).o))


RGET = [Spec(RQ + nm, setup=alias2, use=[GET[i]], post=lambda c, i=i: [("the index", c.rt == getattr(F(sub(c)), "mno"[i]))], frame=lambda c: [])
        for i, nm in enumerate("hkl")]
RGET += [Spec(RQ + "Q", setup=alias2, use=[R_], post=lambda c: [("magnitude of Q", c.rt == 2 * PI * rdist(c))], frame=lambda c: []),
         Spec(RQ + "d", setup=alias2, use=[R_], post=lambda c: [("plane spacing", z3.Implies(rdist(c) > 0, c.rt * rdist(c) == 1))], frame=lambda c: []),
         Spec(RQ + "finished", setup=alias2, use=[FI], post=lambda c: [("past the last plane", c.rt == (F(sub(c)).m >= F(sub(c)).hi_m))], frame=lambda c: []),
         Spec(RQ + "next", setup=alias2, use=[NX], pre=lambda c: INV(sub(c)), post=lambda c: step_post(sub(c)), frame=lambda c: NNFRAME(sub(c))),
         Spec(RQ + "rewind", setup=alias2, use=[RW], pre=lambda c: defP(sub(c)) + consts(sub(c)), post=lambda c: rw_post(sub(c))[4:],
              frame=lambda c: NNFRAME(sub(c)) + [sub(c).lv("hi_m"), sub(c).lv("mHalfSpan")]),
         Spec(RQ + "Qmin", post=lambda c: [("the bound", c.rt == c.t("_Qmin"))], frame=lambda c: []),
         Spec(RQ + "Qmax", post=lambda c: [("the bound", c.rt == c.t("_Qmax"))], frame=lambda c: []),
         Spec(RD + "Dmin", post=lambda c: [("the bound", c.rt == c.t("_Dmin"))], frame=lambda c: []),
         Spec(RD + "Dmax", post=lambda c: [("the bound", c.rt == c.t("_Dmax"))], frame=lambda c: [])]
INVPI = rv(0.31830988618379067154)


def rq_post(c):
    k = sub(c)
    f = F(k)
    q = {x: L(c, c.lv("latpar")) for x in "p"}["p"]
    rec = D({x: getattr(q, y) for x, y in pairs()} | {y: getattr(q, x) for x, y in pairs()})
    return [("the bounds that were given", z3.And(c.t("_Qmin") == c.at(0), c.t("_Qmax") == c.at(1))),
            ("distances in the reciprocal lattice are Q over 2 pi", z3.And(f._Rmin == c.at(0) * INVPI / 2, f._Rmax == c.at(1) * INVPI / 2)),
            ("lemma embedded lattice", z3.And([getattr(L(k, k.lv("latpar")), x) == getattr(rec, x) for xy in pairs() for x in xy])),
            ("squared length of any reciprocal vector", Q(f, gm, gn, go) == metric(rec, gm, gn, go),
             [Q(f, gm, gn, go) == metric(L(k, k.lv("latpar")), gm, gn, go)] + [getattr(L(k, k.lv("latpar")), x) == getattr(rec, x) for xy in pairs() for x in xy],
             (Q(f, gm, gn, go),))] + rw_post(k)[4:]


RQ1 = Spec(RQ + "ReflectionsInQminQmax", use=[REC, PC2], params=["double", "double", "LatticeParam"], name="ReflectionsInQminQmax(LatticeParameters)",
           pre=lambda c: consistent(L(c, c.args[2])), post=rq_post, setup=None, T=15)
RQ2 = Spec(RQ + "ReflectionsInQminQmax", use=[REC, PC2, LPC], params=["double"] * 8, name="ReflectionsInQminQmax(cell)", T=15,
           pre=lambda c: cell_pre(c, D(dict(zip(("a", "b", "c", "alpha", "beta", "gamma"), [c.at(i) for i in range(2, 8)])))), post=rq_post)


SPECS = [NM, NN, NO, NX, FI, RW, UP, IN, R_, REC, LPC, PC1, PC2, RQ1, RQ2] + GET + RGET
