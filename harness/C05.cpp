#include "common.hpp"
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <array>
const char* const vh_rule() { return "shells over random and special cells (skewed, orthogonal, hexagonal, flat), random, zero, negative, reversed and exact bounds, against brute force over index boxes; repeated after rewind, partial iterations; reflections by Q and d"; }
using namespace vh;
using namespace diffpy::srreal;
typedef long double ld;
typedef std::array<int, 3> I3;

struct Cell {
    double a, b, c, al, be, ga;
    ld g[3][3], ri[3];      // metric, lengths of the reciprocal vectors
    bool exact;
    bool init() {
        ld d = acosl(-1.0L) / 180, ca = cosl(al * d), cb = cosl(be * d), cg = cosl(ga * d);
        if (al == 90) ca = 0; if (be == 90) cb = 0; if (ga == 90) cg = 0;
        if (al == 60) ca = 0.5L; if (be == 60) cb = 0.5L; if (ga == 60) cg = 0.5L;
        if (al == 120) ca = -0.5L; if (be == 120) cb = -0.5L; if (ga == 120) cg = -0.5L;
        ld v2 = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg;
        if (v2 < 0.01) return false;
        ld m[3][3] = {{(ld)a * a, (ld)a * b * cg, (ld)a * c * cb}, {(ld)a * b * cg, (ld)b * b, (ld)b * c * ca}, {(ld)a * c * cb, (ld)b * c * ca, (ld)c * c}};
        memcpy(g, m, sizeof m);
        ld v = sqrtl(v2);
        ri[0] = sqrtl(1 - ca * ca) / (a * v); ri[1] = sqrtl(1 - cb * cb) / (b * v); ri[2] = sqrtl(1 - cg * cg) / (c * v);
        return true;
    }
    ld r2(int i, int j, int k) const {
        ld x[3] = {(ld)i, (ld)j, (ld)k}, s = 0;
        for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) s += x[p] * x[q] * g[p][q];
        return s;
    }
    std::string str() const { return Fmt() << "cell " << a << " " << b << " " << c << " " << al << " " << be << " " << ga; }
};

// inverse of the metric, i.e. the metric of the reciprocal lattice
static void invert(const ld m[3][3], ld r[3][3])
{
    ld det = 0;
    for (int i = 0; i < 3; ++i) det += m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        r[j][i] = (m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) / det;
}

static Cell randcell5(Rng& g, int k)
{
    for (;;) {
        Cell c; c.exact = false;
        switch (k % 8) {
            case 0: { double e[] = {0.5, 1, 2, 4}; c.a = e[g.integer(0, 3)]; c.b = e[g.integer(0, 3)]; c.c = e[g.integer(0, 3)]; c.al = c.be = c.ga = 90; c.exact = true; break; }
            case 1: c.a = c.b = g.uni(1, 3); c.c = g.uni(1, 4); c.al = c.be = 90; c.ga = 120; break;
            case 2: c.a = c.b = c.c = g.uni(1, 3); c.al = c.be = c.ga = 60; break;
            case 3: c.a = g.uni(1, 3); c.b = g.uni(1, 3); c.c = g.uni(1, 3); c.al = c.ga = 90; c.be = g.uni(35, 145); break;
            case 4: c.a = g.uni(0.8, 1); c.b = g.uni(3, 6); c.c = g.uni(6, 9); c.al = g.uni(70, 110); c.be = g.uni(70, 110); c.ga = g.uni(70, 110); break;
            case 5: c.a = c.b = c.c = 1; c.al = c.be = c.ga = 90; c.exact = true; break;
            default: c.a = g.uni(0.8, 4); c.b = g.uni(0.8, 4); c.c = g.uni(0.8, 4); c.al = g.uni(30, 150); c.be = g.uni(30, 150); c.ga = g.uni(30, 150); break;
        }
        if (c.init()) return c;
    }
}

// points inside [lo, hi), and those too close to a bound to decide in double precision
static void brute(const Cell& c, double lo, double hi, std::set<I3>& in, std::set<I3>& unsure)
{
    if (hi <= 0) { if (hi == 0) return; return; }
    int M[3];
    for (int i = 0; i < 3; ++i) M[i] = (int)floorl((ld)hi * c.ri[i]) + 2;
    ld tol = c.exact ? 0 : 1e-10L * (1 + (ld)hi * hi), l2 = lo < 0 ? -1 : (ld)lo * lo, h2 = (ld)hi * hi;
    for (int i = -M[0]; i <= M[0]; ++i) for (int j = -M[1]; j <= M[1]; ++j) for (int k = -M[2]; k <= M[2]; ++k) {
        ld q = c.r2(i, j, k);
        I3 p = {{i, j, k}};
        if (q == 0) { if (l2 <= 0 && h2 > 0) in.insert(p); continue; }
        if (tol > 0 && (fabsl(q - l2) <= tol || fabsl(q - h2) <= tol)) unsure.insert(p);
        else if (q >= l2 && q < h2) in.insert(p);
    }
}

template <class S> static void compare(S& s, const Cell& c, const std::set<I3>& in, const std::set<I3>& unsure, const int* (S::*idx)() const, const char* key)
{
    std::set<I3> got;
    std::vector<I3> seq;
    long limit = 4 * (in.size() + unsure.size()) + 100000;
    for (; !s.finished(); s.next()) {
        const int* p = (s.*idx)();
        I3 q = {{p[0], p[1], p[2]}};
        if (!got.insert(q).second) { fail(std::string(key) + "-duplicate", Fmt() << "point " << q[0] << " " << q[1] << " " << q[2] << " repeated"); return; }
        seq.push_back(q);
        if (!in.count(q) && !unsure.count(q)) { fail(std::string(key) + "-outside", Fmt() << "point " << q[0] << " " << q[1] << " " << q[2] << " at " << (double)sqrtl(c.r2(q[0], q[1], q[2])) << " is outside of the shell"); return; }
        if (--limit < 0) { fail(std::string(key) + "-endless", "the enumeration does not end"); return; }
    }
    for (const I3& q : in)
        if (!got.count(q)) { fail(std::string(key) + "-missing", Fmt() << "point " << q[0] << " " << q[1] << " " << q[2] << " at " << (double)sqrtl(c.r2(q[0], q[1], q[2])) << " is missing"); return; }
    s.rewind();
    size_t n = 0;
    for (; !s.finished(); s.next(), ++n) {
        const int* p = (s.*idx)();
        if (n >= seq.size() || seq[n] != I3{{p[0], p[1], p[2]}}) { fail(std::string(key) + "-rewind", Fmt() << "different sequence after rewind at " << (long)n); return; }
    }
    if (n != seq.size()) fail(std::string(key) + "-rewind", "sequence shorter after rewind");
    if (seq.size() > 1) {       // partial iteration, then rewind
        s.rewind(); s.next(); s.rewind();
        const int* p = (s.*idx)();
        if (s.finished() || seq[0] != I3{{p[0], p[1], p[2]}}) fail(std::string(key) + "-rewind-partial", "rewind in the middle does not return to the first point");
    }
    s.rewind();
}

static void sphere(Rng& g, int k)
{
    Cell c = randcell5(g, k);
    double big = 4 * pow(c.a * c.b * c.c, 1 / 3.0), hi = g.uni(0.3, 1) * big, lo = g.uni(0, 1.1) * hi;
    switch (g.integer(0, 13)) {
        case 0: lo = 0; break;
        case 1: lo = -g.uni(0, 3); break;
        case 2: hi = -g.uni(0, 3); break;
        case 3: hi = 0; break;
        case 4: lo = hi; break;
        case 5: lo = hi * 0.999; break;
        case 6: lo = 1e-12; break;
        case 7: hi = 0.3 * std::min(c.a, std::min(c.b, c.c)); lo = g.flip() ? 0 : -1; break;
        case 8: lo = hi - 0.05; break;
        case 9: lo = hi + g.uni(0.01, 2); break;
        case 10: lo = 0.4 * std::min(c.a, std::min(c.b, c.c)); break;
    }
    if (c.exact && g.flip(0.7)) {
        lo = g.integer(0, (int)(4 * big)) * 0.25; hi = lo + g.integer(0, (int)(2 * big)) * 0.25;
        if (hi > 1.5 * big) hi = 1.5 * big;
        if (g.flip(0.15)) { lo = 5 * (g.flip() ? 0.5 : 1); hi = lo + 0.25 * g.integer(1, 8); }
    }
    if (!begin(Fmt() << "shell " << lo << " .. " << hi << " " << c.str())) return;
    std::set<I3> in, un;
    brute(c, lo, hi, in, un);
    PointsInSphere p(lo, hi, c.a, c.b, c.c, c.al, c.be, c.ga);
    VEQ("rmin", p.Rmin(), lo); VEQ("rmax", p.Rmax(), hi);
    compare(p, c, in, un, &PointsInSphere::mno, "shell");
    for (p.rewind(); !p.finished(); p.next()) {
        VEQ("index-m", p.m(), p.mno()[0]); VEQ("index-n", p.n(), p.mno()[1]); VEQ("index-o", p.o(), p.mno()[2]);
        double r = (double)sqrtl(c.r2(p.m(), p.n(), p.o()));
        if (!(fabs(p.r() - r) <= 1e-9 * (1 + r)) && !(r == 0 && p.r() < 1e-6)) { fail("distance", Fmt() << "distance of " << p.m() << " " << p.n() << " " << p.o() << " is " << p.r() << ", expected " << r); break; }
    }
    Lattice L(c.a, c.b, c.c, c.al, c.be, c.ga);
    PointsInSphere q(lo, hi, L);
    pointsinsphere::LatticeParameters lp(c.a, c.b, c.c, c.al, c.be, c.ga);
    PointsInSphere t(lo, hi, lp);
    p.rewind();
    for (; !p.finished() && !q.finished() && !t.finished(); p.next(), q.next(), t.next())
        if (!std::equal(p.mno(), p.mno() + 3, q.mno()) || !std::equal(p.mno(), p.mno() + 3, t.mno())) { if (c.exact) fail("constructors", "constructors give different sequences"); break; }
    if (c.exact) VCHECK("constructors-end", p.finished() && q.finished() && t.finished(), "constructors give different numbers of points");
}

static void reflections(Rng& g, int k)
{
    Cell c = randcell5(g, k), r;
    r = c; r.exact = false;
    invert(c.g, r.g);
    for (int i = 0; i < 3; ++i) r.ri[i] = sqrtl(c.g[i][i]);
    double pi = acos(-1.0);
    double unit = 2 * pi / pow(c.a * c.b * c.c, 1 / 3.0), qhi = g.uni(0.5, 3.5) * unit, qlo = g.flip(0.3) ? 0 : g.uni(0, 1.05) * qhi;
    if (!begin(Fmt() << "reflections Q " << qlo << " .. " << qhi << " " << c.str())) return;
    std::set<I3> in, un;
    brute(r, qlo / (2 * pi), qhi / (2 * pi), in, un);
    un.insert(I3{{0, 0, 0}});
    if (qlo == 0) { un.erase(I3{{0, 0, 0}}); }
    ReflectionsInQminQmax ref(qlo, qhi, c.a, c.b, c.c, c.al, c.be, c.ga);
    VEQ("qmin", ref.Qmin(), qlo); VEQ("qmax", ref.Qmax(), qhi);
    compare(ref, r, in, un, &ReflectionsInQminQmax::hkl, "reflections");
    for (ref.rewind(); !ref.finished(); ref.next()) {
        double q = 2 * pi * (double)sqrtl(r.r2(ref.h(), ref.k(), ref.l()));
        if (q == 0) continue;
        if (!close(ref.Q(), q)) { fail("Q", Fmt() << "Q of " << ref.h() << " " << ref.k() << " " << ref.l() << " is " << ref.Q() << ", expected " << q); break; }
        if (!close(ref.d(), 2 * pi / q)) { fail("d", Fmt() << "d of " << ref.h() << " " << ref.k() << " " << ref.l() << " is " << ref.d() << ", expected " << 2 * pi / q); break; }
    }
    Lattice L(c.a, c.b, c.c, c.al, c.be, c.ga);
    ReflectionsInQminQmax ref2(qlo, qhi, L);
    compare(ref2, r, in, un, &ReflectionsInQminQmax::hkl, "reflections-lattice");
    if (qlo > 0) {
        double dmax = 2 * pi / qlo, dmin = 2 * pi / qhi;
        ReflectionsInDmaxDmin rd(dmax, dmin, c.a, c.b, c.c, c.al, c.be, c.ga);
        VEQ("dmin", rd.Dmin(), dmin); VEQ("dmax", rd.Dmax(), dmax);
        VNEAR("dq", rd.Qmin(), qlo, 1e-12); VNEAR("dq", rd.Qmax(), qhi, 1e-12);
        compare(static_cast<ReflectionsInQminQmax&>(rd), r, in, un, &ReflectionsInQminQmax::hkl, "reflections-d");
        ReflectionsInDmaxDmin rl(dmax, dmin, L);
        compare(static_cast<ReflectionsInQminQmax&>(rl), r, in, un, &ReflectionsInQminQmax::hkl, "reflections-d-lattice");
        pointsinsphere::LatticeParameters lp(c.a, c.b, c.c, c.al, c.be, c.ga);
        ReflectionsInDmaxDmin rp(dmax, dmin, lp);
        compare(static_cast<ReflectionsInQminQmax&>(rp), r, in, un, &ReflectionsInQminQmax::hkl, "reflections-d-latpar");
    }
}

static void parameters(Rng& g, int k)
{
    Cell c = randcell5(g, k);
    if (!begin(Fmt() << "reciprocal of " << c.str())) return;
    pointsinsphere::LatticeParameters p(c.a, c.b, c.c, c.al, c.be, c.ga), q = p.reciprocal(), b = q.reciprocal();
    ld m[3][3]; invert(c.g, m);
    VNEAR("ar", p.ar, (double)sqrtl(m[0][0]), 1e-9); VNEAR("br", p.br, (double)sqrtl(m[1][1]), 1e-9); VNEAR("cr", p.cr, (double)sqrtl(m[2][2]), 1e-9);
    VNEAR("car", p.car, (double)(m[1][2] / sqrtl(m[1][1] * m[2][2])), 1e-9);
    VNEAR("cbr", p.cbr, (double)(m[0][2] / sqrtl(m[0][0] * m[2][2])), 1e-9);
    VNEAR("cgr", p.cgr, (double)(m[0][1] / sqrtl(m[0][0] * m[1][1])), 1e-9);
    VNEAR("alphar", cos(p.alphar * M_PI / 180), p.car, 1e-9); VNEAR("betar", cos(p.betar * M_PI / 180), p.cbr, 1e-9); VNEAR("gammar", cos(p.gammar * M_PI / 180), p.cgr, 1e-9);
    VEQ("rec-a", q.a, p.ar); VEQ("rec-b", q.b, p.br); VEQ("rec-c", q.c, p.cr); VEQ("rec-al", q.alpha, p.alphar); VEQ("rec-be", q.beta, p.betar); VEQ("rec-ga", q.gamma, p.gammar);
    VEQ("rec-ar", q.ar, p.a); VEQ("rec-car", q.car, p.ca); VEQ("rec-sbr", q.sbr, p.sb); VEQ("rec-cg", q.cg, p.cgr);
    VEQ("rec-rec", b.a, p.a); VEQ("rec-rec", b.gamma, p.gamma);
    p.a = c.a * 2; p.update();
    VNEAR("update", p.ar, (double)(sqrtl(m[0][0]) / 2), 1e-9);
}

void harness()
{
    Rng g(seed);
    for (int k = 0; k < scale(1600, 20000); ++k) {
        sphere(g, k);
        if (k % 4 == 0) reflections(g, k / 4);
        if (k % 4 == 1) parameters(g, k / 4);
    }
}
