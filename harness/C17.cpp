#include "common.hpp"
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/R3linalg.hpp>
const char* const vh_rule() { return "degrees: every multiple of 1 degree within +-1080, random reals and countermodel values; tolerance pairs around eps; sequences of length 0..5"; }
using namespace diffpy::mathutils;
using namespace vh;
static long double PIl = 3.14159265358979323846264338327950288L;
static void trig(double x)
{
    if (!begin(Fmt() << "trig x=" << x)) return;
    long double xl = fmodl((long double)x, 360.0L);
    VNEAR("cosd", cosd(x), (double)cosl(xl / 180.0L * PIl), 1e-11);
    VNEAR("sind", sind(x), (double)sinl(xl / 180.0L * PIl), 1e-11);
    double m = std::fmod(std::fabs(x), 360.0);
    static const double a[] = {0, 60, 300, 90, 270, 120, 240, 180}, v[] = {1, .5, .5, 0, 0, -.5, -.5, -1};
    for (int i = 0; i < 8; ++i) if (m == a[i]) VEQ("cosd-exact", cosd(x), v[i]);
    double y = 90.0 - x; m = std::fmod(std::fabs(y), 360.0);
    for (int i = 0; i < 8; ++i) if (m == a[i]) VEQ("sind-exact", sind(x), v[i]);
}
static void inv(double x)
{
    if (!begin(Fmt() << "inverse x=" << x)) return;
    VNEAR("acosd", acosd(x), (double)(acosl(x) / PIl * 180.0L), 1e-12);
    VNEAR("asind", asind(x), (double)(asinl(x) / PIl * 180.0L), 1e-12);
}
static void cmp(double x, double y, double e)
{
    if (!begin(Fmt() << "compare " << x << " " << y << " eps " << e)) return;
    int n = eps_eq(x, y, e) + eps_gt(x, y, e) + eps_lt(x, y, e);
    VEQ("trichotomy", n, 1);
    VEQ("eps_eq", eps_eq(x, y, e), std::fabs(x - y) <= e);
    EpsilonLess lt(e); EpsilonEqual eq(e);
    VEQ("EpsilonLess", lt(x, y), eps_lt(x, y, e));
    VEQ("EpsilonEqual", eq(x, y), eps_eq(x, y, e));
    VEQ("antisymmetry", eps_lt(x, y, e), eps_gt(y, x, e));
}
void harness()
{
    Rng g(seed);
    for (double h : hints) { trig(h); if (std::fabs(h) <= 1) inv(h); }
    for (int i = -1080; i <= 1080; ++i) trig(i);
    for (int i = -72; i <= 72; ++i) trig(i * 7.5 + 3e7 * 0);
    for (long i = 0; i < scale(20000, 400000); ++i) trig(g.uni(-2000, 2000));
    for (int i = -400; i <= 400; ++i) inv(i / 400.0);
    for (long i = 0; i < scale(5000, 100000); ++i) inv(g.uni(-1, 1));
    for (long i = 0; i < scale(5000, 100000); ++i) {
        double e = g.flip() ? 0.25 : 0.0, x = g.integer(-8, 8) / 8.0, y = g.integer(-8, 8) / 8.0;
        cmp(x, y, e);
        cmp(x, x + g.uni(-3, 3) * SQRT_DOUBLE_EPS, SQRT_DOUBLE_EPS);
    }
    for (long i = 0; i < scale(3000, 60000); ++i) {
        std::vector<double> u(g.integer(0, 5)), v(g.integer(0, 5));
        for (auto& x : u) x = g.integer(-2, 2) / 8.0;
        for (auto& x : v) x = g.integer(-2, 2) / 8.0;
        if (g.flip(.7)) { v = u; if (!v.empty()) v[g.integer(0, v.size() - 1)] += g.integer(-2, 2) / 8.0; }
        begin(Fmt() << "sequences " << u << " " << v);
        EpsilonEqual eq(0.125); EpsilonLess lt(0.125);
        bool e = u.size() == v.size();
        for (size_t j = 0; e && j < u.size(); ++j) e = std::fabs(u[j] - v[j]) <= 0.125;
        VEQ("seq-equal", eq(u, v), e);
        bool l = false, done = false;
        for (size_t j = 0; !done; ++j) {
            if (j >= v.size()) { l = false; done = true; }
            else if (j >= u.size()) { l = true; done = true; }
            else if (u[j] < v[j] - 0.125) { l = true; done = true; }
            else if (v[j] < u[j] - 0.125) { l = false; done = true; }
        }
        VEQ("seq-less", lt(u, v), l);
        using namespace diffpy::srreal;
        R3::Vector a(g.integer(-2, 2) / 8.0, 0, 1), b(g.integer(-2, 2) / 8.0, g.integer(0, 1) / 4.0, 1 + g.integer(-2, 2) / 8.0);
        bool ve = true;
        for (int j = 0; j < 3; ++j) ve = ve && std::fabs(a[j] - b[j]) <= 0.125;
        VEQ("vector-equal", eq(a, b), ve);
        R3::Matrix A = R3::identity(), B = R3::identity();
        B(g.integer(0, 2), g.integer(0, 2)) += g.integer(-2, 2) / 8.0;
        bool me = true; int sg = 0;
        for (int j = 0; j < 9; ++j) {
            double d = A.data()[j] - B.data()[j];
            me = me && std::fabs(d) <= 0.125;
            if (!sg && std::fabs(d) > 0.125) sg = d < 0 ? -1 : 1;
        }
        VEQ("matrix-equal", eq(A, B), me);
        VEQ("matrix-less", lt(A, B), sg < 0);
    }
}
