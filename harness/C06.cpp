#include "common.hpp"
#include <diffpy/srreal/Lattice.hpp>
const char* const vh_rule() { return "random and special cells (triclinic .. cubic, round angles), random rotated bases, rejected bases, random vectors; identities checked against long double arithmetic"; }
using namespace diffpy::srreal;
using namespace vh;
static const double TOL = 1e-8;
typedef R3::Vector Vec; typedef R3::Matrix Mat;
static Vec rv(Rng& g, double s = 3) { return Vec(g.uni(-s, s), g.uni(-s, s), g.uni(-s, s)); }
static Vec mul(const Vec& u, const Mat& M) { Vec r; for (int j = 0; j < 3; ++j) r[j] = u[0] * M(0, j) + u[1] * M(1, j) + u[2] * M(2, j); return r; }
static double ddot(const Vec& u, const Vec& v) { return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; }
static void vnear(const char* key, const Vec& a, const Vec& b, double tol = TOL)
{
    for (int i = 0; i < 3; ++i) if (!close(a[i], b[i], tol)) { fail(key, Fmt() << "component " << i << " is " << a[i] << ", expected " << b[i]); return; }
}
static void mnear(const char* key, const Mat& a, const Mat& b, double tol = TOL)
{
    for (int i = 0; i < 9; ++i) if (!close(a.data()[i], b.data()[i], tol)) { fail(key, Fmt() << "element " << i << " is " << a.data()[i] << ", expected " << b.data()[i]); return; }
}
static Mat mm(const Mat& A, const Mat& B) { Mat C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C(i, j) = A(i, 0) * B(0, j) + A(i, 1) * B(1, j) + A(i, 2) * B(2, j); return C; }
static Mat tr(const Mat& A) { Mat C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C(i, j) = A(j, i); return C; }
static double det(const Mat& A) { return A(0,0)*(A(1,1)*A(2,2)-A(1,2)*A(2,1)) - A(0,1)*(A(1,0)*A(2,2)-A(1,2)*A(2,0)) + A(0,2)*(A(1,0)*A(2,1)-A(1,1)*A(2,0)); }
static double deg(double x) { return x / 180.0 * M_PI; }

static void consistency(const Lattice& L, Rng& g)
{
    const Mat B = L.base(), RB = L.recbase(), I = R3::identity();
    double s = 1e-7;
    mnear("base-recbase", mm(B, RB), I, s);
    mnear("metrics", L.metrics(), mm(B, tr(B)), s);
    mnear("base-rot", mm(L.stdbase(), L.baserot()), B, s);
    mnear("rotation", mm(L.baserot(), tr(L.baserot())), I, s);
    VNEAR("volume", L.volume(), det(B), s);
    Vec r[3] = {L.va(), L.vb(), L.vc()}, q[3] = {L.var(), L.vbr(), L.vcr()};
    double e[3] = {L.a(), L.b(), L.c()}, er[3] = {L.ar(), L.br(), L.cr()};
    double al[3] = {L.alpha(), L.beta(), L.gamma()}, ar[3] = {L.alphar(), L.betar(), L.gammar()};
    double ca[3] = {L.cosalpha(), L.cosbeta(), L.cosgamma()}, sa[3] = {L.sinalpha(), L.sinbeta(), L.singamma()};
    double cr[3] = {L.cosalphar(), L.cosbetar(), L.cosgammar()}, sr[3] = {L.sinalphar(), L.sinbetar(), L.singammar()};
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        for (int m = 0; m < 3; ++m) { VNEAR("va", r[i][m], B(i, m), 1e-14); VNEAR("var", q[i][m], RB(m, i), 1e-14); }
        VNEAR("edge", sqrt(ddot(r[i], r[i])), e[i], s);
        VNEAR("redge", sqrt(ddot(q[i], q[i])), er[i], s);
        VNEAR("cos", ddot(r[j], r[k]) / (e[j] * e[k]), ca[i], s);
        VNEAR("cosr", ddot(q[j], q[k]) / (er[j] * er[k]), cr[i], s);
        VNEAR("sin", sqrt(1 - ca[i] * ca[i]), sa[i], 1e-6);
        VNEAR("sinr", sqrt(1 - cr[i] * cr[i]), sr[i], 1e-6);
        VNEAR("angle", cos(deg(al[i])), ca[i], s);
        VNEAR("angler", cos(deg(ar[i])), cr[i], s);
        Vec u; u[0] = i == 0; u[1] = i == 1; u[2] = i == 2;
        Vec c = L.cartesian(u); vnear("cartesian-edge", c, r[i]);
    }
    for (int t = 0; t < 3; ++t) {
        Vec u = rv(g), v = rv(g);
        if (t == 2) { u = Vec(g.integer(-3, 3), g.integer(-3, 3), g.integer(-3, 3)); v = u; if (g.flip()) v = Vec(2 * u[0], 2 * u[1], 2 * u[2]); }
        Vec uc = L.cartesian(u), vc = L.cartesian(v);
        vnear("cartesian", uc, mul(u, B));
        vnear("fractional", L.fractional(uc), u, 1e-7);
        vnear("roundtrip", L.cartesian(L.fractional(uc)), uc, 1e-7);
        VNEAR("dot", L.dot(u, v), ddot(uc, vc), 1e-6);
        VNEAR("norm", L.norm(u), sqrt(ddot(uc, uc)), 1e-6);
        Vec d = uc - vc;
        VNEAR("distance", L.distance(u, v), sqrt(ddot(d, d)), 1e-6);
        double nu = sqrt(ddot(uc, uc)), nv = sqrt(ddot(vc, vc));
        if (nu > 1e-6 && nv > 1e-6) {
            double x = ddot(uc, vc) / nu / nv; x = std::max(-1.0, std::min(1.0, x));
            double ar_ = L.anglerad(u, v), ad = L.angledeg(u, v);
            VCHECK("angle-nan", ar_ == ar_ && ad == ad, "angle of " << u[0] << " " << u[1] << " " << u[2] << " is NaN");
            VNEAR("anglerad", cos(ar_), x, 1e-7);
            VNEAR("angledeg", cos(deg(ad)), x, 1e-7);
        }
        std::vector<double> su(3), sv(3);
        for (int i = 0; i < 3; ++i) { su[i] = u[i]; sv[i] = v[i]; }
        VNEAR("dot-t", L.dot(su, sv), ddot(uc, vc), 1e-6);
        vnear("cartesian-t", L.cartesian(su), uc);
        // nested conversions must not disturb each other
        const Vec n1 = L.fractional(L.cartesian(L.fractional(L.cartesian(u))));
        vnear("nested", n1, u, 1e-6);
        Vec f = L.ucvFractional(u);
        for (int i = 0; i < 3; ++i) {
            VCHECK("ucv-range", f[i] >= 0 && f[i] < 1, "ucvFractional(" << u[i] << ") = " << f[i]);
            double k = u[i] - f[i]; VCHECK("ucv-shift", std::fabs(k - std::floor(k + .5)) < 2e-8 * (1 + std::fabs(u[i])), "shift " << k);
        }
        Vec fc = L.ucvCartesian(uc), ff = mul(fc, RB), uf = mul(uc, RB);
        for (int i = 0; i < 3; ++i) {
            VCHECK("ucvc-range", ff[i] >= -1e-7 && ff[i] < 1 + 1e-7, "ucvCartesian fractional " << ff[i]);
            double k = uf[i] - ff[i]; VCHECK("ucvc-shift", std::fabs(k - std::floor(k + .5)) < 1e-6, "shift " << k);
        }
        Mat S; for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) S(i, j) = S(j, i) = g.uni(-1, 1);
        Mat C = L.cartesianMatrix(S), N; double er3[3] = {L.ar(), L.br(), L.cr()};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) N(i, j) = B(i, j) * er3[i];
        mnear("cartesianMatrix", C, mm(tr(N), mm(S, N)), 1e-6);
        mnear("fractionalMatrix", L.fractionalMatrix(C), S, 1e-5);
    }
    double best = -1;
    for (int k = 0; k < 8; ++k) { Vec d((k & 1) ? 1 : -1, (k & 2) ? 1 : -1, (k & 4) ? 1 : -1); Vec dc = mul(d, B); best = std::max(best, sqrt(ddot(dc, dc))); }
    Vec m = L.ucMaxDiagonal(), mc = mul(m, B);
    VNEAR("ucMaxDiagonal", sqrt(ddot(mc, mc)), best, 1e-7);
    VNEAR("ucMaxDiagonalLength", L.ucMaxDiagonalLength(), best, 1e-7);
}

void harness()
{
    Rng g(seed);
    static const double ra[] = {90, 60, 120, 75, 100, 45, 135, 30, 150};
    Lattice L0; consistency(L0, g);
    Lattice persistent;
    for (long t = 0; t < scale(4000, 60000); ++t) {
        double p[6];
        int kind = g.integer(0, 4);
        for (;;) {
            for (int i = 0; i < 3; ++i) p[i] = kind ? g.uni(0.5, 12) : g.integer(1, 6);
            for (int i = 3; i < 6; ++i) p[i] = kind < 2 ? ra[g.integer(0, 8)] : g.uni(25, 155);
            if (kind == 4) { p[1] = p[2] = p[0]; p[3] = p[4] = p[5] = 90; }
            double a = cos(deg(p[3])), b = cos(deg(p[4])), c = cos(deg(p[5]));
            if (1 + 2 * a * b * c - a * a - b * b - c * c > 0.02) break;
        }
        if (!begin(Fmt() << "cell " << std::vector<double>(p, p + 6))) return;
        Lattice& L = persistent;         // keeps its rotation from earlier calls
        L.setLatPar(p[0], p[1], p[2], p[3], p[4], p[5]);
        VEQ("a", L.a(), p[0]); VEQ("b", L.b(), p[1]); VEQ("c", L.c(), p[2]);
        VEQ("alpha", L.alpha(), p[3]); VEQ("beta", L.beta(), p[4]); VEQ("gamma", L.gamma(), p[5]);
        consistency(L, g);
        Lattice F(p[0], p[1], p[2], p[3], p[4], p[5]);
        VCHECK("stdorient", F.baserot() == R3::identity(), "a fresh lattice is not in standard orientation");
        mnear("stdbase", F.stdbase(), F.base(), 1e-13);
        // base from rotated vectors
        Vec u[3];
        for (;;) { for (int i = 0; i < 3; ++i) u[i] = rv(g, 5); Mat A(u[0][0],u[0][1],u[0][2],u[1][0],u[1][1],u[1][2],u[2][0],u[2][1],u[2][2]);
            double nn = sqrt(ddot(u[0],u[0])*ddot(u[1],u[1])*ddot(u[2],u[2])); if (std::fabs(det(A)) > 0.1 * nn && nn > .1) { if (det(A) < 0) std::swap(u[0], u[1]); break; } }
        begin(Fmt() << "base " << u[0][0] << " " << u[0][1] << " " << u[0][2] << " " << u[1][0] << " " << u[1][1] << " " << u[1][2] << " " << u[2][0] << " " << u[2][1] << " " << u[2][2]);
        if (g.flip()) L.setLatBase(u[0], u[1], u[2]);
        else { std::vector<double> w[3]; for (int i = 0; i < 3; ++i) w[i].assign(u[i].begin(), u[i].end()); L.setLatBase(w[0], w[1], w[2]); }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VEQ("base-exact", L.base()(i, j), u[i][j]);
        consistency(L, g);
        // rejected input leaves the lattice as it was
        Lattice K = L; bool thrown = false;
        int bad = g.integer(0, 2);
        try {
            if (bad == 0) L.setLatBase(u[1], u[0], u[2]);
            else if (bad == 1) L.setLatBase(u[0], u[0], u[2]);
            else L.setLatBase(u[0], u[1], Vec(0, 0, 0));
        } catch (std::invalid_argument&) { thrown = true; }
        VCHECK("reject", thrown, "invalid base accepted");
        VCHECK("reject-state", L == K && L.base() == K.base() && L.va() == K.va() && L.metrics() == K.metrics() && L.recbase() == K.recbase() && L.a() == K.a(), "state changed by a rejected base");
        consistency(L, g);
        // permutation that keeps handedness is a valid cell
        L.setLatBase(u[1], u[2], u[0]);
        VCHECK("neq", L != K && !(L == K), "different bases compare equal");
        // related cells on the same object: equal edges with other angles, one changed value, mirrored vectors, the same cell again
        for (int k = 0; k < 4; ++k) {
            const int what = g.integer(0, 3);
            if (what == 0) {
                Vec w[3] = {u[0], u[1], u[2]};
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (g.flip(.4)) w[i][j] = -w[i][j];
                Mat A(w[0][0],w[0][1],w[0][2],w[1][0],w[1][1],w[1][2],w[2][0],w[2][1],w[2][2]);
                double nn = sqrt(ddot(w[0],w[0])*ddot(w[1],w[1])*ddot(w[2],w[2]));
                if (std::fabs(det(A)) < 0.1 * nn) continue;
                if (det(A) < 0) for (int j = 0; j < 3; ++j) w[2][j] = -w[2][j];
                begin(Fmt() << "mirrored base " << w[0][0] << " " << w[0][1] << " " << w[0][2] << " " << w[1][0] << " " << w[1][1] << " " << w[1][2] << " " << w[2][0] << " " << w[2][1] << " " << w[2][2]);
                L.setLatBase(w[0], w[1], w[2]);
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VEQ("base-exact", L.base()(i, j), w[i][j]);
            } else {
                double q[6] = {L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()};
                if (what == 1) q[g.integer(0, 2)] = g.uni(1, 6);
                else if (what == 2) { q[3] = g.uni(75, 105); q[4] = g.uni(75, 105); q[5] = g.uni(75, 105); }
                begin(Fmt() << "related cell " << q[0] << " " << q[1] << " " << q[2] << " " << q[3] << " " << q[4] << " " << q[5]);
                L.setLatPar(q[0], q[1], q[2], q[3], q[4], q[5]);
                VEQ("a", L.a(), q[0]); VEQ("gamma", L.gamma(), q[5]);
            }
            consistency(L, g);
        }
        // R3 helpers
        Mat A; for (int i = 0; i < 9; ++i) A.data()[i] = g.uni(-3, 3);
        if (std::fabs(det(A)) > .3) { Mat Ai = R3::inverse(A); mnear("inverse", mm(A, Ai), R3::identity(), 1e-7); }
        VNEAR("determinant", R3::determinant(A), det(A), 1e-9);
        Vec x = rv(g), y = rv(g);
        vnear("mxv", R3::mxvecproduct(x, A), mul(x, A)); vnear("mxv2", R3::mxvecproduct(A, x), mul(x, tr(A)));
        Vec nest = R3::mxvecproduct(A, R3::mxvecproduct(A, x)); vnear("mxv-nested", nest, mul(mul(x, tr(A)), tr(A)));
        Vec nest2 = R3::mxvecproduct(R3::mxvecproduct(x, A), A); vnear("mxv-nested2", nest2, mul(mul(x, A), A));
        Vec cr = R3::cross(x, y); VNEAR("cross", ddot(cr, x), 0, 1e-9); VNEAR("cross2", ddot(cr, cr), ddot(x,x)*ddot(y,y)-ddot(x,y)*ddot(x,y), 1e-8);
        Mat XY(x[0],x[1],x[2],y[0],y[1],y[2],cr[0],cr[1],cr[2]); VNEAR("cross3", det(XY), ddot(cr, cr), 1e-8);
        Vec fl = R3::floor(x); for (int i = 0; i < 3; ++i) VEQ("floor", fl[i], std::floor(x[i]));
        Vec d = x - y; VNEAR("distance", R3::distance(x, y), sqrt(ddot(d, d)), 1e-12);
    }
}
