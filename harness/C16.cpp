#include "pq.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
const char* const vh_rule() { return "random cells, lists of 0..8 integer operations (point groups and arbitrary lists, repeated operations, the identity first, later or absent, lattice translations, noise below the tolerance), sites at general and special positions, tolerances; histories of edits, lattice changes and operations; oracle: classes of the images by brute force, rotated tensors, brute-force bonds"; }
using namespace vh;

struct Image { P3 f; double U[9]; };
struct Class { std::vector<P3> members; P3 mean; std::vector<Image> im; };

static void mul(const double* a, const double* b, double* r, bool tb)
{
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[3 * i + j] = 0; for (int k = 0; k < 3; ++k) r[3 * i + j] += a[3 * i + k] * (tb ? b[3 * j + k] : b[3 * k + j]); }
}

// shortest distance modulo the lattice
static double wrapped(const Cell& c, const P3& d0, P3* best = 0)
{
    P3 d = d0; double m = 1e30;
    for (int i = 0; i < 3; ++i) d[i] -= std::floor(d[i] + .5);
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int e = -1; e <= 1; ++e) {
        P3 x = d + p3(a, b, e); double l = len(c.cart(x));
        if (l < m) { m = l; if (best) *best = x; }
    }
    return m;
}

// tensor in fractional coordinates: U = B Uf B^T with rows of the base, so that U_cart = A^T Uf A
static void tocart(const Cell& c, const double* uf, double* u)
{
    double at[9];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) at[3 * i + j] = c.a[j][i];
    double t[9]; mul(at, uf, t, false); mul(t, at, u, true);
}
static void tofrac(const Cell& c, const double* u, double* uf)
{
    double v = dotp(c.a[0], crossp(c.a[1], c.a[2])), m[9];
    P3 r[3] = {crossp(c.a[1], c.a[2]), crossp(c.a[2], c.a[0]), crossp(c.a[0], c.a[1])};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[3 * i + j] = r[i][j] / v;
    double t[9]; mul(m, u, t, false); mul(t, m, uf, true);
}

// false when the classes are ambiguous at this tolerance
static bool classes(const Cell& c, const std::vector<Op>& ops, const Atom& a, double eps, std::vector<Class>& out)
{
    out.clear();
    double u[9], uf[9]; P3 f0 = c.frac(fromR3(a.xyz_cartn));
    for (int i = 0; i < 9; ++i) u[i] = a.uij_cartn(i / 3, i % 3);
    tofrac(c, u, uf);
    std::vector<Image> im;
    std::vector<Op> l = ops;
    if (l.empty()) { Op e = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}}; l.push_back(e); }
    for (auto& o : l) {
        Image x;
        for (int i = 0; i < 3; ++i) { x.f[i] = o.t[i]; for (int j = 0; j < 3; ++j) x.f[i] += o.R[3 * i + j] * f0[j]; }
        double t[9], w[9]; mul(o.R, uf, t, false); mul(t, o.R, w, true); tocart(c, w, x.U);
        im.push_back(x);
    }
    for (auto& x : im) {
        int hit = -1;
        for (size_t k = 0; k < out.size(); ++k) for (auto& y : out[k].im) {
            double d = wrapped(c, x.f - y.f);
            if (d < .4 * eps) { if (hit >= 0 && hit != (int)k) return false; hit = k; }
            else if (d < 2.5 * eps) return false;
        }
        if (hit < 0) { hit = out.size(); out.push_back(Class()); }
        out[hit].im.push_back(x);
    }
    for (auto& k : out) {
        P3 s = p3(0, 0, 0);
        for (auto& x : k.im) { P3 d; wrapped(c, x.f - k.im[0].f, &d); s = s + d; }
        k.mean = k.im[0].f + (1.0 / k.im.size()) * s;
    }
    return true;
}

static Op randop(Rng& g, int style)
{
    Op o = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}};
    if (style) do {
        if (style == 1) {        // signed permutations
            int p[3] = {0, 1, 2};
            std::swap(p[0], p[g.integer(0, 2)]); std::swap(p[1], p[g.integer(1, 2)]);
            for (int i = 0; i < 9; ++i) o.R[i] = 0;
            for (int i = 0; i < 3; ++i) o.R[3 * i + p[i]] = g.flip() ? 1 : -1;
        }
        else for (int i = 0; i < 9; ++i) o.R[i] = g.integer(-1, 1);
        const double* R = o.R;
        double d = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[1] * (R[3] * R[8] - R[5] * R[6]) + R[2] * (R[3] * R[7] - R[4] * R[6]);
        if (std::fabs(d) == 1) break;
    } while (true);
    double t[] = {0, 0, .5, 1. / 3, .25, 2. / 3, -.5, 1, -1};
    for (int i = 0; i < 3; ++i) o.t[i] = t[g.integer(0, 8)];
    return o;
}

static std::vector<Op> randlist(Rng& g)
{
    std::vector<Op> v;
    int n = g.integer(0, 8), style = g.integer(0, 2);
    for (int i = 0; i < n; ++i) {
        if (v.size() && g.flip(.15)) { Op o = v[g.integer(0, v.size() - 1)]; o.t[g.integer(0, 2)] += g.integer(-1, 1); v.push_back(o); }
        else v.push_back(randop(g, g.flip(.15) ? 0 : style));
    }
    if (n && g.flip(.4)) v[0] = randop(g, 0);
    return v;
}

static Atom randatom(Rng& g, const Cell& c, double eps)
{
    P3 f; double sp[] = {0, .5, .25, 1. / 3, 2. / 3, .75, 1, -.5};
    int how = g.integer(0, 3);
    for (int i = 0; i < 3; ++i) f[i] = how && g.flip(.7) ? sp[g.integer(0, 7)] : g.uni(-1.2, 1.2);
    if (how == 2) { f[1] = f[0]; if (g.flip()) f[2] = f[0]; }
    P3 r = c.cart(f);
    if (g.flip(.2)) for (int i = 0; i < 3; ++i) r[i] += .05 * eps * g.uni(-1, 1);
    else if (how && g.flip(.2)) for (int i = 0; i < 3; ++i) r[i] += g.uni(-.01, .01);
    Atom a = mkatom(TYPES[g.integer(0, 3)], r, g.flip(.6) ? 1. : .25 * g.integer(1, 4), 0.01 * g.integer(0, 3));
    a.anisotropy = g.flip(.6);
    if (a.anisotropy) for (int p = 0; p < 3; ++p) for (int q = p; q < 3; ++q) a.uij_cartn(p, q) = a.uij_cartn(q, p) = p == q ? g.uni(.005, .03) : g.uni(-.002, .002);
    return a;
}

static double msd(const R3::Matrix& U, const P3& s)
{
    double r = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += s[i] * U(i, j) * s[j];
    return r / dotp(s, s);
}

static bool near9(const R3::Matrix& a, const double* b, double tol)
{
    for (int i = 0; i < 9; ++i) if (!(std::fabs(a(i / 3, i % 3) - b[i]) <= tol)) return false;
    return true;
}

static bool metric(const Cell& c, const std::vector<Op>& ops)
{
    for (auto& o : ops) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        P3 u = c.cart(p3(o.R[i], o.R[3 + i], o.R[6 + i])), v = c.cart(p3(o.R[j], o.R[3 + j], o.R[6 + j]));
        if (std::fabs(dotp(u, v) - dotp(c.a[i], c.a[j])) > 1e-9) return false;
    }
    return true;
}

static void checksite(const Cell& c, const std::vector<Op>& ops, double eps, const std::vector<Class>& k, const Atom& a, const std::vector<Atom>& e, const char* key)
{
    VEQ(key, (int)e.size(), (int)k.size());
    if (e.size() != k.size()) return;
    std::vector<int> used(k.size(), 0);
    for (auto& x : e) {
        P3 f = c.frac(fromR3(x.xyz_cartn));
        VCHECK(key, x.atomtype == a.atomtype && x.occupancy == a.occupancy && x.anisotropy == a.anisotropy, "an image differs in type, occupancy or anisotropy");
        for (int i = 0; i < 3; ++i) VCHECK(key, f[i] > -1e-9 && f[i] < 1 + 1e-9, (std::string)(Fmt() << "the image at " << str(f) << " is outside of the unit cell"));
        bool found = false;
        for (size_t i = 0; i < k.size() && !found; ++i) {
            if (used[i] || wrapped(c, f - k[i].mean) > 1e-7) continue;
            used[i] = 1; found = true;
            bool u = false;
            for (auto& m : k[i].im) u = u || near9(x.uij_cartn, m.U, 1e-9);
            // rotations of tensors are those of the lattice metric
            if (metric(c, ops)) VCHECK(key, u, "the tensor of an image is not the rotated one");
        }
        VCHECK(key, found, (std::string)(Fmt() << "the image at " << str(f) << " is not one of the expected ones, or repeated"));
    }
}

// bonds of the crystal against brute force over the images
static void checkbonds(const Cell& c, CrystalStructureAdapterPtr s, Rng& g)
{
    double rmax = 3.2;
    int n = s->countSites();
    std::vector<std::vector<Atom> > e;
    for (int i = 0; i < n; ++i) e.push_back(s->getEquivalentAtoms(i));
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmin(0.1); b->setRmax(rmax);
    for (int i = 0; i < n; ++i) {
        b->selectAnchorSite(i);
        for (int j = 0; j < n; ++j) {
            std::vector<double> got, want;
            b->selectSiteRange(j, j + 1);
            bool bad = false, u0 = false, u1 = false;
            for (b->rewind(); !b->finished(); b->next()) {
                P3 r = fromR3(b->r01());
                int hit = -1; double besd = 1e30;
                for (size_t k = 0; k < e[j].size(); ++k) {
                    double d = wrapped(c, c.frac(r - (fromR3(e[j][k].xyz_cartn) - fromR3(e[i][0].xyz_cartn))));
                    if (d < besd) { besd = d; hit = k; }
                }
                if (hit < 0 || besd > 1e-6) { bad = true; continue; }
                if (std::fabs(b->distance() - len(r)) > 1e-8) bad = true;
                double U0[9], U1[9];
                for (int q = 0; q < 9; ++q) { U0[q] = e[i][0].uij_cartn(q / 3, q % 3); U1[q] = e[j][hit].uij_cartn(q / 3, q % 3); }
                if (!near9(b->Ucartesian0(), U0, 1e-9)) u0 = true;
                if (!near9(b->Ucartesian1(), U1, 1e-9)) u1 = true;
                double m = (e[i][0].anisotropy ? msd(e[i][0].uij_cartn, r) : (U0[0] + U0[4] + U0[8]) / 3) + (e[j][hit].anisotropy ? msd(e[j][hit].uij_cartn, r) : (U1[0] + U1[4] + U1[8]) / 3);
                if (e[i][0].anisotropy && e[j][hit].anisotropy && std::fabs(b->msd() - m) > 1e-8) u1 = true;
                got.push_back(len(r));
            }
            VCHECK("bonds", !bad, "a bond does not join images of its sites");
            VCHECK("tensor of the anchor", !u0, "the tensor of the anchor is not that of its position");
            VCHECK("tensor of the end", !u1, "the tensor of the second site is not that of its position");
            Model m; m.periodic = true; m.cell = c;
            Model::Site x, y; x.pos0 = fromR3(e[i][0].xyz_cartn); x.pos.push_back(x.pos0);
            for (auto& w : e[j]) y.pos.push_back(fromR3(w.xyz_cartn));
            y.pos0 = y.pos[0]; m.sites.push_back(x); m.sites.push_back(y);
            if (m.bonds(0, 1, rmax - 1e-6, rmax + 1e-6).size() || m.bonds(0, 1, .1 - 1e-6, .1 + 1e-6).size()) continue;
            for (auto& w : m.bonds(0, 1, .1, rmax)) want.push_back(w.d);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            VEQ("number of bonds", (int)got.size(), (int)want.size());
        }
    }
}

static void checkall(const Cell& c, const std::vector<Op>& ops, double eps, CrystalStructureAdapterPtr s, Rng& g, bool bonds)
{
    double tot = 0; bool clear = true;
    for (int i = 0; i < s->countSites(); ++i) {
        std::vector<Class> k;
        if (!classes(c, ops, (*s)[i], eps, k)) { clear = false; continue; }
        if (g.flip()) VEQ("multiplicity", s->siteMultiplicity(i), (int)k.size());
        checksite(c, ops, eps, k, (*s)[i], s->getEquivalentAtoms(i), "images");
        VEQ("multiplicity", s->siteMultiplicity(i), (int)k.size());
        tot += k.size() * (*s)[i].occupancy;
        Atom a = (*s)[i];
        s->toFractional(a);
        std::vector<Atom> e = s->expandLatticeAtom(a);
        for (auto& x : e) s->toCartesian(x);
        checksite(c, ops, eps, k, (*s)[i], e, "expansion of one atom");
    }
    if (!clear) return;
    VNEAR("total occupancy", s->totalOccupancy(), tot, 1e-9);
    VNEAR("density", s->numberDensity(), tot / c.volume(), 1e-9 * (1 + tot));
    VEQ("operations", s->countSymOps(), (int)ops.size());
    if (bonds) checkbonds(c, s, g);
}

void harness()
{
    Rng g(seed);
    int N = scale(260, 6000);
    for (int n = 0; n < N; ++n) {
        Cell c = randcell(g);
        if (g.flip(.5)) { double a = g.uni(2.5, 5); c.set(a, a, a, 90, 90, 90); }
        double epss[] = {5e-5, 5e-5, 1e-3, .02, 1e-6};
        double eps = epss[g.integer(0, 4)];
        std::vector<Op> ops = randlist(g);
        CrystalStructureAdapterPtr s(new CrystalStructureAdapter);
        s->setLatPar(c.par[0], c.par[1], c.par[2], c.par[3], c.par[4], c.par[5]);
        if (eps != 5e-5) s->setSymmetryPrecision(eps);
        int na = g.integer(0, 4);
        for (int i = 0; i < na; ++i) s->append(randatom(g, c, eps));
        for (auto& o : ops) addop(*s, o.R, o.t);
        Fmt f; f << "cell (" << c.par[0] << "," << c.par[1] << "," << c.par[2] << "," << c.par[3] << "," << c.par[4] << "," << c.par[5] << ") tolerance " << eps << " ops";
        for (auto& o : ops) { f << " ["; for (int i = 0; i < 9; ++i) f << (int)o.R[i]; f << "|" << o.t[0] << "," << o.t[1] << "," << o.t[2] << "]"; }
        f << " sites";
        for (int i = 0; i < na; ++i) f << " " << str(c.frac(fromR3((*s)[i].xyz_cartn)));
        std::string what = f;
        begin(what, ops.size() && na);
        checkall(c, ops, eps, s, g, g.flip(.4));
        int steps = g.integer(0, 4);
        for (int e = 0; e < steps; ++e) {
            int m = s->countSites(), w = g.integer(0, 8);
            if (w == 0) { s->append(randatom(g, c, eps)); what += " append"; }
            else if (w == 1 && m) { s->erase(g.integer(0, m - 1)); what += " erase"; }
            else if (w == 2 && m) { (*s)[g.integer(0, m - 1)] = randatom(g, c, eps); what += " replace"; }
            else if (w == 3 && m) { std::swap((*s)[g.integer(0, m - 1)], (*s)[g.integer(0, m - 1)]); what += " swap"; }
            else if (w == 4) {
                std::vector<P3> fr; for (int i = 0; i < m; ++i) fr.push_back(c.frac(fromR3((*s)[i].xyz_cartn)));
                c = randcell(g);
                s->setLatPar(c.par[0], c.par[1], c.par[2], c.par[3], c.par[4], c.par[5]);
                if (g.flip()) for (int i = 0; i < m; ++i) { P3 r = c.cart(fr[i]); (*s)[i].xyz_cartn = R3::Vector(r[0], r[1], r[2]); }
                what += " lattice";
            }
            else if (w == 5) { s->clearSymOps(); ops.clear(); what += " clear"; }
            else if (w == 6) { Op o = randop(g, 1); ops.push_back(o); addop(*s, o.R, o.t); what += " op"; }
            else if (w == 7) { eps = epss[g.integer(0, 4)]; s->setSymmetryPrecision(eps); what += " tolerance"; }
            else if (w == 8) {
                StructureAdapterPtr q;
                if (g.flip()) q = s->clone();
                else { q = s; std::string a = diffpy::serialization_tostring(q); diffpy::serialization_fromstring(q, a); }
                s = boost::dynamic_pointer_cast<CrystalStructureAdapter>(q); what += " copy";
            }
            begin(what, true);
            checkall(c, ops, eps, s, g, g.flip(.25));
        }
    }
}
