// random structures, and an independent brute-force model of their pairs
#ifndef VERIF_PQ_HPP
#define VERIF_PQ_HPP
#include "common.hpp"
#include <boost/make_shared.hpp>
#include <boost/scoped_ptr.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/Lattice.hpp>
namespace vh {
using namespace diffpy::srreal;

struct P3 { double x[3]; double& operator[](int i) { return x[i]; } double operator[](int i) const { return x[i]; } };
inline P3 p3(double a, double b, double c) { P3 p = {{a, b, c}}; return p; }
inline P3 operator+(const P3& a, const P3& b) { return p3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline P3 operator-(const P3& a, const P3& b) { return p3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline P3 operator*(double f, const P3& b) { return p3(f * b[0], f * b[1], f * b[2]); }
inline double dotp(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(const P3& a) { return std::sqrt(dotp(a, a)); }
inline P3 crossp(const P3& u, const P3& v) { return p3(u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]); }
inline std::string str(const P3& p) { return Fmt() << "(" << p[0] << "," << p[1] << "," << p[2] << ")"; }
inline P3 fromR3(const R3::Vector& v) { return p3(v[0], v[1], v[2]); }

struct Cell {
    P3 a[3];            // row vectors
    double par[6];
    void set(double la, double lb, double lc, double al, double be, double ga)
    {
        double p[6] = {la, lb, lc, al, be, ga};
        std::copy(p, p + 6, par);
        // same orientation convention as the library: c* along z ... taken from the metric only,
        // orientation is irrelevant for distances; the library base is used for positions.
        Lattice L(la, lb, lc, al, be, ga);
        for (int i = 0; i < 3; ++i) a[i] = p3(L.base()(i, 0), L.base()(i, 1), L.base()(i, 2));
    }
    double volume() const { return std::fabs(dotp(a[0], crossp(a[1], a[2]))); }
    P3 cart(const P3& f) const { return f[0] * a[0] + f[1] * a[1] + f[2] * a[2]; }
    P3 frac(const P3& r) const
    {
        double v = dotp(a[0], crossp(a[1], a[2]));
        return p3(dotp(r, crossp(a[1], a[2])) / v, dotp(r, crossp(a[2], a[0])) / v, dotp(r, crossp(a[0], a[1])) / v);
    }
    // number of cells to search along axis i for radius r
    int reach(int i, double r) const { return (int)std::ceil(r * len(crossp(a[(i + 1) % 3], a[(i + 2) % 3])) / volume()) + 1; }
};

struct Bond { int i0, i1, image; double d; P3 r; };

struct Model {
    bool periodic;
    Cell cell;
    struct Site { std::string type; double occ; std::vector<P3> pos; P3 pos0; bool aniso; };
    std::vector<Site> sites;
    Model() : periodic(false) {}
    // all pairs (i0, i1) with rmin <= d <= rmax, d > 0, r pointing from site i0 to the image of i1
    std::vector<Bond> bonds(int i0, int i1, double rmin, double rmax) const
    {
        std::vector<Bond> rv;
        P3 r0 = sites[i0].pos0;
        for (size_t k = 0; k < sites[i1].pos.size(); ++k) {
            P3 d0 = sites[i1].pos[k] - r0;
            int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
            P3 f = periodic ? cell.frac(d0) : p3(0, 0, 0);
            if (periodic) for (int c = 0; c < 3; ++c) {
                int n = cell.reach(c, rmax);
                lo[c] = (int)std::floor(-f[c]) - n; hi[c] = (int)std::ceil(-f[c]) + n;
            }
            for (int m = lo[0]; m <= hi[0]; ++m) for (int n = lo[1]; n <= hi[1]; ++n) for (int o = lo[2]; o <= hi[2]; ++o) {
                P3 r = periodic ? d0 + cell.cart(p3(m, n, o)) : d0;
                double d = len(r);
                if (d < rmin || d > rmax || d < 1e-7) continue;
                Bond b = {i0, i1, (int)k, d, r};
                rv.push_back(b);
            }
        }
        return rv;
    }
    std::vector<Bond> all(double rmin, double rmax) const
    {
        std::vector<Bond> rv;
        for (size_t i = 0; i < sites.size(); ++i) for (size_t j = 0; j < sites.size(); ++j) {
            std::vector<Bond> b = bonds(i, j, rmin, rmax);
            rv.insert(rv.end(), b.begin(), b.end());
        }
        return rv;
    }
    // true when no pair distance lies within tol of the value r
    bool clear(double r, double tol = 1e-6) const { return bonds_near(r, tol) == 0; }
    int bonds_near(double r, double tol) const { return (int)all(std::max(0.0, r - tol), r + tol).size(); }
};

struct Stru {
    StructureAdapterPtr p;
    AtomicStructureAdapterPtr ap;
    Model m;
    std::string desc;
};

inline Atom mkatom(const std::string& t, const P3& r, double occ = 1.0, double u = 0.0)
{
    Atom a; a.atomtype = t; a.xyz_cartn = R3::Vector(r[0], r[1], r[2]); a.occupancy = occ;
    a.uij_cartn = R3::zeromatrix();
    for (int i = 0; i < 3; ++i) a.uij_cartn(i, i) = u;
    return a;
}

static const char* const TYPES[] = {"C", "O", "Na1+", "Cl1-"};

inline std::vector<Atom> randatoms(Rng& g, int n, int ntypes, bool aniso = false, double box = 4.0)
{
    std::vector<Atom> v;
    for (int i = 0; i < n; ++i) {
        P3 r = p3(0, 0, 0);
        for (int c = 0; c < 3; ++c) r[c] = g.flip(.3) ? g.integer(-4, 4) * 0.5 : g.uni(-box / 2, box / 2);
        Atom a = mkatom(TYPES[g.integer(0, ntypes - 1)], r, g.flip(.7) ? 1.0 : g.integer(1, 4) / 4.0, g.integer(0, 4) * 0.002);
        if (aniso && g.flip()) {
            a.anisotropy = true;
            for (int p = 0; p < 3; ++p) for (int q = p; q < 3; ++q) a.uij_cartn(p, q) = a.uij_cartn(q, p) = (p == q) ? g.uni(0.002, .02) : g.uni(-.001, .001);
        }
        v.push_back(a);
    }
    return v;
}

inline Cell randcell(Rng& g, double lo = 2.2, double hi = 5.5)
{
    Cell c;
    switch (g.integer(0, 4)) {
        case 0: { double a = g.uni(lo, hi); c.set(a, a, a, 90, 90, 90); break; }
        case 1: { double a = g.uni(lo, hi); c.set(a, a, g.uni(lo, hi), 90, 90, 120); break; }
        case 2: c.set(g.uni(lo, hi), g.uni(lo, hi), g.uni(lo, hi), 90, g.uni(65, 115), 90); break;
        case 3: c.set(g.uni(lo, hi), g.uni(lo, hi), g.uni(lo, hi), g.uni(35, 60), g.uni(35, 60), g.uni(35, 60)); break;
        default: c.set(g.uni(lo, hi), g.uni(lo, hi), g.uni(lo, hi), g.uni(75, 105), g.uni(75, 105), g.uni(75, 105));
    }
    return c;
}

inline void modelfrom(Stru& s)
{
    s.m.sites.clear();
    for (auto a = s.ap->begin(); a != s.ap->end(); ++a) {
        Model::Site x;
        x.type = a->atomtype; x.occ = a->occupancy; x.aniso = a->anisotropy;
        x.pos0 = fromR3(a->xyz_cartn);
        x.pos.push_back(x.pos0);
        s.m.sites.push_back(x);
    }
}

inline Stru atomic(const std::vector<Atom>& v)
{
    Stru s;
    s.ap = boost::make_shared<AtomicStructureAdapter>();
    s.ap->assign(v.begin(), v.end());
    s.p = s.ap;
    modelfrom(s);
    s.desc = Fmt() << "cluster of " << (int)v.size();
    return s;
}

inline Stru periodic(const Cell& c, const std::vector<Atom>& v)
{
    Stru s;
    PeriodicStructureAdapterPtr pp = boost::make_shared<PeriodicStructureAdapter>();
    pp->setLatPar(c.par[0], c.par[1], c.par[2], c.par[3], c.par[4], c.par[5]);
    pp->assign(v.begin(), v.end());
    s.ap = pp; s.p = pp;
    s.m.periodic = true; s.m.cell = c;
    modelfrom(s);
    s.desc = Fmt() << "periodic cell (" << c.par[0] << "," << c.par[1] << "," << c.par[2] << "," << c.par[3] << "," << c.par[4] << "," << c.par[5]
        << ") atoms " << (int)v.size();
    return s;
}

// symmetry operations; a closed group in fractional coordinates (any cell metric accepts the P-1 set)
inline void addop(CrystalStructureAdapter& c, const double R[9], const double t[3])
{
    SymOpRotTrans op;
    op.R = R3::Matrix(R3::zeromatrix());
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) op.R(i, j) = R[3 * i + j];
    op.t = R3::Vector(t[0], t[1], t[2]);
    c.addSymOp(op);
}

struct Op { double R[9]; double t[3]; };

// images of fractional position f, distinct modulo the lattice within eps (Cartesian)
inline std::vector<P3> images(const Cell& c, const std::vector<Op>& ops, const P3& f, double eps)
{
    std::vector<P3> out;
    if (ops.empty()) { out.push_back(f); return out; }
    for (auto& o : ops) {
        P3 x = p3(0, 0, 0);
        for (int i = 0; i < 3; ++i) { x[i] = o.t[i]; for (int j = 0; j < 3; ++j) x[i] += o.R[3 * i + j] * f[j]; }
        bool dup = false;
        for (auto& y : out) {
            P3 d = x - y;
            for (int i = 0; i < 3; ++i) d[i] -= std::floor(d[i] + .5);
            if (len(c.cart(d)) <= eps) dup = true;
        }
        if (!dup) out.push_back(x);
    }
    return out;
}

inline std::vector<Op> randops(Rng& g, const Cell& c)
{
    std::vector<Op> ops;
    Op e = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}}, inv = {{-1, 0, 0, 0, -1, 0, 0, 0, -1}, {0, 0, 0}};
    switch (g.integer(0, 4)) {
        case 0: break;
        case 1: ops.push_back(e); break;
        case 2: ops.push_back(e); ops.push_back(inv); break;
        case 3: { Op b = e; b.t[0] = b.t[1] = b.t[2] = .5; ops.push_back(e); ops.push_back(b); break; }
        default: { Op b = e, ib = inv; b.t[0] = .5; b.t[1] = .5; ib.t[0] = .5; ib.t[1] = .5;
            ops.push_back(e); ops.push_back(inv); ops.push_back(b); ops.push_back(ib); }
    }
    return ops;
}

inline Stru crystal(const Cell& c, const std::vector<Op>& ops, const std::vector<Atom>& v)
{
    Stru s;
    CrystalStructureAdapterPtr pp = boost::make_shared<CrystalStructureAdapter>();
    pp->setLatPar(c.par[0], c.par[1], c.par[2], c.par[3], c.par[4], c.par[5]);
    pp->assign(v.begin(), v.end());
    for (auto& o : ops) addop(*pp, o.R, o.t);
    s.ap = pp; s.p = pp;
    s.m.periodic = true; s.m.cell = c;
    modelfrom(s);
    for (auto& x : s.m.sites) {
        std::vector<P3> im = images(c, ops, c.frac(x.pos0), 5e-5);
        x.pos.clear();
        for (auto& f : im) x.pos.push_back(c.cart(f));
        // the library anchors at its first image; same point by symmetry for a group whose first operation is the identity
        x.pos0 = x.pos[0];
    }
    s.desc = Fmt() << "crystal cell (" << c.par[0] << "," << c.par[1] << "," << c.par[2] << "," << c.par[3] << "," << c.par[4] << "," << c.par[5]
        << ") atoms " << (int)v.size() << " ops " << (int)ops.size();
    return s;
}

inline std::string describe(const std::vector<Atom>& v)
{
    Fmt f;
    for (size_t i = 0; i < v.size() && i < 8; ++i) f << v[i].atomtype << fromR3(v[i].xyz_cartn) << " ";
    return f;
}

inline Stru randstru(Rng& g, int kind, int nmin, int nmax, int ntypes = 4, bool aniso = false)
{
    int n = g.integer(nmin, nmax);
    std::vector<Atom> v = randatoms(g, n, ntypes, aniso);
    Stru s;
    if (kind == 0) s = atomic(v);
    else if (kind == 1) s = periodic(randcell(g), v);
    else { Cell c = randcell(g); s = crystal(c, randops(g, c), v); }
    if (n <= 5) s.desc += " " + describe(v);
    return s;
}

// a copy of the structure with a few atoms changed, added, removed or swapped
inline Stru edited(Rng& g, const Stru& s0)
{
    Stru s = s0;
    s.p = s0.p->clone();
    s.ap = boost::dynamic_pointer_cast<AtomicStructureAdapter>(s.p);
    int k = g.integer(1, 3);
    for (int e = 0; e < k; ++e) {
        int n = s.ap->countSites();
        int what = g.integer(0, 4);
        if (what == 0 || n == 0) { std::vector<Atom> v = randatoms(g, 1, 4); s.ap->insert(g.integer(0, n), v[0]); s.desc += " +atom"; }
        else if (what == 1) { s.ap->erase(g.integer(0, n - 1)); s.desc += " -atom"; }
        else if (what == 2) { (*s.ap)[g.integer(0, n - 1)].xyz_cartn[g.integer(0, 2)] += g.uni(-.5, .5); s.desc += " move"; }
        else if (what == 3) { std::swap((*s.ap)[g.integer(0, n - 1)], (*s.ap)[g.integer(0, n - 1)]); s.desc += " swap"; }
        else { (*s.ap)[g.integer(0, n - 1)].atomtype = TYPES[g.integer(0, 3)]; s.desc += " retype"; }
    }
    s.m.sites.clear();
    return s;
}

// the same atoms in another kind of structure
inline Stru recast(Rng& g, const Stru& s0)
{
    std::vector<Atom> v(s0.ap->begin(), s0.ap->end());
    Cell c = randcell(g);
    Stru s;
    switch (g.integer(0, 2)) {
        case 0: s = atomic(v); break;
        case 1: s = periodic(c, v); break;
        default: s = crystal(c, randops(g, c), v);
    }
    PeriodicStructureAdapterPtr p0 = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s0.p), p1 = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s.p);
    if (p0 && p1 && g.flip(.7)) {
        const Lattice& L = p0->getLattice();
        p1->setLatPar(L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma());
        s.m.sites.clear();
    }
    s.desc = s0.desc + " recast: " + s.desc;
    return s;
}

}   // namespace vh
#endif
