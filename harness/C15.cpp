#include "pq.hpp"
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
const char* const vh_rule() { return "pairs of random clusters, periodic cells and crystals (0 to 30 atoms drawn from a small pool, so that atoms repeat): copies with atoms changed in any field, inserted, removed, shuffled, other lattices, operations, precisions and kinds; random triples of atoms; oracle: side-by-side and multiset comparison of all fields"; }
using namespace vh;
typedef std::vector<std::string> Key;

static std::string hex(double x) { char b[64]; snprintf(b, 64, "%a", x == 0 ? 0.0 : x); return b; }
static std::string atomkey(const Atom& a)
{
    std::string s = a.atomtype + "|";
    for (int i = 0; i < 3; ++i) s += hex(a.xyz_cartn[i]) + ",";
    s += hex(a.occupancy) + (a.anisotropy ? " aniso " : " iso ");
    for (int i = 0; i < 9; ++i) s += hex(a.uij_cartn(i / 3, i % 3)) + ",";
    return s;
}
static int cmp(double x, double y) { return x < y ? -1 : x > y; }
static int order(const Atom& a, const Atom& b)
{
    if (int c = a.atomtype.compare(b.atomtype)) return c < 0 ? -1 : 1;
    for (int i = 0; i < 3; ++i) if (int c = cmp(a.xyz_cartn[i], b.xyz_cartn[i])) return c;
    if (int c = cmp(a.occupancy, b.occupancy)) return c;
    if (int c = cmp(a.anisotropy, b.anisotropy)) return c;
    for (int i = 0; i < 9; ++i) if (int c = cmp(a.uij_cartn(i / 3, i % 3), b.uij_cartn(i / 3, i % 3))) return c;
    return 0;
}

static void tweak(Rng& g, Atom& a)
{
    switch (g.integer(0, 5)) {
        case 0: a.atomtype = TYPES[g.integer(0, 3)]; break;
        case 1: a.xyz_cartn[g.integer(0, 2)] = .5 * g.integer(-2, 2); break;
        case 2: a.occupancy = .25 * g.integer(0, 5); break;
        case 3: a.anisotropy = !a.anisotropy; break;
        case 4: a.uij_cartn(g.integer(0, 2), g.integer(0, 2)) = .01 * g.integer(0, 2); break;
        default: a.xyz_cartn[g.integer(0, 2)] += 1e-13 * g.integer(-1, 1);
    }
}

static void atoms(Rng& g)
{
    Atom a[3];
    a[0] = randatoms(g, 1, 2)[0];
    for (int i = 1; i < 3; ++i) { a[i] = a[i - 1]; for (int k = g.integer(0, 3); k; --k) tweak(g, a[i]); }
    begin(Fmt() << (std::string)atomkey(a[0]) << " / " << (std::string)atomkey(a[1]) << " / " << (std::string)atomkey(a[2]), true);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        int o = order(a[i], a[j]);
        VCHECK("atom/equal", (a[i] == a[j]) == (o == 0), Fmt() << "atoms " << i << " " << j);
        VCHECK("atom/unequal", (a[i] != a[j]) == (o != 0), Fmt() << "atoms " << i << " " << j);
        VCHECK("atom/less", (a[i] < a[j]) == (o < 0), Fmt() << "atoms " << i << " " << j);
        if (o == 0) VCHECK("atom/hash", hash_value(a[i]) == hash_value(a[j]), Fmt() << "atoms " << i << " " << j);
    }
}

// what makes structures of one kind comparable site by site
static bool comparable(const StructureAdapterPtr& p, const StructureAdapterPtr& q)
{
    if (!p || !q) return false;
    const StructureAdapter &a = *p, &b = *q;
    if (typeid(a) != typeid(b)) return false;
    auto pa = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(p), pb = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(q);
    if (pa) for (int i = 0; i < 9; ++i) if (pa->getLattice().base()(i / 3, i % 3) != pb->getLattice().base()(i / 3, i % 3)) return false;
    auto ca = boost::dynamic_pointer_cast<CrystalStructureAdapter>(p), cb = boost::dynamic_pointer_cast<CrystalStructureAdapter>(q);
    if (ca) {
        if (ca->getSymmetryPrecision() != cb->getSymmetryPrecision() || ca->countSymOps() != cb->countSymOps()) return false;
        for (int k = 0; k < (int)ca->countSymOps(); ++k) {
            const SymOpRotTrans &x = ca->getSymOp(k), &y = cb->getSymOp(k);
            for (int i = 0; i < 9; ++i) if (x.R(i / 3, i % 3) != y.R(i / 3, i % 3)) return false;
            for (int i = 0; i < 3; ++i) if (x.t[i] != y.t[i]) return false;
        }
    }
    return true;
}

static Stru randpool(Rng& g, int kind, int n)
{
    std::vector<Atom> pool = randatoms(g, g.integer(1, 6), 2), v;
    for (int i = 0; i < n; ++i) v.push_back(g.flip(.3) ? randatoms(g, 1, 3)[0] : pool[g.integer(0, pool.size() - 1)]);
    if (kind == 0) return atomic(v);
    Cell c = randcell(g);
    return kind == 1 ? periodic(c, v) : crystal(c, randops(g, c), v);
}

static std::vector<int> numbers(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static std::string text(const std::vector<int>& v) { Fmt f; for (int i : v) f << i << " "; return f; }

static void check(const Stru& s, const StructureAdapterPtr& q, const AtomicStructureAdapterPtr& aq)
{
    StructureDifference d = s.p->diff(q);
    int n0 = s.p->countSites(), n1 = q ? q->countSites() : 0;
    VCHECK("names", d.stru0 == s.p && d.stru1 == q, "the difference is of other structures");
    double bound = (1 - std::sqrt(.5)) * n0;
    VCHECK("fast", d.allowsfastupdate() == (d.pop0.size() < bound), "fast update is decided by the share of removed sites");
    std::vector<int> pop(d.pop0.begin(), d.pop0.end()), add(d.add1.begin(), d.add1.end());
    for (size_t i = 0; i < pop.size(); ++i) VCHECK("order", pop[i] >= 0 && pop[i] < n0 && (!i || pop[i - 1] < pop[i]), "removed sites " << text(pop));
    for (size_t i = 0; i < add.size(); ++i) VCHECK("order", add[i] >= 0 && add[i] < n1 && (!i || add[i - 1] < add[i]), "added sites " << text(add));
    if (s.p == q) {
        VEQ("same", text(pop) + "|" + text(add), std::string("|"));
        VCHECK("same/method", d.diffmethod == StructureDifference::Method::SIDEBYSIDE, "method of an empty difference");
        return;
    }
    if (!comparable(s.p, q)) {
        VEQ("other/removed", text(pop), text(numbers(n0)));
        VEQ("other/added", text(add), text(numbers(n1)));
        VCHECK("other/method", d.diffmethod == StructureDifference::Method::NONE, "method of an unrelated pair");
        return;
    }
    std::vector<int> sp, sa;
    for (int i = 0; i < n0; ++i) if (i >= n1 || order((*s.ap)[i], (*aq)[i])) sp.push_back(i);
    for (int i = 0; i < n1; ++i) if (i >= n0 || order((*s.ap)[i], (*aq)[i])) sa.push_back(i);
    if (d.diffmethod == StructureDifference::Method::SIDEBYSIDE) {
        VEQ("sidebyside/removed", text(pop), text(sp));
        VEQ("sidebyside/added", text(add), text(sa));
        return;
    }
    VCHECK("method", d.diffmethod == StructureDifference::Method::SORTED, "no method for a comparable pair");
    VCHECK("method/sidebyside", sp.size() >= bound, "sites match side by side");
    std::multiset<std::string> m0, m1, r, a;
    std::set<int> ps(pop.begin(), pop.end()), as(add.begin(), add.end());
    for (int i = 0; i < n0; ++i) (ps.count(i) ? r : m0).insert(atomkey((*s.ap)[i]));
    for (int i = 0; i < n1; ++i) (as.count(i) ? a : m1).insert(atomkey((*aq)[i]));
    VCHECK("sorted/kept", m0 == m1, "what is kept is not what remains: " << text(pop) << "| " << text(add));
    for (auto& x : r) VCHECK("sorted/least", !a.count(x), "an atom is removed and added again: " << x);
}

static void pairs(Rng& g)
{
    int kind = g.integer(0, 2), n = g.flip(.2) ? g.integer(10, 30) : g.integer(0, 9);
    Stru s = randpool(g, kind, n), t = s;
    std::string how;
    t.p = s.p->clone(); t.ap = boost::dynamic_pointer_cast<AtomicStructureAdapter>(t.p);
    for (int k = g.integer(0, 4); k; --k) {
        int m = t.ap->countSites(), w = g.integer(0, 7);
        if (w == 0) { t.ap->insert(g.integer(0, m), randatoms(g, 1, 3)[0]); how += " +atom"; }
        else if (w == 1 && m) { Atom a = (*t.ap)[g.integer(0, m - 1)]; t.ap->insert(g.integer(0, m), a); how += " +copy"; }
        else if (w == 2 && m) { t.ap->erase(g.integer(0, m - 1)); how += " -atom"; }
        else if (w <= 4 && m) { tweak(g, (*t.ap)[g.integer(0, m - 1)]); how += " tweak"; }
        else if (w == 5 && m) { for (int i = m - 1; i > 0; --i) std::swap((*t.ap)[i], (*t.ap)[g.integer(0, i)]); how += " shuffle"; }
        else if (w == 6) {
            PeriodicStructureAdapterPtr pp = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(t.p);
            CrystalStructureAdapterPtr cp = boost::dynamic_pointer_cast<CrystalStructureAdapter>(t.p);
            if (pp && g.flip(.3)) { const Lattice& L = pp->getLattice(); pp->setLatPar(L.b(), L.c(), L.a(), L.beta(), L.gamma(), L.alpha()); how += " permuted cell"; }
            else if (cp && cp->countSymOps() && g.flip(.4)) {
                std::vector<SymOpRotTrans> o;
                for (size_t i = 0; i < (size_t)cp->countSymOps(); ++i) o.push_back(cp->getSymOp(i));
                SymOpRotTrans& x = o[g.integer(0, o.size() - 1)];
                int m = g.integer(0, 4);
                if (m == 0) std::swap(x.t[0], x.t[1]); else if (m == 1) x.t *= -1; else if (m == 2) std::swap(x.R(0, 1), x.R(1, 0));
                else if (m == 3) std::swap(o[0], o[g.integer(0, o.size() - 1)]); else x.R *= -1;
                cp->clearSymOps();
                for (auto& y : o) cp->addSymOp(y);
                how += " other op";
            }
            else if (pp && g.flip(.3)) { const Lattice& L = pp->getLattice(); pp->setLatPar(L.a(), L.b(), L.c() + (g.flip() ? .1 : 0), L.alpha(), L.beta(), L.gamma()); how += " lattice"; }
            else if (cp && g.flip()) { double R[] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, x[] = {0, 0, g.flip() ? .5 : 0}; addop(*cp, R, x); how += " +op"; }
            else if (cp) { cp->setSymmetryPrecision(cp->getSymmetryPrecision() * (g.flip() ? 1 : 2)); how += " precision"; }
        }
        else if (w == 7 && g.flip(.3)) {
            std::vector<Atom> v(t.ap->begin(), t.ap->end());
            Cell c = randcell(g); int k2 = g.integer(0, 2);
            t = k2 == 0 ? atomic(v) : k2 == 1 ? periodic(c, v) : crystal(c, randops(g, c), v);
            how += " recast";
            if (auto pp = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(t.p)) if (auto p0 = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s.p)) {
                const Lattice& L = p0->getLattice(); pp->setLatPar(L.a(), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()); how += " same lattice";
            }
        }
    }
    begin(Fmt() << (std::string)s.desc << (std::string)how, true);
    check(s, t.p, t.ap);
    Stru b = t;
    check(b, s.p, s.ap);
    check(s, s.p, s.ap);
    if (g.flip(.1)) check(s, StructureAdapterPtr(), AtomicStructureAdapterPtr());
    if (g.flip(.1)) check(s, emptyStructureAdapter(), AtomicStructureAdapterPtr());
    bool same = comparable(s.p, t.p) && s.p->countSites() == t.p->countSites();
    for (int i = 0; same && i < s.p->countSites(); ++i) same = order((*s.ap)[i], (*t.ap)[i]) == 0;
    auto p0 = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s.p), p1 = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(t.p);
    auto c0 = boost::dynamic_pointer_cast<CrystalStructureAdapter>(s.p), c1 = boost::dynamic_pointer_cast<CrystalStructureAdapter>(t.p);
    if (c0 && c1) { if (c0->getSymmetryPrecision() == c1->getSymmetryPrecision()) VCHECK("equal/crystal", (*c0 == *c1) == same && (*c0 != *c1) == !same, how); }
    else if (!c0 && !c1 && p0 && p1) VCHECK("equal/periodic", (*p0 == *p1) == same && (*p0 != *p1) == !same, how);
    else if (!p0 && !p1) VCHECK("equal/atomic", (*s.ap == *t.ap) == same && (*s.ap != *t.ap) == !same, how);
}

void harness()
{
    Rng g(seed);
    for (int i = scale(2000, 30000); i; --i) atoms(g);
    for (int i = scale(3000, 50000); i; --i) pairs(g);
    begin("no structures", false);
    StructureDifference d;
    VCHECK("nothing", d.pop0.empty() && d.add1.empty() && !d.allowsfastupdate() && !d.stru0 && !d.stru1, "the default difference");
}
