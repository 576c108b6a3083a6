#include "pq.hpp"
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <fstream>
const char* const vh_rule() { return "clusters, periodic cells and symmetric crystals (multiplicities differ), symbols with and without charges, custom and standard bond parameters in either order of atoms, custom valences, pair masks, ranges and precisions; oracle: the bond valence law summed over brute-force pairs, independent of symmetry and site order; tables: random histories of set, reset and lookup against a reference map, standard entries from the data file"; }
using namespace vh;
struct Key { std::string a; int v; std::string b; int w;
    bool operator<(const Key& o) const { return std::tie(a, v, b, w) < std::tie(o.a, o.v, o.b, o.w); } };
static Key key(std::string a, int v, std::string b, int w) { if (v < w || (v == w && b < a)) { std::swap(a, b); std::swap(v, w); } Key k = {a, v, b, w}; return k; }
typedef std::map<Key, std::pair<double, double> > Table;
static Table standard()
{
    Table t;
    std::ifstream f((std::string(getenv("DIFFPYRUNTIME")) + "/bvparm2011sel.cif").c_str());
    std::string l; bool on = false, blank = false;
    while (std::getline(f, l)) {
        if (!on) { if (l.find("_valence_param_B") == l.find_first_not_of(" \t") && l.find_first_not_of(" \t\r", l.find("_valence_param_B") == std::string::npos ? 0 : l.find("_valence_param_B") + 16) == std::string::npos) on = true; continue; }
        if (!blank) { if (l.find_first_not_of(" \t\r") == std::string::npos) blank = true; continue; }
        std::istringstream s(l); std::string a, b; int v, w; double R, B;
        if (l[0] == '#' || !(s >> a >> v >> b >> w >> R >> B)) continue;
        t[key(a, v, b, w)] = std::make_pair(R, B);
    }
    return t;
}
static const std::pair<double, double>* find(const Table& cu, const Table& st, const std::string& a, int v, const std::string& b, int w)
{
    Key k = key(a, v, b, w), k9 = k; k9.v = 9;
    const Table* T[] = {&cu, &st};
    for (int n = 0; n < 2; ++n) { if (n && !(k.v > 0)) break; for (auto t : T) { auto i = t->find(n ? k9 : k); if (i != t->end()) return &i->second; } }
    return nullptr;
}
static const char* const SYM[] = {"Na1+", "Cl1-", "O2-", "Ti4+", "C", "Pt2+", "C2+", "Fe3+", "H1+", "Na"};
static const char* const BAREN[] = {"Na", "Cl", "O", "Ti", "C", "Pt", "C", "Fe", "H", "Na"};
static const int VAL[] = {1, -1, -2, 4, 0, 2, 2, 3, 1, 0};

void harness()
{
    Rng g(seed);
    Table st = standard();
    VCHECK("standard", st.size() > 1000, "standard table read " << (int)st.size());
    // tables
    if (!begin("every standard entry")) return;
    { BVParametersTable t;
      for (auto& e : st) for (int sw = 0; sw < 2; ++sw) {
        const BVParam& p = sw ? t.lookup(e.first.b, e.first.w, e.first.a, e.first.v) : t.lookup(e.first.a, e.first.v, e.first.b, e.first.w);
        VCHECK("standard-lookup", p.mRo == e.second.first && p.mB == e.second.second, e.first.a << e.first.v << "-" << e.first.b << e.first.w);
      }
      VEQ("standard-all", t.getAll().size(), st.size()); }
    for (long it = 0; it < scale(60, 600); ++it) {
        BVParametersTable t; Table cu; std::map<std::string, int> av;
        std::string hist;
        for (int s = 0; s < 25; ++s) {
            int i = g.integer(0, 9), j = g.integer(0, 9), w = g.integer(0, 7);
            std::string a = BAREN[i], b = BAREN[j]; int va = g.flip(.2) ? 9 : VAL[i], vb = VAL[j];
            double R = 1 + .25 * g.integer(0, 8), B = g.flip() ? .37 : g.uni(.2, .5);
            if (w <= 2) { if (g.flip()) t.setCustom(a, va, b, vb, R, B); else t.setCustom(BVParam(a, va, b, vb, R, B)); cu[key(a, va, b, vb)] = std::make_pair(R, B); hist += Fmt() << "set " << a << va << b << vb << "; "; }
            else if (w == 3) { if (g.flip()) t.resetCustom(a, va, b, vb); else t.resetCustom(BVParam(a, va, b, vb)); cu.erase(key(a, va, b, vb)); hist += Fmt() << "reset " << a << va << b << vb << "; "; }
            else if (w == 4 && g.flip(.3)) { t.resetAll(); cu.clear(); hist += "reset all; "; }
            else if (w == 5) { int v = g.integer(-3, 4); t.setAtomValence(SYM[i], v); av[SYM[i]] = v; hist += Fmt() << "valence " << SYM[i] << " " << v << "; "; }
            else if (w == 6 && g.flip(.3)) { t.resetAtomValences(); av.clear(); hist += "reset valences; "; }
            if (!begin("table " + hist)) return;
            for (int q = 0; q < 6; ++q) {
                int x = g.integer(0, 9), y = g.integer(0, 9);
                int vx = av.count(SYM[x]) ? av[SYM[x]] : VAL[x], vy = av.count(SYM[y]) ? av[SYM[y]] : VAL[y];
                VEQ("valence", t.getAtomValence(SYM[x]), vx);
                const std::pair<double, double>* e = find(cu, st, BAREN[x], vx, BAREN[y], vy);
                for (int sw = 0; sw < 2; ++sw) {
                    const BVParam* P[] = {sw ? &t.lookup(SYM[y], SYM[x]) : &t.lookup(SYM[x], SYM[y]), sw ? &t.lookup(BAREN[y], vy, BAREN[x], vx) : &t.lookup(BAREN[x], vx, BAREN[y], vy)};
                    for (auto p : P) {
                        VCHECK("lookup", (p == &t.none()) == !e, SYM[x] << "-" << SYM[y] << (e ? " not found" : " found though not tabulated"));
                        if (e && p != &t.none()) VCHECK("lookup-value", p->mRo == e->first && p->mB == e->second, SYM[x] << "-" << SYM[y] << " R0 " << p->mRo << ", expected " << e->first);
                    }
                }
            }
            VEQ("custom-count", t.getAllCustom().size(), cu.size());
            Table u = st; for (auto& e : cu) u[e.first] = e.second;
            VEQ("all-count", t.getAll().size(), u.size());
        }
    }
    // the law and its inverse
    for (long it = 0; it < scale(200, 2000); ++it) {
        double R = g.uni(.5, 3), B = g.flip(.2) ? (g.flip() ? 0.0 : -.3) : g.uni(.1, .6), d = g.uni(0, 6), v = std::pow(10, -g.uni(-.5, 7));
        if (!begin(Fmt() << "R0 " << R << " B " << B << " d " << d << " v " << v)) return;
        BVParam p("A", 1, "B", -1, R, B);
        VNEAR("law", p.bondvalence(d), B > 0 ? std::exp((R - d) / B) : 0.0, 1e-12);
        if (B > 0) VCHECK("inverse", std::fabs(p.bondvalence(p.bondvalenceToDistance(v)) / v - 1) < 1e-9, p.bondvalence(p.bondvalenceToDistance(v)));
    }
    // sums
    for (long it = 0; it < scale(150, 1500); ++it) {
        int kind = g.integer(0, 2), n = g.integer(0, 6);
        std::vector<Atom> at = randatoms(g, n, 4);
        std::vector<int> ty(n);
        int pool = g.integer(2, 10);
        for (int i = 0; i < n; ++i) { ty[i] = g.integer(0, pool - 1); at[i].atomtype = SYM[ty[i]]; }
        if (n && g.flip()) for (int c = 0; c < 3; ++c) at[g.integer(0, n - 1)].xyz_cartn[c] = 0;     // special positions
        if (n && g.flip()) at[0].xyz_cartn = R3::Vector(0, 0, 0);
        Cell cell = randcell(g, 3, 5.5);
        Stru s = kind == 0 ? atomic(at) : kind == 1 ? periodic(cell, at) : crystal(cell, randops(g, cell), at);
        BVSCalculator b;
        BVParametersTablePtr t = b.getBVParamTable();
        Table cu; std::map<std::string, int> av;
        for (int q = g.integer(0, 4); q > 0; --q) {
            int i = g.integer(0, pool - 1), j = g.integer(0, pool - 1); double R = g.uni(1, 2.4), B = g.uni(.25, .5);
            t->setCustom(BAREN[i], VAL[i], BAREN[j], VAL[j], R, B); cu[key(BAREN[i], VAL[i], BAREN[j], VAL[j])] = std::make_pair(R, B);
        }
        if (g.flip(.3)) { int i = g.integer(0, pool - 1), v = g.integer(-2, 3); t->setAtomValence(SYM[i], v); av[SYM[i]] = v; }
        auto val = [&](int i) { return av.count(s.m.sites[i].type) ? av[s.m.sites[i].type] : VAL[ty[i]]; };
        double eps = std::pow(10, -g.uni(2, 5)), rmin = g.flip(.7) ? 0 : g.uni(.5, 2.5), rmax = g.flip() ? 100 : g.uni(2, 6);
        b.setValencePrecision(eps); b.setRmin(rmin); b.setRmax(rmax);
        int mi = -1, mj = -1;
        if (n > 1 && g.flip(.3)) { mi = g.integer(0, n - 1); mj = g.integer(0, n - 1); b.setPairMask(mi, mj, false); }
        double lim = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { auto e = find(cu, st, BAREN[ty[i]], val(i), BAREN[ty[j]], val(j)); if (e) lim = std::max(lim, e->first - e->second * std::log(eps)); }
        double used = std::min(rmax, lim);
        if (!s.m.clear(rmin, 1e-7) || !s.m.clear(used, 1e-7)) continue;
        if (!begin(Fmt() << s.desc << " range " << rmin << ".." << rmax << " eps " << eps << " mask " << mi << "," << mj << " customs " << (int)cu.size(), n > 1)) return;
        b.eval(s.p);
        VNEAR("rmaxused", b.getRmaxUsed(), used, 1e-9);
        std::vector<double> ref(n, 0.0);
        double sq = 0, oc = 0;
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < n; ++j) {
                if ((i == mi && j == mj) || (i == mj && j == mi)) continue;
                auto e = find(cu, st, BAREN[ty[i]], val(i), BAREN[ty[j]], val(j));
                if (!e || !(e->second > 0)) continue;
                for (auto& x : s.m.bonds(i, j, rmin, used)) ref[i] += std::exp((e->first - x.d) / e->second) * s.m.sites[j].occ;
            }
            if (val(i) < 0) ref[i] = -ref[i];
            double df = std::fabs(val(i)) - std::fabs(ref[i]), m = s.m.sites[i].pos.size() * s.m.sites[i].occ;
            sq += m * df * df; oc += m;
            VCHECK("size", (int)b.value().size() == n, "sums " << (int)b.value().size());
            if ((int)b.value().size() != n) return;
            VCHECK("sum", std::fabs(b.value()[i] - ref[i]) < 1e-7 * std::max(1.0, std::fabs(ref[i])), "site " << i << " (" << s.m.sites[i].type << ", multiplicity " << (int)s.m.sites[i].pos.size() << "): " << b.value()[i] << ", expected " << ref[i]);
            VEQ("expected-valence", b.valences()[i], (double)val(i));
            VNEAR("difference", b.bvdiff()[i], df, 1e-6 * std::max(1.0, std::fabs(df)));
        }
        double ms = oc > 0 ? sq / oc : 0.0;
        VCHECK("mean-square", std::fabs(b.bvmsdiff() - ms) < 1e-6 * std::max(1.0, ms), b.bvmsdiff() << ", expected " << ms);
        VCHECK("root", std::fabs(b.bvrmsdiff() - std::sqrt(ms)) < 1e-6 * std::max(1.0, ms), b.bvrmsdiff());
    }
}
