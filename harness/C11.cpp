#include "pq.hpp"
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/serialization.ipp>
#include <map>
#include <set>
const char* const vh_rule() { return "random clusters, periodic cells and crystals (0..9 sites, partial occupancies), radii tables, ranges and site masks; queries in random order, before, between and after further evaluations, parallel merges and reloads; every pair of sites flipped; oracle: brute-force pairs over the lattice and the structure with the types really exchanged"; }
using namespace vh;
struct O { int s0, s1; double d, olp; P3 r; };
typedef std::vector<std::vector<char> > Mask;
typedef std::map<std::string, double> Radii;

static std::vector<O> expect(const Stru& s, const Radii& rad, double rmin, double rmax, const Mask& m, bool& unclear)
{
    double mx = 0;
    for (auto& x : s.m.sites) mx = std::max(mx, rad.at(x.type));
    double hi = std::min(rmax, 2 * mx);
    std::vector<O> out;
    for (auto& b : s.m.all(std::max(0.0, rmin - 1e-6), hi + 1e-6)) {
        if (!m[b.i0][b.i1]) continue;
        if (std::fabs(b.d - rmin) < 1e-6 || (std::fabs(b.d - rmax) < 1e-6)) unclear = true;
        double o = rad.at(s.m.sites[b.i0].type) + rad.at(s.m.sites[b.i1].type) - b.d;
        if (std::fabs(o) < 1e-7) unclear = true;
        if (o <= 0) continue;
        O x = {b.i0, b.i1, b.d, o, b.r};
        out.push_back(x);
    }
    return out;
}

static int mult(const Stru& s, int i) { return (int)s.m.sites[i].pos.size(); }

static double total(const Stru& s, const std::vector<O>& ex)
{
    double t = 0;
    for (auto& o : ex) t += o.olp * o.olp / 2 * s.m.sites[o.s0].occ * s.m.sites[o.s1].occ * mult(s, o.s0);
    return t;
}
static double occupancy(const Stru& s) { double t = 0; for (size_t i = 0; i < s.m.sites.size(); ++i) t += s.m.sites[i].occ * mult(s, i); return t; }

static std::set<std::set<int> > components(const Stru& s, const std::vector<O>& ex, const Mask& m)
{
    int n = s.m.sites.size();
    std::vector<int> c(n); for (int i = 0; i < n; ++i) c[i] = i;
    for (int k = 0; k < n; ++k) for (auto& o : ex) c[o.s0] = c[o.s1] = std::min(c[o.s0], c[o.s1]);
    std::map<int, std::set<int> > g;
    for (int i = 0; i < n; ++i) {
        bool in = false;
        for (int j = 0; j < n; ++j) in = in || m[i][j];
        if (in) g[c[i]].insert(i);
    }
    std::set<std::set<int> > rv;
    for (auto& x : g) rv.insert(x.second);
    return rv;
}

static void lists(const OverlapCalculator& oc, const Stru& s, const std::vector<O>& ex, const std::string& how)
{
    QuantityType o = oc.overlaps(), d = oc.distances();
    auto dir = oc.directions(); auto s0 = oc.sites0(), s1 = oc.sites1(); auto t0 = oc.types0(), t1 = oc.types1();
    size_t n = o.size();
    bool same = d.size() == n && dir.size() == n && s0.size() == n && s1.size() == n && t0.size() == n && t1.size() == n;
    VCHECK("lengths-" + how, same, "lists of different length");
    VCHECK("pairs-" + how, n == ex.size(), (int)n << " overlapping pairs, expected " << (int)ex.size());
    if (!same || n != ex.size()) return;
    std::vector<char> used(n, 0);
    for (size_t i = 0; i < n; ++i) {
        P3 r = fromR3(dir[i]);
        bool hit = false;
        for (size_t k = 0; k < n && !hit; ++k)
            if (!used[k] && ex[k].s0 == s0[i] && ex[k].s1 == s1[i] && len(ex[k].r - r) < 1e-6) { used[k] = 1; hit = true; VNEAR("overlap-" + how, o[i], ex[k].olp, 1e-6); VNEAR("distance-" + how, d[i], ex[k].d, 1e-6); }
        VCHECK("pair-" + how, hit, "pair " << s0[i] << "-" << s1[i] << " " << r << " is not one of the structure, or listed twice");
        if (!hit) return;
        VCHECK("type-" + how, t0[i] == s.m.sites[s0[i]].type && t1[i] == s.m.sites[s1[i]].type, "type of another site");
    }
}

static void sums(const OverlapCalculator& oc, const Stru& s, const std::vector<O>& ex, const std::string& how)
{
    int n = s.m.sites.size();
    std::vector<double> sq(n, 0.0), cn(n, 0.0);
    for (auto& o : ex) { sq[o.s0] += o.olp * o.olp / 2 * s.m.sites[o.s1].occ; cn[o.s0] += s.m.sites[o.s1].occ; }
    QuantityType a = oc.siteSquareOverlaps(), b = oc.coordinations();
    VEQ("sites-" + how, (int)a.size(), n); VEQ("sites-" + how, (int)b.size(), n);
    if ((int)a.size() != n || (int)b.size() != n) return;
    for (int i = 0; i < n; ++i) { VNEAR("site-square-" + how, a[i], sq[i], 1e-6); VNEAR("coordination-" + how, b[i], cn[i], 1e-9); }
    double t = total(s, ex), to = occupancy(s);
    VNEAR("total-" + how, oc.totalSquareOverlap(), t, 1e-5);
    VNEAR("mean-" + how, oc.meanSquareOverlap(), to > 0 ? t / to : 0.0, 1e-5);
}

static void neighbors(const OverlapCalculator& oc, const Stru& s, const std::vector<O>& ex, const std::string& how)
{
    int n = s.m.sites.size();
    for (int i = 0; i < n; ++i) {
        std::set<int> e; std::map<std::string, double> ct;
        for (auto& o : ex) if (o.s0 == i) { e.insert(o.s1); ct[s.m.sites[o.s1].type] += s.m.sites[o.s1].occ; }
        auto g = oc.getNeighborSites(i);
        VCHECK("neighbors-" + how, std::set<int>(g.begin(), g.end()) == e, (int)g.size() << " neighbors of site " << i << ", expected " << (int)e.size());
        auto c = oc.coordinationByTypes(i);
        bool same = c.size() == ct.size();
        for (auto& x : ct) same = same && c.count(x.first) && std::fabs(c[x.first] - x.second) < 1e-9;
        VCHECK("by-types-" + how, same, "coordination by types of site " << i);
    }
}

static void hoods(const OverlapCalculator& oc, const Stru& s, const std::vector<O>& ex, const Mask& m, const std::string& how)
{
    auto h = oc.neighborhoods();
    std::set<std::set<int> > g;
    for (auto& x : h) g.insert(std::set<int>(x.begin(), x.end()));
    VCHECK("neighborhoods-" + how, g.size() == h.size() && g == components(s, ex, m), (int)h.size() << " neighborhoods, expected " << (int)components(s, ex, m).size());
}

static void flips(Rng& g, const OverlapCalculator& oc, const Stru& s, const Radii& rad, double rmin, double rmax, const Mask& m, const std::vector<O>& ex, const std::string& how)
{
    int n = s.m.sites.size();
    double to = occupancy(s), t0 = total(s, ex);
    for (int q = 0; q < 6 && n; ++q) {
        int i = g.integer(0, n - 1), j = g.integer(0, n - 1);
        Stru s2 = s; std::swap(s2.m.sites[i].type, s2.m.sites[j].type);
        bool un = false;
        double t1 = total(s2, expect(s2, rad, rmin, rmax, m, un));
        if (un) continue;
        VNEAR("flip-" + how, oc.flipDiffTotal(i, j), t1 - t0, 2e-5);
        VNEAR("flip-mean-" + how, oc.flipDiffMean(i, j), to > 0 ? (t1 - t0) / to : 0.0, 2e-5);
    }
    for (int q = 0; q < 4; ++q) {
        int i = q & 1 ? g.integer(0, n) : q & 2 ? n : -1, j = q & 1 ? (g.flip() ? -1 : n) : g.integer(0, n);
        bool t = false; try { oc.flipDiffTotal(i, j); } catch (std::invalid_argument&) { t = true; }
        VCHECK("flip-range-" + how, t, "flip of " << i << " and " << j << " is accepted");
    }
}

static void gradient(Rng& g, OverlapCalculator& oc, Stru s, const Radii& rad, double rmin, double rmax, const Mask& m, const std::string& how)
{
    (void) g; (void) how;
    int n = s.m.sites.size();
    auto gr = oc.gradients();
    VEQ("gradients", (int)gr.size(), n);
    if ((int)gr.size() != n || s.m.periodic) return;
    for (auto& x : s.m.sites) if (x.occ != 1) return;
    for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) {
        double h = 1e-5, t[2]; bool un = false;
        for (int k = 0; k < 2; ++k) {
            Stru s2 = s; s2.m.sites[i].pos0[c] += k ? h : -h; s2.m.sites[i].pos[0][c] += k ? h : -h;
            t[k] = total(s2, expect(s2, rad, rmin, rmax, m, un));
        }
        if (un) continue;
        std::vector<O> e0 = expect(s, rad, rmin, rmax, m, un);
        bool kink = false;
        for (auto& o : e0) kink = kink || o.olp < 1e-4 || o.d < 1e-2 || std::fabs(o.d - rmin) < 1e-4 || std::fabs(o.d - rmax) < 1e-4;
        if (un || kink) continue;
        VNEAR("gradient", gr[i][c], (t[1] - t[0]) / 2 / h, 1e-3);
    }
}

static void query(Rng& g, OverlapCalculator& oc, const Stru& s, const Radii& rad, double rmin, double rmax, const Mask& m, const std::vector<O>& ex, const std::string& how)
{
    double mx = 0; for (auto& x : s.m.sites) mx = std::max(mx, rad.at(x.type));
    VNEAR("rmaxused-" + how, oc.getRmaxUsed(), std::min(rmax, 2 * mx), 1e-9);
    int k = g.integer(0, 5);
    for (int q = 0; q < 6; ++q) switch ((k + q) % 6) {
        case 0: lists(oc, s, ex, how); break;
        case 1: sums(oc, s, ex, how); break;
        case 2: neighbors(oc, s, ex, how); break;
        case 3: hoods(oc, s, ex, m, how); break;
        case 4: flips(g, oc, s, rad, rmin, rmax, m, ex, how); break;
        case 5: gradient(g, oc, s, rad, rmin, rmax, m, how); break;
    }
}

static AtomRadiiTablePtr mktable(Rng& g, Radii& rad, bool negative)
{
    boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
    double d = g.flip(.3) ? 0 : g.uni(.3, 1.2);
    t->setDefault(d);
    for (auto x : TYPES) { rad[x] = d; if (g.flip(.8)) { rad[x] = g.flip(.1) ? 0 : g.uni(negative ? -.5 : .2, 2.0); t->setCustom(x, rad[x]); } }
    return t;
}

void harness()
{
    Rng g(seed);
    long N = scale(350, 4000);
    for (long it = 0; it < N; ++it) {
        int kind = g.integer(0, 2);
        Stru s = randstru(g, kind, 0, 8);
        OverlapCalculator oc;
        Radii rad;
        oc.setAtomRadiiTable(mktable(g, rad, false));
        double rmin = g.flip(.7) ? 0 : g.uni(.2, 1.5), rmax = g.flip(.7) ? 100 : g.uni(1.0, 3.5);
        oc.setRmin(rmin); oc.setRmax(rmax);
        std::string hist = Fmt() << "range " << rmin << ".." << rmax << " ";
        for (int st = 0; st < 3; ++st) {
            std::string rs; for (auto& x : rad) rs += Fmt() << x.first << ":" << x.second << " ";
            int n = s.m.sites.size();
            Mask m(n, std::vector<char>(n, 1));
            oc.maskAllPairs(true);
            int mw = g.integer(0, 3);
            if (mw == 0) for (int q = 0; q < 3; ++q) {
                int i = g.integer(0, std::max(0, n - 1)), j = g.integer(0, std::max(0, n - 1));
                oc.setPairMask(i, j, false); if (i < n && j < n) m[i][j] = m[j][i] = 0;
                hist += Fmt() << "mask " << i << "-" << j << " ";
            }
            else if (mw == 1 && n) {
                oc.maskAllPairs(false); m.assign(n, std::vector<char>(n, 0));
                hist += "mask all but ";
                for (int q = 0; q < 4; ++q) { int i = g.integer(0, n - 1), j = g.integer(0, n - 1); oc.setPairMask(i, j, true); m[i][j] = m[j][i] = 1; hist += Fmt() << i << "-" << j << " "; }
            }
            bool un = false;
            std::vector<O> ex = expect(s, rad, rmin, rmax, m, un);
            if (un) break;
            if (!begin(s.desc + " " + hist + rs, !ex.empty())) return;
            oc.eval(s.p);
            query(g, oc, s, rad, rmin, rmax, m, ex, "eval");
            if (g.flip(.3)) {                                   // another round, from the notes taken
                sums(oc, s, ex, "again"); neighbors(oc, s, ex, "again");
            }
            if (g.flip(.2)) {
                OverlapCalculator o2;
                if (g.flip()) { Stru s2 = randstru(g, 0, 1, 5); o2.eval(s2.p); o2.getNeighborSites(0); }
                diffpy::serialization_fromstring(o2, diffpy::serialization_tostring(oc));
                query(g, o2, s, rad, rmin, rmax, m, ex, "reloaded");
            }
            hist += "eval; ";
            if (kind != 2 && g.flip()) { Stru s2 = edited(g, s); s2.m = s.m; modelfrom(s2); s = s2; hist += "edited; "; }
            if (g.flip(.3)) { rad.clear(); oc.setAtomRadiiTable(mktable(g, rad, false)); hist += "radii; "; }
            else if (g.flip(.3)) { std::string t = TYPES[g.integer(0, 3)]; rad[t] = g.uni(.2, 2); oc.getAtomRadiiTable()->setCustom(t, rad[t]); hist += "custom radius; "; }
        }
    }
    for (long it = 0; it < scale(120, 1200); ++it) {          // parts computed on several CPUs, queried while they arrive
        int kind = g.integer(0, 2), ncpu = g.integer(1, 4);
        Stru s = randstru(g, kind, 0, 8);
        Radii rad; AtomRadiiTablePtr t = mktable(g, rad, false);
        OverlapCalculator master; master.setAtomRadiiTable(t);
        int n = s.m.sites.size();
        Mask m(n, std::vector<char>(n, 1));
        bool un = false;
        std::vector<O> ex = expect(s, rad, 0, 100, m, un);
        if (un) continue;
        if (!begin(s.desc + (std::string)(Fmt() << " " << ncpu << " CPUs"), !ex.empty())) return;
        master.setStructure(s.p);
        bool peek = g.flip();
        for (int i = 0; i < ncpu; ++i) {
            if (peek && n) master.coordinationByTypes(0);
            OverlapCalculator w; w.setAtomRadiiTable(t); w.setupParallelRun(i, ncpu); w.eval(s.p);
            master.mergeParallelData(w.getParallelData(), ncpu);
        }
        query(g, master, s, rad, 0, 100, m, ex, "parallel");
    }
}
