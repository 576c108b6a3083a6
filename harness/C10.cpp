#include "pq.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
const char* const vh_rule() { return "random clusters, periodic cells and crystals (0..10 sites), ranges, 0..3 direction filters (also of 0, exactly hit and 180 or more degrees), random pair masks or type masks; every evaluator, fast updates through edited structures and changed filters, 1..5 CPUs; oracle: brute-force list of pairs over the lattice, filtered by angle, in order of distance; rejected filters leave the list alone"; }
using namespace vh;
struct Cone { P3 ax; double deg; };
struct B { double d; int s0, s1; P3 r; };

static bool accepts(const std::vector<Cone>& cs, const P3& r, bool& unclear)
{
    bool ok = cs.empty();
    for (auto& c : cs) {
        double ca = dotp(r, c.ax) / len(r) / len(c.ax), a = std::acos(std::max(-1.0, std::min(1.0, ca))) * 180 / M_PI;
        if (c.deg >= 180) { ok = true; continue; }
        if (std::fabs(a - c.deg) < 1e-5) unclear = true;
        if (a <= c.deg) ok = true;
    }
    return ok;
}

typedef std::vector<std::vector<char> > Mask;
static std::vector<B> expect(const Stru& s, double rmin, double rmax, const std::vector<Cone>& cs, const Mask& m, bool& unclear)
{
    std::vector<B> out;
    for (auto& b : s.m.all(std::max(0.0, rmin - 1e-6), rmax + 1e-6)) {
        if (!m[b.i0][b.i1]) continue;
        if (std::fabs(b.d - rmin) < 1e-6 || std::fabs(b.d - rmax) < 1e-6) unclear = true;
        if (!accepts(cs, b.r, unclear)) continue;
        B x = {b.d, b.i0, b.i1, b.r};
        out.push_back(x);
    }
    return out;
}

static void check(BondCalculator& bc, const Stru& s, const std::vector<B>& ex, const char* how)
{
    QuantityType d = bc.distances();
    auto dir = bc.directions(); auto s0 = bc.sites0(), s1 = bc.sites1();
    auto t0 = bc.types0(), t1 = bc.types1();
    size_t n = d.size();
    if (!(dir.size() == n && s0.size() == n && s1.size() == n && t0.size() == n && t1.size() == n && bc.value().size() == n))
    { VCHECK(Fmt() << "lengths-" << how, false, "lists of different length"); return; }
    VCHECK(Fmt() << "count-" << how, n == ex.size(), (int)n << " bonds, expected " << (int)ex.size());
    if (n != ex.size()) return;
    std::vector<char> used(n, 0);
    for (size_t i = 0; i < n; ++i) {
        VCHECK(Fmt() << "value-" << how, bc.value()[i] == d[i], "value differs from the distance");
        if (i) VCHECK(Fmt() << "order-" << how, d[i - 1] <= d[i], d[i - 1] << " before " << d[i]);
        if (i && d[i - 1] == d[i]) VCHECK(Fmt() << "ties-" << how, std::make_pair(s0[i - 1], s1[i - 1]) <= std::make_pair(s0[i], s1[i]), "bonds of equal length out of site order");
        bool in = s0[i] >= 0 && s1[i] >= 0 && s0[i] < (int)s.m.sites.size() && s1[i] < (int)s.m.sites.size();
        VCHECK(Fmt() << "site-" << how, in, "no such site");
        if (!in) return;
        VCHECK(Fmt() << "type-" << how, t0[i] == s.m.sites[s0[i]].type && t1[i] == s.m.sites[s1[i]].type, "type of another site");
        P3 r = fromR3(dir[i]);
        VNEAR(Fmt() << "length-" << how, len(r), d[i], 1e-9);
        bool hit = false;
        for (size_t k = 0; k < n && !hit; ++k) if (!used[k] && ex[k].s0 == s0[i] && ex[k].s1 == s1[i] && len(ex[k].r - r) < 1e-6) { used[k] = 1; hit = true; }
        VCHECK(Fmt() << "bond-" << how, hit, "bond " << s0[i] << "-" << s1[i] << " " << r << " is not one of the structure, or listed twice");
        if (!hit) return;
    }
}

static void filters(Rng& g, BondCalculator& bc, std::vector<Cone>& cs, const Stru& s, std::string& hist, std::vector<BondCalculator*> more = std::vector<BondCalculator*>())
{
    more.push_back(&bc);
    int w = g.integer(0, 6);
    if (w == 0) { cs.clear(); for (auto p : more) p->filterOff(); hist += "off "; return; }
    if (w == 1) {
        R3::Vector z(0, 0, g.flip() ? 0.0 : 1e-9);
        bool thrown = true;
        for (auto p : more) { bool t = false; try { p->filterCone(z, 100); } catch (std::invalid_argument&) { t = true; } thrown = thrown && t; }
        VCHECK("degenerate", thrown, "filter along a vector without length is accepted");
        hist += "degenerate "; return;
    }
    Cone c; c.ax = p3(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1));
    if (len(c.ax) < .05) c.ax = p3(0, 0, 2);
    c.deg = w == 2 ? 180 + 20 * g.integer(0, 1) : w == 3 ? g.uni(0, 180) : g.uni(5, 90);
    if (w == 4) { c.ax = p3(0, 0, 0); c.ax[g.integer(0, 2)] = g.flip() ? 3 : -.5; c.deg = g.flip() ? 1 : 179; }
    for (auto p : more) p->filterCone(R3::Vector(c.ax[0], c.ax[1], c.ax[2]), c.deg);
    cs.push_back(c);
    hist += Fmt() << "cone " << c.ax << " " << c.deg << " ";
}

void harness()
{
    Rng g(seed);
    long N = scale(260, 3000);
    for (long it = 0; it < N; ++it) {
        int kind = g.integer(0, 2);
        Stru s = randstru(g, kind, 0, 9);
        BondCalculator bc;
        double rmin = g.flip() ? 0 : g.uni(.2, 1.5), rmax = g.uni(1.8, kind ? 4.0 : 6.0);
        bc.setRmin(rmin); bc.setRmax(rmax);
        std::string hist = Fmt() << "range " << rmin << ".." << rmax << " ";
        std::vector<Cone> cs;
        int e = g.integer(0, 2);
        if (e) bc.setEvaluatorType(e == 1 ? BASIC : OPTIMIZED);
        int nf = g.integer(0, 2);
        for (int i = 0; i < nf; ++i) filters(g, bc, cs, s, hist);
        for (int st = 0; st < 4; ++st) {
            int n = s.m.sites.size();
            Mask m(n, std::vector<char>(n, 1));
            bc.maskAllPairs(true);
            int mw = g.integer(0, 3);
            if (mw == 1) {
                for (int q = 0; q < 3; ++q) {
                    int i = g.integer(0, std::max(0, n - 1)), j = g.integer(0, std::max(0, n - 1)); bool on = g.flip(.3);
                    bc.setPairMask(i, j, on);
                    if (i < n && j < n) m[i][j] = m[j][i] = on;
                    hist += Fmt() << "mask " << i << "-" << j << " " << on << " ";
                }
            }
            else if (mw == 2) {
                std::string a = TYPES[g.integer(0, 3)], b = TYPES[g.integer(0, 3)];
                bc.setTypeMask(a, b, false);
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { auto &x = s.m.sites[i].type, &y = s.m.sites[j].type; if ((x == a && y == b) || (x == b && y == a)) m[i][j] = 0; }
                hist += "mask " + a + "-" + b + " ";
            }
            bool unclear = false;
            std::vector<B> ex = expect(s, rmin, rmax, cs, m, unclear);
            if (unclear) break;
            if (!begin(s.desc + " " + hist, !ex.empty())) return;
            bc.eval(s.p);
            check(bc, s, ex, e == 2 ? "fast" : "full");
            hist += "eval; ";
            if (g.flip()) filters(g, bc, cs, s, hist);
            if (kind != 2 && g.flip()) { Stru s2 = edited(g, s); s2.m = s.m; modelfrom(s2); s = s2; hist += " edited; "; }
            if (g.flip(.2)) { rmax = g.uni(1.8, 4); bc.setRmax(rmax); hist += Fmt() << "rmax " << rmax << " "; }
        }
    }
    // angles exactly on the limit belong to the filter
    for (int ax = 0; ax < 3; ++ax) {
        if (!begin(Fmt() << "limits along " << ax)) return;
        std::vector<Atom> v; P3 u = p3(0, 0, 0), w = p3(0, 0, 0); u[ax] = 1; w[(ax + 1) % 3] = 1;
        v.push_back(mkatom("C", p3(0, 0, 0))); v.push_back(mkatom("C", 2 * u)); v.push_back(mkatom("O", 2 * w));
        Stru s = atomic(v);
        struct { double deg; int n; } T[] = {{0, 1}, {45, 2}, {90, 4}, {134, 4}, {136, 5}, {179.9, 5}, {180, 6}, {400, 6}};
        for (auto& t : T) {
            BondCalculator bc; bc.setRmax(10); bc.filterCone(R3::Vector(5 * u[0], 5 * u[1], 5 * u[2]), t.deg);
            bc.eval(s.p);
            int n = 0;
            std::vector<Cone> cs = {{u, t.deg}}; bool un = false;
            for (auto& b : s.m.all(0, 10)) n += accepts(cs, b.r, un) || (t.deg == 90 && std::fabs(dotp(b.r, u)) < 1e-12);
            VEQ("inclusive", (int)bc.distances().size(), n);
            (void) t.n;
        }
    }
    // parts computed on several CPUs, in several rounds
    for (long it = 0; it < scale(80, 800); ++it) {
        int kind = g.integer(0, 2), ncpu = g.integer(1, 5);
        Stru s = randstru(g, kind, 0, 9);
        double rmax = g.uni(1.8, 4.0);
        bool fast = g.flip();
        std::vector<BondCalculator> cpu(ncpu);
        std::vector<BondCalculator*> all;
        BondCalculator master;
        for (int i = 0; i < ncpu; ++i) { cpu[i].setRmax(rmax); cpu[i].setEvaluatorType(fast ? OPTIMIZED : BASIC); cpu[i].setupParallelRun(i, ncpu); all.push_back(&cpu[i]); }
        master.setRmax(rmax);
        std::vector<Cone> cs;
        std::string hist = Fmt() << ncpu << (fast ? " fast CPUs " : " CPUs ");
        for (int st = 0; st < 3; ++st) {
            if (g.flip(.3)) filters(g, master, cs, s, hist, all);
            int n = s.m.sites.size();
            Mask m(n, std::vector<char>(n, 1));
            bool unclear = false;
            std::vector<B> ex = expect(s, 0, rmax, cs, m, unclear);
            if (unclear) break;
            if (!begin(s.desc + " " + hist, !ex.empty())) return;
            master.setStructure(s.p);
            std::vector<int> order; for (int i = 0; i < ncpu; ++i) { cpu[i].eval(s.p); order.insert(order.begin() + g.integer(0, i), i); }
            for (int i : order) master.mergeParallelData(cpu[i].getParallelData(), ncpu);
            check(master, s, ex, "parallel");
            if (kind != 2) { Stru s2 = edited(g, s); s2.m = s.m; modelfrom(s2); s = s2; hist += " edited; "; }
        }
    }
}
