#include "pq.hpp"
#include <diffpy/srreal/BaseBondGenerator.hpp>
const char* const vh_rule() { return "clusters, periodic cells and crystals (0..5 atoms, cubic to strongly skewed cells, P1, P-1, I, C operations), random range, site subsets, anchors and restarts; oracle enumerates lattice translations by brute force"; }
using namespace vh;
static void run(const Stru& s, int i0, const std::vector<int>& sel, BaseBondGenerator& b, double rmin, double rmax)
{
    std::vector<Bond> want;
    for (int i1 : sel) { auto w = s.m.bonds(i0, i1, rmin, rmax); want.insert(want.end(), w.begin(), w.end()); }
    std::vector<bool> used(want.size(), false);
    P3 r0 = fromR3(b.r0());
    size_t cnt = 0;
    for (b.rewind(); !b.finished(); b.next()) {
        VEQ("site0", b.site0(), i0);
        VCHECK("range", b.distance() >= rmin && b.distance() <= rmax, "d=" << b.distance());
        P3 r = fromR3(b.r01()), r1 = fromR3(b.r1());
        VCHECK("r01", len(r - (r1 - r0)) < 1e-8, "r01 is not r1 - r0: " << r << r1 << r0);
        VNEAR("distance-r01", b.distance(), len(r), 1e-9);
        VEQ("multiplicity", b.multiplicity(), (int)s.m.sites[i0].pos.size());
        bool ok = false;
        for (size_t k = 0; k < want.size() && !ok; ++k)
            if (!used[k] && want[k].i1 == b.site1() && len(want[k].r - r) < 1e-6) { used[k] = true; ok = true; }
        VCHECK("unexpected-bond", ok, "bond " << i0 << "-" << b.site1() << " r=" << r << " visited twice or not in range");
        if (++cnt > want.size() + 1000) break;
    }
    for (size_t k = 0; k < want.size(); ++k)
        VCHECK("missing-bond", used[k], "bond " << i0 << "-" << want[k].i1 << " r=" << want[k].r << " d=" << want[k].d << " not visited");
}
void harness()
{
    Rng g(seed);
    for (long it = 0; it < scale(500, 8000); ++it) {
        Stru s = randstru(g, it % 3, 1, 5);
        int n = s.ap->countSites();
        auto b = s.p->createBondGenerator();
        // either unrelated ranges, or a range that changes in small steps
        const bool walk = g.flip(.3);
        const double drift = g.pick(std::vector<double>{-.5, .5, 0});
        double rmin = 0, rmax = 3;
        const int nq = walk ? 9 : 4;
        for (int q = 0; q < nq; ++q) {
            if (walk && q) { if (g.flip(.6)) rmax += drift + g.uni(-.4, .4); if (g.flip(.4)) rmin += -drift + g.uni(-.4, .4); rmax = std::max(rmax, .5); rmax = std::min(rmax, 7.0); rmin = std::max(0.0, rmin); }
            else { rmin = g.flip(.4) ? 0.0 : g.uni(0, 4); rmax = g.uni(0.5, walk ? 3 : 6); }
            if (g.flip(.05)) std::swap(rmin, rmax);
            if (!s.m.clear(rmin) && rmin > 0) continue;
            if (!s.m.clear(rmax)) continue;
            int i0 = g.integer(0, n - 1);
            std::vector<int> sel;
            int mode = g.integer(0, 3), lo = 0, hi = n;
            if (mode == 1) { lo = g.integer(0, n); hi = g.integer(lo, n); }
            for (int i = lo; i < hi; ++i) if (mode < 2 || g.flip()) sel.push_back(i);
            if (!begin(Fmt() << s.desc << " anchor " << i0 << " sites " << sel << " range " << rmin << ".." << rmax, !sel.empty())) return;
            if (g.flip()) { b->setRmin(rmin); b->setRmax(rmax); b->selectAnchorSite(i0); }
            else { b->selectAnchorSite(i0); b->setRmax(rmax); b->setRmin(rmin); }
            if (mode == 1 || mode == 0) b->selectSiteRange(lo, hi);
            else if (mode == 2) b->selectSites(sel);
            else b->selectSites(sel.begin(), sel.end());
            VCHECK("finished-after-select", b->finished(), "configuration change must stop the iteration");
            run(s, i0, sel, *b, rmin, rmax);
            if (g.flip(.3)) { b->rewind(); if (!b->finished()) b->next(); run(s, i0, sel, *b, rmin, rmax); }
        }
    }
    // small cells, a range that grows or shrinks in small steps while the generator is used
    for (long it = 0; it < scale(60, 600); ++it) {
        Cell c = randcell(g, .9, 1.7);
        std::vector<Atom> v = randatoms(g, g.integer(1, 2), 2, false, 1.5);
        Stru s = it % 2 ? periodic(c, v) : crystal(c, randops(g, c), v);
        auto b = s.p->createBondGenerator();
        const bool grow = g.flip();
        double rmin = grow ? 3 : 0, rmax = grow ? 3.5 : 6;
        const double step = g.uni(.2, 1.2);
        for (int q = 0; q < 10; ++q) {
            if (grow) { if (g.flip()) rmin = std::max(0.0, rmin - step); rmax = std::min(6.5, rmax + step * g.unit()); }
            else { if (g.flip()) rmin += step * g.unit() * .4; rmax = std::max(1.0, rmax - step * g.unit() * .6); }
            if ((rmin > 0 && !s.m.clear(rmin)) || !s.m.clear(rmax)) continue;
            if (!begin(Fmt() << "step " << q << " range " << rmin << ".." << rmax << " " << s.desc)) return;
            b->setRmin(rmin); b->setRmax(rmax);
            int n = s.ap->countSites(), i0 = g.integer(0, n - 1);
            std::vector<int> sel;
            for (int i = 0; i < n; ++i) sel.push_back(i);
            b->selectAnchorSite(i0); b->selectSiteRange(0, n);
            run(s, i0, sel, *b, rmin, rmax);
        }
    }
    // far-away fractional coordinates, exact ranges
    for (int k = -3; k <= 3; ++k) {
        Cell c; c.set(2, 3, 4, 90, 90, 90);
        std::vector<Atom> v; v.push_back(mkatom("C", p3(0, 0, 0))); v.push_back(mkatom("O", p3(2 * k + 1.0, 3 * k, 4 * k)));
        std::vector<Op> none;
        Stru s[2] = {periodic(c, v), crystal(c, none, v)};
        for (int w = 0; w < 2; ++w) for (int i0 = 0; i0 < 2; ++i0) {
            auto b = s[w].p->createBondGenerator();
            double rs[] = {1, 2, 3, 1.5};
            for (double r : rs) {
                begin(Fmt() << "exact " << s[w].desc << " shift " << k << " anchor " << i0 << " rmax " << r);
                b->setRmax(r); b->selectAnchorSite(i0); b->selectSiteRange(0, 2);
                std::vector<int> sel; sel.push_back(0); sel.push_back(1);
                run(s[w], i0, sel, *b, 0, r);
            }
        }
    }
}
