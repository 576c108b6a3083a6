#include "pq.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
const char* const vh_rule() { return "random histories of mask calls (index masks incl. 'all' and not-yet-existing sites, or type masks incl. all/ALL and unknown types; inversion, mask-all, mode changes across mask-all), interleaved with structures of changing size and evaluation with both sum modes and split over CPUs; oracle: the last call that names the pair decides"; }
using namespace vh;

class Rec : public PairQuantity
{
    public:
        std::map<std::pair<int,int>, std::pair<int,int> > seen;
        Rec() { this->resizeValue(1); }
        void full(bool f) { mevaluator->setFlag(USEFULLSUM, f); }
        bool mask01() const { return this->hasMask(); }
    protected:
        virtual void resetValue() { seen.clear(); this->PairQuantity::resetValue(); }
        virtual void addPairContribution(const BaseBondGenerator& b, int sc)
        { auto& x = seen[std::make_pair(b.site0(), b.site1())]; x.first += sc; x.second += 1; mvalue[0] += sc * b.distance(); }
};

struct Call { int i, j; std::string a, b; bool mask; int kind; };  // kind 0: pair, 1: invert
typedef std::vector<Call> History;

static bool imask(const History& h, int i, int j)
{
    bool inv = false;
    for (size_t k = h.size(); k--;) {
        if (h[k].kind == 1) { inv = !inv; continue; }
        int p = h[k].i, q = h[k].j;
        bool named = (p < 0 && q < 0) || (p < 0 && (q == i || q == j)) || (q < 0 && (p == i || p == j)) || (p == i && q == j) || (p == j && q == i);
        if (named) return h[k].mask != inv;
    }
    return !inv;
}
static bool isall(const std::string& s) { return s == "all" || s == "ALL"; }
static bool tmask(const History& h, const std::string& a, const std::string& b)
{
    bool inv = false;
    for (size_t k = h.size(); k--;) {
        if (h[k].kind == 1) { inv = !inv; continue; }
        std::string p = h[k].a, q = h[k].b;
        bool pa = isall(p), qa = isall(q);
        bool named = (pa && qa) || (pa && (q == a || q == b)) || (qa && (p == a || p == b)) || (p == a && q == b) || (p == b && q == a);
        if (named) return h[k].mask != inv;
    }
    return !inv;
}
static std::string desc(const History& h, bool types)
{
    Fmt f;
    for (auto& c : h) {
        if (c.kind == 1) { f << "invert; "; continue; }
        if (types) f << "T(" << c.a << "," << c.b << "," << c.mask << "); "; else f << "(" << c.i << "," << c.j << "," << c.mask << "); ";
    }
    return f;
}

static void checkmasks(const char* when, Rec& r, const History& h, bool types, const Stru* s)
{
    int n = r.getStructure()->countSites();
    if (types) {
        const char* names[] = {"C", "O", "Na1+", "Cl1-", "Xx"};
        for (auto a : names) for (auto b : names)
            VCHECK(Fmt() << "getTypeMask-" << when, r.getTypeMask(a, b) == tmask(h, a, b), a << "-" << b << " after " << desc(h, types));
        return;
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        VCHECK(Fmt() << "getPairMask-" << when, r.getPairMask(i, j) == imask(h, i, j), i << "," << j << " sites " << n << " after " << desc(h, types));
}

static void checkeval(Rng& g, Rec& r, const History& h, bool types, const Stru& s)
{
    const bool full = g.flip(.4);
    const int ncpu = g.flip(.5) ? 1 : g.integer(2, 4);
    double rmin = g.flip(.6) ? 0 : g.uni(0, 2), rmax = g.uni(1, 4.5);
    Rec ref;
    ref.full(full); r.full(full);
    ref.setRmin(rmin); ref.setRmax(rmax); r.setRmin(rmin); r.setRmax(rmax);
    ref.eval(s.p);
    std::map<std::pair<int,int>, std::pair<int,int> > sum;
    for (int k = 0; k < ncpu; ++k) {
        r.setupParallelRun(k, ncpu);
        r.eval(s.p);
        for (auto& x : r.seen) { sum[x.first].first += x.second.first; sum[x.first].second += x.second.second; }
    }
    r.setupParallelRun(0, 1);
    for (auto& x : ref.seen) {
        int i = x.first.first, j = x.first.second;
        bool m = types ? tmask(h, s.m.sites[i].type, s.m.sites[j].type) : imask(h, i, j);
        auto y = sum.find(x.first);
        if (m) VCHECK("unmasked-missing", y != sum.end() && y->second == x.second, "pair " << i << "," << j << " of " << s.desc << " ncpu " << ncpu << " full " << full << " after " << desc(h, types));
        else VCHECK("masked-contributes", y == sum.end(), "pair " << i << "," << j << " of " << s.desc << " ncpu " << ncpu << " full " << full << " after " << desc(h, types));
    }
    for (auto& y : sum) VCHECK("extra-pair", ref.seen.count(y.first), "pair " << y.first.first << "," << y.first.second << " ncpu " << ncpu << " full " << full);
}

// the same through calculators a user has
static void checkcalc(Rng& g, const History& h, bool types, const Stru& s)
{
    BondCalculator bc;
    PairCounter pc;
    double rmax = g.uni(1, 4);
    bc.setRmax(rmax); pc.setRmax(rmax);
    BondCalculator ref; ref.setRmax(rmax);
    PairCounter pref; pref.setRmax(rmax);
    int before = (int) g.integer(0, h.size());
    for (int k = 0; k <= (int) h.size(); ++k) {
        if (k == before) { bc.setStructure(s.p); pc.setStructure(s.p); }
        if (k == (int) h.size()) break;
        const Call& c = h[k];
        PairQuantity* qq[] = {&bc, &pc};
        for (auto q : qq) {
            if (c.kind == 1) q->invertMask();
            else if (types) q->setTypeMask(c.a, c.b, c.mask);
            else q->setPairMask(c.i, c.j, c.mask);
        }
    }
    bc.eval(s.p); ref.eval(s.p);
    std::map<std::pair<int,int>, int> got, want;
    for (size_t k = 0; k < bc.sites0().size(); ++k) got[std::make_pair(bc.sites0()[k], bc.sites1()[k])]++;
    long total = 0;
    for (size_t k = 0; k < ref.sites0().size(); ++k) {
        int i = ref.sites0()[k], j = ref.sites1()[k];
        if (types ? tmask(h, s.m.sites[i].type, s.m.sites[j].type) : imask(h, i, j)) want[std::make_pair(i, j)]++;
    }
    VCHECK("bondcalculator", got == want, s.desc << " before " << before << " after " << desc(h, types));
    (void) total;
    if (!s.m.periodic) {
        long w = 0;
        for (auto& x : want) if (x.first.first < x.first.second) w += x.second;
        for (auto& x : want) if (x.first.first < x.first.second && want.count(std::make_pair(x.first.second, x.first.first)) == 0) w = -1;
        if (w >= 0) VEQ("paircounter", (long) pc(s.p), w);
    }
}

static Call randcall(Rng& g, bool types, int nmax)
{
    Call c = {0, 0, "", "", g.flip(), 0};
    if (g.flip(.12)) { c.kind = 1; return c; }
    if (types) {
        const char* t[] = {"C", "O", "Na1+", "Cl1-", "Xx"};
        c.a = g.flip(.35) ? (g.flip() ? "all" : "ALL") : t[g.integer(0, 4)];
        c.b = g.flip(.35) ? (g.flip() ? "all" : "ALL") : t[g.integer(0, 4)];
    } else {
        c.i = g.flip(.35) ? -g.integer(1, 3) : g.integer(0, nmax);
        c.j = g.flip(.35) ? -g.integer(1, 3) : g.integer(0, nmax);
    }
    return c;
}

void harness()
{
    Rng g(seed);
    for (long it = 0; it < scale(2500, 40000); ++it) {
        Rec r;
        bool types = g.flip();
        int nmax = g.integer(2, 7);
        History h;
        Stru s = randstru(g, g.flip(.7) ? 0 : g.integer(1, 2), 0, nmax);
        int steps = g.integer(1, 12);
        if (!begin(Fmt() << (types ? "type" : "index") << " masks, " << steps << " steps, " << s.desc)) return;
        if (g.flip()) r.setStructure(s.p);
        for (int k = 0; k < steps; ++k) {
            int what = g.integer(0, 9);
            if (what == 0) {    // a structure of another size
                s = randstru(g, g.flip(.7) ? 0 : g.integer(1, 2), 0, nmax);
                if (g.flip()) r.setStructure(s.p); else r.eval(s.p);
                checkmasks("after-structure", r, h, types, &s);
            }
            else if (what == 1) { checkeval(g, r, h, types, s); checkmasks("after-eval", r, h, types, &s); }
            else if (what == 2 && g.flip(.4)) {   // mask everything and perhaps change the mode
                bool m = g.flip();
                if (g.flip()) r.maskAllPairs(m); else if (types) r.setTypeMask("all", g.flip() ? "all" : "ALL", m); else r.setPairMask(-1, -1, m);
                h.clear();
                types = g.flip();
                Call c = {-1, -1, "all", "all", m, 0};
                h.push_back(c);
                checkmasks("after-mask-all", r, h, types, 0);
            }
            else {
                Call c = randcall(g, types, nmax);
                h.push_back(c);
                if (c.kind == 1) r.invertMask();
                else if (types) r.setTypeMask(c.a, c.b, c.mask);
                else r.setPairMask(c.i, c.j, c.mask);
                checkmasks("after-call", r, h, types, 0);
            }
        }
        checkeval(g, r, h, types, s);
        checkmasks("at-end", r, h, types, &s);
        if (it % 3 == 0) checkcalc(g, h, types, s);
    }
}
