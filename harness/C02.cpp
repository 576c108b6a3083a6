#include "pq.hpp"
#include <functional>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
const char* const vh_rule() { return "random clusters, periodic cells and crystals (0..40 sites, so that the work is split over anchors or over bonds); every calculator class; 1..7 CPUs; partial values merged in random order; fast updates through a sequence of edited structures on every CPU, with and without masks; oracle: one serial evaluation from scratch, and the set of bonds seen by the CPUs"; }
using namespace vh;

class Rec : public PairQuantity
{
    public:
        std::map<std::vector<double>, int> seen;
        Rec() { this->resizeValue(1); }
        void full(bool f) { mevaluator->setFlag(USEFULLSUM, f); }
        // exact counting is for the complete evaluation only
    protected:
        virtual void resetValue() { seen.clear(); this->PairQuantity::resetValue(); }
        virtual void addPairContribution(const BaseBondGenerator& b, int sc)
        {
            const R3::Vector& r = b.r01();
            std::vector<double> k = {double(b.site0()), double(b.site1()), r[0], r[1], r[2], double(b.multiplicity())};
            seen[k] += sc; mvalue[0] += sc * b.distance();
        }
};

typedef boost::shared_ptr<PairQuantity> PQp;
struct Kind { const char* name; bool ordered; bool fast; };
static const Kind KINDS[] = {{"PDFCalculator", true, true}, {"DebyePDFCalculator", true, true}, {"BondCalculator", true, true}, {"BVSCalculator", true, false},
    {"OverlapCalculator", false, false}, {"PairCounter", true, false}};
static PQp make(int k, unsigned long long cfg)
{
    Rng g(cfg);
    double rmax = g.uni(2.0, 4.5), rmin = g.flip() ? 0.0 : g.uni(0.1, 1.2);
    PQp p;
    if (k == 0) {
        auto* q = new PDFCalculator; p.reset(q);
        q->setRstep(0.05); q->setRmax(rmax); q->setRmin(rmin);
        if (g.flip()) q->setQmax(g.uni(10, 20)); if (g.flip()) q->setQmin(0.7);
        return p;
    }
    if (k == 1) { auto* q = new DebyePDFCalculator; p.reset(q); q->setQmax(12); q->setRmax(rmax); q->setRmin(rmin); q->setMaxExtension(g.uni(0, 1)); if (g.flip()) q->setQmin(1.0); if (g.flip()) q->setDebyePrecision(0.01); return p; }
    if (k == 2) { auto* q = new BondCalculator; p.reset(q); if (g.flip(.3)) q->filterCone(R3::Vector(g.uni(-1, 1), 1, g.uni(-1, 1)), g.uni(10, 170)); }
    if (k == 3) p.reset(new BVSCalculator);
    if (k == 4) { auto* q = new OverlapCalculator; p.reset(q); auto t = boost::make_shared<ConstantRadiiTable>(); t->setDefault(g.uni(.4, 1.6)); q->setAtomRadiiTable(t); }
    if (k == 5) p.reset(new PairCounter);
    p->setRmax(rmax);
    p->setRmin(rmin);
    return p;
}
static std::string chunks(const QuantityType& v, std::vector<std::vector<double> >& out)
{
    out.clear();
    for (size_t i = 0; i + 6 <= v.size(); i += 6) out.push_back(std::vector<double>(v.begin() + i, v.begin() + i + 6));
    std::sort(out.begin(), out.end());
    return "";
}
static void maskit(PairQuantity& p, int how)
{
    if (how == 1) { p.setPairMask(0, 1, false); p.setPairMask(2, -1, false); }
    if (how == 2) { p.setTypeMask("C", "all", false); p.setTypeMask("C", "C", true); }
}
static bool same(int k, const PQp& s, const PQp& m, std::string& why, double tol = 1e-9)
{
    // contributions beyond the extended grid are cut off in a fast update
    bool cut = k == 0 && tol > 1e-7;
    QuantityType a = cut ? static_cast<PDFCalculator&>(*s).getRDF() : s->value(), b = cut ? static_cast<PDFCalculator&>(*m).getRDF() : m->value();
    if (a.size() != b.size()) { why = Fmt() << "sizes serial " << (int)a.size() << " merged " << (int)b.size(); return false; }
    if (!KINDS[k].ordered) {
        std::vector<std::vector<double> > x, y;
        chunks(a, x); chunks(b, y);
        if (x != y) { why = "different sets of pairs"; return false; }
        return true;
    }
    double mx = 1;
    for (double v : a) if (v == v) mx = std::max(mx, std::fabs(v));
    for (size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], tol) && !(std::fabs(a[i] - b[i]) < tol * mx)) { why = Fmt() << "value[" << (int)i << "] serial " << a[i] << " merged " << b[i]; return false; }
    if (k == 2) {
        auto &x = static_cast<BondCalculator&>(*s), &y = static_cast<BondCalculator&>(*m);
        if (x.sites0() != y.sites0() || x.sites1() != y.sites1() || x.types0() != y.types0()) { why = "bond sites differ"; return false; }
        auto dx = x.directions(), dy = y.directions();
        for (size_t i = 0; i < dx.size(); ++i) if (R3::distance(dx[i], dy[i]) > 1e-9) { why = "bond directions differ"; return false; }
    }
    return true;
}
static void merge(Rng& g, const std::vector<PQp>& cpu, const PQp& master, int ncpu)
{
    std::vector<int> order;
    for (int i = 0; i < ncpu; ++i) order.push_back(i);
    for (int i = ncpu - 1; i > 0; --i) std::swap(order[i], order[g.integer(0, i)]);
    for (int i : order) master->mergeParallelData(cpu[i]->getParallelData(), ncpu);
}
static bool throws(std::function<void()> f) { try { f(); } catch (std::exception&) { return true; } return false; }

void harness()
{
    Rng g(seed);
    // every bond is seen by exactly one CPU
    long N = scale(60, 600);
    for (long it = 0; it < N; ++it) {
        bool many = g.flip(.3);
        Stru s = randstru(g, g.integer(0, 2), many ? 20 : 0, many ? 45 : 9);
        int ncpu = g.integer(1, 7);
        bool full = g.flip();
        int how = s.p->countSites() > 3 ? g.integer(0, 2) : 0;
        double rmax = g.uni(1.5, 4);
        if (!begin(Fmt() << s.desc << " ncpu " << ncpu << " full " << full << " mask " << how << " rmax " << rmax, s.p->countSites() > 1)) return;
        Rec ser; ser.full(full); ser.setRmax(rmax); maskit(ser, how); ser.eval(s.p);
        std::map<std::vector<double>, int> sum;
        Rec m; m.full(full); m.setRmax(rmax); maskit(m, how); m.setStructure(s.p);
        std::vector<std::string> data;
        int got = 0;
        for (int i = 0; i < ncpu; ++i) {
            Rec c; c.full(full); c.setRmax(rmax); maskit(c, how);
            c.setupParallelRun(i, ncpu);
            c.eval(s.p);
            for (auto& x : c.seen) { VCHECK("one-cpu", sum.count(x.first) == 0, "bond of sites " << x.first[0] << "," << x.first[1] << " at distance counted by two CPUs, the second is " << i); sum[x.first] += x.second; }
            data.push_back(c.getParallelData());
            got += c.seen.size();
        }
        VCHECK("all-bonds", sum == ser.seen, "serial " << (int)ser.seen.size() << " bonds, CPUs together " << (int)sum.size());
        for (int i = 0; i < ncpu; ++i) m.mergeParallelData(data[(i * 5 + it) % ncpu == i ? i : i], ncpu);
        VNEAR("merged-sum", m.value()[0], ser.value()[0], 1e-9);
        VCHECK("too-many", throws([&] { m.mergeParallelData(data[0], ncpu); }), "merging more than ncpu parts is accepted");
        VNEAR("too-many-kept", m.value()[0], ser.value()[0], 1e-9);
    }
    // arguments
    if (!begin("arguments")) return;
    {
        PairCounter p;
        for (int n : {0, -1, -7}) VCHECK("ncpu-invalid", throws([&] { p.setupParallelRun(0, n); }), "ncpu " << n << " accepted");
        Stru s = randstru(g, 0, 5, 8);
        DebyePDFCalculator a, b;
        a.setQmax(10); b.setQmax(14);
        a.eval(s.p); b.setStructure(s.p);
        QuantityType before = b.value();
        VCHECK("size-mismatch", throws([&] { b.mergeParallelData(a.getParallelData(), 2); }), "partial value of another size is accepted");
        VCHECK("size-mismatch-kept", b.value() == before, "value changed by a rejected merge");
        // a rejected part does not count as merged
        DebyePDFCalculator ser, c0, c1;
        for (auto* p : {&ser, &c0, &c1}) p->setQmax(14);
        ser.eval(s.p); c0.setupParallelRun(0, 2); c1.setupParallelRun(1, 2); c0.eval(s.p); c1.eval(s.p);
        bool ok = true;
        try { b.mergeParallelData(c0.getParallelData(), 2); b.mergeParallelData(c1.getParallelData(), 2); } catch (std::exception&) { ok = false; }
        VCHECK("after-rejected", ok, "parts refused after a rejected one");
        if (ok) for (size_t i = 0; i < ser.value().size(); ++i) VNEAR("after-rejected-value", b.value()[i], ser.value()[i], 1e-9);
    }
    // the calculators, through sequences of structures
    N = scale(90, 900);
    for (long it = 0; it < N; ++it) {
        int k = it % 6;
        int ncpu = g.integer(1, 5);
        bool big = g.flip(.3);
        Stru s = randstru(g, g.integer(0, 2), big ? 12 : 0, big ? 35 : 8);
        if (k == 1) s = randstru(g, 0, 0, 12);
        unsigned long long cfg = g.next();
        bool opt = KINDS[k].fast && g.flip(.6);
        int how = g.flip(.5) ? 0 : g.integer(1, 2);
        PQEvaluatorType ev = opt ? OPTIMIZED : BASIC;
        std::vector<PQp> cpu;
        for (int i = 0; i < ncpu; ++i) {
            PQp p = make(k, cfg);
            p->setEvaluatorType(ev); maskit(*p, how); p->setupParallelRun(i, ncpu);
            cpu.push_back(p);
        }
        PQp master = make(k, cfg);
        master->setEvaluatorType(BASIC); maskit(*master, how);
        int steps = g.integer(1, 4);
        for (int st = 0; st < steps; ++st) {
            if (st) { if (big || s.p->countSites() > 6) s = edited(g, s); else { s = edited(g, s); } }
            if (st && g.flip(.2)) {
                // another split of the work from here on
                int n1 = g.integer(1, 5);
                while ((int)cpu.size() < n1) { PQp p = make(k, cfg); p->setEvaluatorType(ev); maskit(*p, how); cpu.push_back(p); }
                ncpu = n1;
                cpu.resize(n1);
                for (int i = 0; i < ncpu; ++i) cpu[i]->setupParallelRun(i, ncpu);
            }
            if (!begin(Fmt() << KINDS[k].name << " " << s.desc << " cfg " << (long)(cfg % 100000) << " ncpu " << ncpu << " opt " << opt << " mask " << how << " step " << st, s.p->countSites() > 1)) return;
            PQp ser = make(k, cfg);
            ser->setEvaluatorType(BASIC); maskit(*ser, how);
            ser->eval(s.p);
            for (int i = 0; i < ncpu; ++i) cpu[i]->eval(s.p);
            master->setStructure(s.p);
            merge(g, cpu, master, ncpu);
            std::string why;
            VCHECK(Fmt() << "merged-" << KINDS[k].name << (opt ? "-fast" : ""), same(k, ser, master, why, opt ? 2e-6 : 1e-9), why);
        }
    }
}
