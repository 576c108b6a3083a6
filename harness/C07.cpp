#include "cfg.hpp"
#include <diffpy/EventTicker.hpp>
const char* const vh_rule() { return "every kind of effective change (plain numbers, component models and their parameters, tables and custom entries, filters, masks, structures) through every way of making it (setter, named attribute, component object, by type), after evaluations: the change counter must be newer than a counter clicked just before, and the next evaluation must equal that of a fresh calculator; values set again to what they were"; }
using namespace vh;
using diffpy::eventticker::EventTicker;

void harness()
{
    Rng g(seed);
    long N = scale(160, 2000);
    for (long it = 0; it < N; ++it) {
        int k = it % 8; if (k >= NKINDS) k = k == 6 ? KPDF : KDEBYE;
        if (k == KCOUNT) k = KPDF;
        Cfg c = cfgdefault(g, k);
        PQp p = fresh(c);
        if (k == KPDF || k == KDEBYE || k == KBOND) p->setEvaluatorType(OPTIMIZED);
        Stru s = randstru(g, k == KDEBYE ? 0 : g.integer(0, 2), 2, k == KDEBYE ? 6 : 8);
        std::string hist;
        p->eval(s.p);
        for (int st = 0; st < 6; ++st) {
            bool eff = false;
            EventTicker before; before.click();
            std::string m = mutate(g, p, c, eff, s.p->countSites());
            hist += m + "; ";
            if (!begin(Fmt() << KNAMES[k] << " " << s.desc << " changes " << hist, eff)) return;
            if (eff && (k == KPDF || k == KDEBYE || k == KBOND)) VCHECK(Fmt() << "counter-" << KNAMES[k], p->ticker() > before, m);
            // masks: the counter moves when the mask of any pair or type does
            bool check = g.flip(.8);
            if (!check) continue;
            p->eval(s.p);
            PQp f = fresh(c);
            f->setEvaluatorType(BASIC);
            f->eval(s.p);
            std::string why;
            bool ok = sameresults(p, f, k, why, k == KPDF ? 2e-6 : 1e-8);
            VCHECK(Fmt() << "stale-" << KNAMES[k], ok, why);
            if (!ok) break;
        }
    }
    // masks: counter and observable masks
    for (long it = 0; it < scale(60, 600); ++it) {
        PDFCalculator p;
        Stru s = randstru(g, 0, 2, 7);
        p.setStructure(s.p);
        int n = s.p->countSites();
        auto get = [&]() { std::vector<bool> r; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back(p.getPairMask(i, j));
            for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) r.push_back(p.getTypeMask(TYPES[a], TYPES[b])); return r; };
        bool types = g.flip();
        std::string hist;
        for (int st = 0; st < 12; ++st) {
            auto m0 = get();
            EventTicker before; before.click();
            bool on = g.flip();
            int w = g.integer(0, 9);
            if (w == 0) { p.maskAllPairs(on); hist += Fmt() << "all " << on << "; "; if (g.flip()) types = !types; }
            else if (w == 1) { p.invertMask(); hist += "invert; "; }
            else if (types) { std::string a = TYPES[g.integer(0, 3)], b = g.flip(.3) ? "all" : TYPES[g.integer(0, 3)]; p.setTypeMask(a, b, on); hist += "type " + a + " " + b + (on ? " 1; " : " 0; "); }
            else { int i = g.integer(0, n - 1), j = g.integer(-1, n - 1); p.setPairMask(i, j, on); hist += Fmt() << "pair " << i << " " << j << " " << on << "; "; }
            if (!begin(Fmt() << "masks " << s.desc << " " << hist)) return;
            auto m1 = get();
            if (m0 != m1) VCHECK("counter-mask", p.ticker() > before, "a mask changed, the counter did not");
        }
    }
    // a table or model that is shared by two calculators; one changed before it is handed over
    for (long it = 0; it < scale(20, 200); ++it) {
        Stru s = randstru(g, 0, 2, 6);
        if (!begin(Fmt() << "shared components " << s.desc)) return;
        PDFCalculator a; DebyePDFCalculator b;
        a.setRmax(4); b.setRmax(4);
        a.setEvaluatorType(OPTIMIZED); b.setEvaluatorType(OPTIMIZED);
        ScatteringFactorTablePtr t = ScatteringFactorTable::createByType("xray");
        PeakWidthModelPtr w = PeakWidthModel::createByType("jeong");
        bool first = g.flip();
        if (first) { a.setScatteringFactorTable(t); b.setScatteringFactorTable(t); a.setPeakWidthModel(w); b.setPeakWidthModel(w); }
        a.eval(s.p); b.eval(s.p);
        t->setCustomAs("C", "O"); t->setCustomAs("O", "Cl", 3.5, 0.0); w->setDoubleAttr("delta2", g.uni(.1, .8));
        if (!first) { a.setScatteringFactorTable(t); b.setScatteringFactorTable(t); a.setPeakWidthModel(w); b.setPeakWidthModel(w); }
        a.eval(s.p); b.eval(s.p);
        PDFCalculator fa; DebyePDFCalculator fb;
        fa.setRmax(4); fb.setRmax(4);
        fa.setScatteringFactorTable(t); fb.setScatteringFactorTable(t); fa.setPeakWidthModel(w); fb.setPeakWidthModel(w);
        fa.eval(s.p); fb.eval(s.p);
        VEQ("shared-PDF", close(a.getPDF()[20], fa.getPDF()[20], 1e-6) && a.getPDF().size() == fa.getPDF().size(), true);
        VEQ("shared-Debye", close(b.getPDF()[20], fb.getPDF()[20], 1e-6), true);
    }
    (void) 0;
}
