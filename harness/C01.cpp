#include "cfg.hpp"
const char* const vh_rule() { return "random histories of evaluations, structure edits (in place and as new objects, incl. symmetry and lattice changes), settings, component parameters, masks, explicit structure settings, evaluator changes and failing evaluations for every calculator class; after each evaluation the results are compared with a fresh calculator with the plain evaluator"; }
using namespace vh;

// a structure that configures the calculator
class Configuring : public AtomicStructureAdapter
{
    public:
        double rmax;
        virtual StructureAdapterPtr clone() const { return StructureAdapterPtr(new Configuring(*this)); }
        virtual void customPQConfig(PairQuantity* pq) const { pq->setRmax(rmax); }
};

static void editinplace(Rng& g, Stru& s)
{
    int n = s.ap->countSites();
    int what = g.integer(0, 8);
    if (what == 6) { PeriodicStructureAdapter* p = dynamic_cast<PeriodicStructureAdapter*>(s.p.get()); if (p) { const Lattice& L = p->getLattice(); p->setLatPar(L.a() * g.uni(.95, 1.05), L.b(), L.c(), L.alpha(), L.beta(), L.gamma()); s.desc += " lattice"; return; } }
    if (what == 7) { CrystalStructureAdapter* p = dynamic_cast<CrystalStructureAdapter*>(s.p.get()); if (p) { double R[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, t[3] = {.5, g.flip() ? .5 : 0., 0}; if (!p->countSymOps()) { double z[3] = {0, 0, 0}; addop(*p, R, z); } addop(*p, R, t); s.desc += " symop"; return; } }
    if (what == 8) { CrystalStructureAdapter* p = dynamic_cast<CrystalStructureAdapter*>(s.p.get()); if (p && p->countSymOps()) { p->clearSymOps(); s.desc += " clearsymops"; return; } }
    if (n == 0 || what == 0) { s.ap->append(randatoms(g, 1, 4)[0]); s.desc += " append"; return; }
    int i = g.integer(0, n - 1);
    if (what == 1) { s.ap->erase(i); s.desc += " erase"; }
    else if (what == 2) { (*s.ap)[i].occupancy = g.integer(1, 4) / 4.0; s.desc += " occ"; }
    else if (what == 3) { (*s.ap)[i].xyz_cartn[g.integer(0, 2)] += g.uni(-.4, .4); s.desc += " move"; }
    else if (what == 4) { (*s.ap)[i].atomtype = TYPES[g.integer(0, 3)]; s.desc += " type"; }
    else { double u = g.uni(0, .02); for (int q = 0; q < 3; ++q) (*s.ap)[i].uij_cartn(q, q) = u; if (g.flip()) { (*s.ap)[i].anisotropy = true; (*s.ap)[i].uij_cartn(0, 0) = g.uni(0, .02); } s.desc += " uij"; }
}

void harness()
{
    Rng g(seed);
    long N = scale(70, 700);
    for (long it = 0; it < N; ++it) {
        int k = it % 8; if (k >= NKINDS) k = k == 6 ? KPDF : KBOND;
        Cfg c = cfgdefault(g, k);
        PQp p = fresh(c);
        bool canfast = k == KPDF || k == KDEBYE || k == KBOND;
        if (canfast) p->setEvaluatorType(OPTIMIZED);
        int maxn = k == KDEBYE ? 6 : 8;
        Stru s = randstru(g, k == KDEBYE ? 0 : g.integer(0, 2), 0, maxn);
        std::string hist;
        bool eff;
        int steps = g.integer(3, 9);
        if (g.flip()) for (int i = g.integer(0, 3); i--;) hist += mutate(g, p, c, eff, s.p->countSites()) + "; ";
        for (int st = 0; st < steps; ++st) {
            int op = g.integer(0, 11);
            std::string d0 = s.desc;
            if (op <= 1) { s = edited(g, s); hist += "new structure; "; }
            else if (op <= 4) { editinplace(g, s); hist += "edit; "; }
            else if (op <= 6) hist += mutate(g, p, c, eff, s.p->countSites()) + "; ";
            else if (op == 7 && k != KDEBYE && g.flip(.6)) { s = recast(g, s); hist += "recast; "; }
            else if (op == 7) { s = randstru(g, k == KDEBYE ? 0 : g.integer(0, 2), 0, maxn); hist += "other structure; "; }
            else if (op == 8) { p->setStructure(s.p); hist += "setStructure; "; }
            else if (op == 9 && canfast) { PQEvaluatorType t[] = {BASIC, OPTIMIZED, CHECK}; p->setEvaluatorType(t[g.integer(0, 1)]); hist += "evaluator; "; }
            else if (op == 10) {
                Stru b = edited(g, s);
                b.ap->append(mkatom("Xx", p3(.3, .4, .5)));
                try { p->eval(b.p); } catch (std::exception&) { }
                hist += "failing eval; ";
            }
            else if (op == 11 && s.ap) {
                Configuring* q = new Configuring;
                q->assign(s.ap->begin(), s.ap->end());
                q->rmax = k == KDEBYE ? 2.0 + 3 * g.integer(0, 2) : g.uni(2, 5);
                s = Stru(); s.ap.reset(q); s.p = s.ap; s.desc = "configuring structure";
                hist += "configuring; ";
            }
            if (!begin(Fmt() << KNAMES[k] << " " << s.desc << " history " << hist, st > 0)) return;
            if (Configuring* q = dynamic_cast<Configuring*>(s.p.get())) c.v["rmax"] = q->rmax;
            p->eval(s.p);
            hist += "eval; ";
            PQp f = fresh(c);
            f->setEvaluatorType(BASIC);
            f->eval(s.p);
            std::string why;
            bool ok = sameresults(p, f, k, why, k == KPDF ? 2e-6 : 1e-8);
            VCHECK(Fmt() << "history-" << KNAMES[k], ok, why);
            if (!ok) break;
            VEQ("structure-kept", p->getStructure().get() == s.p.get(), true);
        }
    }
}
