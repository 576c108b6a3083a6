#include "cfg.hpp"
#include <diffpy/EventTicker.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/serialization.hpp>
#include <cfloat>
const char* const vh_rule() { return "random accepted and rejected values for every validating setter of every calculator, direct and as named attribute, numbers at and around the limits; null components, unknown type names, invalid evaluator settings, degenerate lattices and directions; after each call the value that was set, or, for a rejection, all settings, components, the change counter and the next result as before"; }
using namespace vh;
using diffpy::eventticker::EventTicker;

// all the settings of a calculator that can be seen
static std::string look(const PQp& p, int k)
{
    std::ostringstream o;
    o.precision(17);
    std::set<std::string> n = p->namesOfDoubleAttributes();
    for (auto& x : n) if (k != KBVS || x != "rmaxused") o << x << "=" << p->getDoubleAttr(x) << " ";
    o << p->getRmin() << " " << p->getRmax() << " " << p->getEvaluatorType() << " tick " << p->ticker().value().first << " " << p->ticker().value().second << " ";
    if (k == KPDF || k == KDEBYE) {
        o << pwo(p, k).getPeakWidthModel().get() << " " << sfo(p, k).getScatteringFactorTable().get() << " ";
        for (auto& e : evo(p, k).usedEnvelopeTypes()) o << e << " " << evo(p, k).getEnvelopeByType(e).get() << " ";
    }
    if (k == KPDF) o << pdf(p).getPeakProfile().get() << " " << pdf(p).getBaseline().get() << " " << pdf(p).getRgrid().size() << " ";
    if (k == KDEBYE) o << deb(p).isOptimumQstep() << " " << deb(p).getRgrid().size() << " " << deb(p).getQgrid().size();
    if (k == KBVS) o << static_cast<BVSCalculator&>(*p).getBVParamTable().get();
    if (k == KOVERLAP) o << ovl(p).getAtomRadiiTable().get();
    for (double v : p->value()) o << " " << v;
    return o.str();
}

static double pick(Rng& g)
{
    static const double lim = sqrt(DBL_EPSILON);
    static const double E[] = {0.0, -0.0, -1e-300, 1e-300, -1e-12, 1e-12, -1, lim, lim * 1.0000001, lim * 0.9999999, -DBL_MIN, DBL_MIN, 1e-7, 5e-324, -5e-324};
    return g.flip(.5) ? E[g.integer(0, 14)] : g.flip(.4) ? -g.uni(0, 9) : g.uni(.01, 9);
}

void harness()
{
    Rng g(seed);
    const double lim = sqrt(DBL_EPSILON);
    for (long it = 0; it < scale(400, 4000); ++it) {
        int k = it % 5;
        if (k == KDEBYE && !g.flip(.4)) k = KPDF;
        Cfg c = cfgdefault(g, k);
        PQp p = fresh(c);
        Stru s = randstru(g, k == KDEBYE ? 0 : g.integer(0, 2), 2, 5);
        bool ev = g.flip(.6);
        if (ev) p->eval(s.p);
        std::string h;
        for (int st = 0; st < 8; ++st) {
            std::string before = look(p, k), what;
            bool threw = false, valid = true;
            bool checkback = false; double x = 0, back = 0;
            int w = g.integer(0, 13);
            const bool pd = k == KPDF || k == KDEBYE;
            try {
                if (w < 8) {
                    static const char* const NP[] = {"rmin", "rmax", "rstep", "maxextension", "qmin", "qmax"};
                    static const char* const ND[] = {"rmin", "rmax", "rstep", "maxextension", "qmin", "qmax", "qstep", "debyeprecision"};
                    std::string n = k == KPDF ? NP[g.integer(0, 5)] : k == KDEBYE ? ND[g.integer(0, 7)] : k == KBVS ? "valenceprecision" : "rmax";
                    x = pick(g);
                    if (n == "rstep" || n == "qstep" || n == "valenceprecision") valid = x > lim;
                    else if (n == "debyeprecision" || n == "rmax" && !pd) valid = true;
                    else valid = !(x < 0);
                    // keep the grids short
                    if (valid && (n == "rstep" || n == "qstep" || n == "rmax" || n == "maxextension" || n == "qmax")) {
                        if (n == "rstep") x = std::max(x, 0.02); if (n == "qstep") x = std::max(x, 0.02);
                        if (n == "qmax" && k == KDEBYE) x = std::max(x, 1.0);
                        if (n == "maxextension") x = std::min(x, 2.0);
                        if (n == "rmax" && !pd) x = fabs(x);
                    }
                    bool attr = g.flip();
                    what = Fmt() << n << (attr ? " attribute " : " ") << x;
                    h += what + "; ";
                    if (attr) p->setDoubleAttr(n, x); else if (n == "qstep") deb(p).setQstep(x); else setv(*p, k, n, x, false);
                    back = p->getDoubleAttr(n);
                    // limited by the step, zero stands for no limit
                    checkback = !(n == "qmax" && k == KPDF) && !(n == "qstep");
                    if (n == "qstep" && !deb(p).isOptimumQstep()) { checkback = true; back = deb(p).getQstep(); }
                }
                else if (w == 8) { what = "unknown attribute"; valid = false; h += what + "; "; p->setDoubleAttr("nosuch", 1.0); }
                else if (w == 9 && pd) {
                    int q = g.integer(0, 4);
                    what = Fmt() << "null component " << q; valid = false; h += what + "; ";
                    if (q == 0) pwo(p, k).setPeakWidthModel(PeakWidthModelPtr());
                    else if (q == 1) sfo(p, k).setScatteringFactorTable(ScatteringFactorTablePtr());
                    else if (q == 2) evo(p, k).addEnvelope(PDFEnvelopePtr());
                    else if (k == KDEBYE) throw std::invalid_argument("");
                    else if (q == 3) pdf(p).setPeakProfile(PeakProfilePtr());
                    else pdf(p).setBaseline(PDFBaselinePtr());
                }
                else if (w == 10 && pd) {
                    int q = g.integer(0, 5);
                    what = Fmt() << "unknown type " << q; valid = false; h += what + "; ";
                    if (q == 0) pwo(p, k).setPeakWidthModelByType("nosuch");
                    else if (q == 1) sfo(p, k).setScatteringFactorTableByType("");
                    else if (q == 2) evo(p, k).addEnvelopeByType("Scale");
                    else if (q == 3) evo(p, k).getEnvelopeByType("stepcut2");
                    else if (k == KDEBYE) throw std::invalid_argument("");
                    else if (q == 4) pdf(p).setPeakProfileByType("gauss");
                    else pdf(p).setBaselineByType("nosuch");
                }
                else if (w == 9 || w == 10) {
                    what = "null or unknown table"; valid = false; h += what + "; ";
                    if (k == KBVS) static_cast<BVSCalculator&>(*p).setBVParamTable(BVParametersTablePtr());
                    else if (k == KOVERLAP && w == 9) ovl(p).setAtomRadiiTable(AtomRadiiTablePtr());
                    else if (k == KOVERLAP) ovl(p).setAtomRadiiTableByType("nosuch");
                    else throw std::invalid_argument("");
                }
                else if (w == 11) { int e = g.integer(0, 6) * 3 + 90; what = "evaluator"; valid = false; h += what + "; "; p->setEvaluatorType(static_cast<PQEvaluatorType>(e)); }
                else if (w == 12) { int n = g.integer(-3, 0); what = Fmt() << "cpus " << n; valid = false; h += what + "; "; p->setupParallelRun(g.integer(0, 3), n); }
                else if (k == KBOND) { double z = g.flip() ? 0.0 : lim * g.uni(-.5, .5); what = Fmt() << "cone " << z; valid = false; h += what + "; "; static_cast<BondCalculator&>(*p).filterCone(R3::Vector(0, 0, z), 10); }
                else if (k == KBVS || k == KOVERLAP) { what = "unsupported evaluator"; valid = false; h += what + "; "; p->setEvaluatorType(g.flip() ? OPTIMIZED : CHECK); }
                else continue;
            }
            catch (std::invalid_argument&) { threw = true; }
            catch (diffpy::attributes::DoubleAttributeError&) { threw = true; }
            if (!begin(Fmt() << KNAMES[k] << (ev ? " evaluated " : " new ") << s.desc << " settings " << h, threw)) return;
            VCHECK(Fmt() << "accepts-valid-" << KNAMES[k], !(valid && threw), what << " was rejected");
            VCHECK(Fmt() << "rejects-invalid-" << KNAMES[k], valid || threw, what << " was accepted");
            if (!threw && checkback) VEQ(Fmt() << "stored-" << KNAMES[k], back, x);
            if (threw) { std::string after = look(p, k); VCHECK(Fmt() << "unchanged-" << KNAMES[k], after == before, what << " changed the calculator: " << after << " before " << before); }
            if (threw && ev && g.flip(.1)) {
                // results after the rejection
                PQp f; { std::ostringstream os(std::ios::binary); { diffpy::serialization::oarchive oa(os, std::ios::binary); const PairQuantity* q = p.get(); oa << q; }
                    std::istringstream is(os.str(), std::ios::binary); diffpy::serialization::iarchive ia(is, std::ios::binary); PairQuantity* q; ia >> q; f.reset(q); }
                f->setEvaluatorType(BASIC);
                p->eval(s.p); f->eval(s.p);
                std::string why;
                bool ok = sameresults(p, f, k, why, k == KPDF ? 2e-6 : 1e-8);
                VCHECK(Fmt() << "result-" << KNAMES[k], ok, why);
            }
        }
    }
    // a rejected cone does not show in the filters that follow
    for (long it = 0; it < scale(60, 600); ++it) {
        Stru s = randstru(g, g.integer(0, 2), 2, 6);
        BondCalculator b, f;
        b.setRmax(3); f.setRmax(3);
        std::string h;
        for (int st = 0; st < 4; ++st) {
            R3::Vector d(0, 0, 0);
            double a = g.uni(1, 120);
            bool good = g.flip();
            if (good) for (int i = 0; i < 3; ++i) d[i] = g.uni(.1, 1) * (g.flip() ? 1 : -1);
            h += Fmt() << "cone " << d[0] << "," << d[1] << "," << d[2] << " " << a << "; ";
            bool threw = false;
            try { b.filterCone(d, a); } catch (std::invalid_argument&) { threw = true; }
            if (good) f.filterCone(d, a);
            if (!begin(Fmt() << "filters " << s.desc << " " << h)) return;
            VEQ("cone-rejected", threw, !good);
        }
        b.eval(s.p); f.eval(s.p);
        VCHECK("cone-rejected-effect", b.distances() == f.distances(), "bonds " << b.distances().size() << " and " << f.distances().size());
    }
    // structures and lattices
    for (long it = 0; it < scale(300, 3000); ++it) {
        CrystalStructureAdapter cs;
        double e0 = g.uni(1e-5, .1), x = pick(g);
        cs.setSymmetryPrecision(e0);
        bool threw = false;
        if (!begin(Fmt() << "symmetry precision " << x)) return;
        try { cs.setSymmetryPrecision(x); } catch (std::invalid_argument&) { threw = true; }
        VEQ("precision-rejected", threw, !(x > lim));
        VEQ("precision", cs.getSymmetryPrecision(), threw ? e0 : x);
        Lattice L(g.uni(1, 9), g.uni(1, 9), g.uni(1, 9), g.uni(70, 110), g.uni(70, 110), g.uni(70, 110));
        R3::Matrix b0 = L.base(), r0 = L.recbase();
        R3::Vector v[3];
        for (auto& z : v) for (int i = 0; i < 3; ++i) z[i] = g.integer(-3, 3);
        int m = g.integer(0, 2);
        if (m == 0) v[2] = v[0] + v[1];
        if (m == 1) v[1] = v[0];
        double det = R3::dot(v[0], R3::cross(v[1], v[2]));
        threw = false;
        if (!begin(Fmt() << "base vectors " << v[0][0] << "," << v[0][1] << "," << v[0][2] << " " << v[1][0] << "," << v[1][1] << "," << v[1][2] << " " << v[2][0] << "," << v[2][1] << "," << v[2][2] << " determinant " << det)) return;
        try { L.setLatBase(v[0], v[1], v[2]); } catch (std::invalid_argument&) { threw = true; }
        VEQ("base-rejected", threw, det <= 0);
        if (threw) { VCHECK("lattice-unchanged", L.base() == b0 && L.recbase() == r0, "the lattice changed"); }
        else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VEQ("base", L.base()(i, j), v[i][j]);
    }
}
