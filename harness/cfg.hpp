// calculator settings kept aside, so that a fresh calculator with the same settings can be made at any time
#ifndef VERIF_CFG_HPP
#define VERIF_CFG_HPP
#include "pq.hpp"
#include <functional>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
namespace vh {
typedef boost::shared_ptr<PairQuantity> PQp;
enum { KPDF, KDEBYE, KBOND, KBVS, KOVERLAP, KCOUNT, NKINDS };
static const char* const KNAMES[] = {"PDFCalculator", "DebyePDFCalculator", "BondCalculator", "BVSCalculator", "OverlapCalculator", "PairCounter"};

struct Cfg {
    int kind;
    std::map<std::string, double> v;        // plain numbers: rmin rmax rstep qmax qmin maxextension debyeprecision valenceprecision peakprecision
    std::string pwm; std::map<std::string, double> pw;
    std::string profile, baseline, radiation;
    std::map<std::string, std::pair<std::string, double> > custom;   // scattering factors
    std::map<std::string, std::map<std::string, double> > env;
    std::map<std::string, double> radii; double defradius;
    std::vector<std::pair<int, std::pair<std::string, std::string> > > bvcustom;
    std::vector<std::pair<P3, double> > cones;
    std::vector<std::function<void(PairQuantity&)> > masks;
    std::string maskdesc;
};

inline PDFCalculator& pdf(const PQp& p) { return static_cast<PDFCalculator&>(*p); }
inline DebyePDFCalculator& deb(const PQp& p) { return static_cast<DebyePDFCalculator&>(*p); }
inline BondCalculator& bond(const PQp& p) { return static_cast<BondCalculator&>(*p); }
inline BVSCalculator& bvs(const PQp& p) { return static_cast<BVSCalculator&>(*p); }
inline OverlapCalculator& ovl(const PQp& p) { return static_cast<OverlapCalculator&>(*p); }

inline PeakWidthModelOwner& pwo(const PQp& p, int k) { return k == KPDF ? static_cast<PeakWidthModelOwner&>(pdf(p)) : static_cast<PeakWidthModelOwner&>(deb(p)); }
inline ScatteringFactorTableOwner& sfo(const PQp& p, int k) { return k == KPDF ? static_cast<ScatteringFactorTableOwner&>(pdf(p)) : static_cast<ScatteringFactorTableOwner&>(deb(p)); }
inline PDFEnvelopeOwner& evo(const PQp& p, int k) { return k == KPDF ? static_cast<PDFEnvelopeOwner&>(pdf(p)) : static_cast<PDFEnvelopeOwner&>(deb(p)); }

inline PeakWidthModelPtr mkpwm(const std::string& t, const std::map<std::string, double>& pw)
{
    PeakWidthModelPtr m = PeakWidthModel::createByType(t);
    for (auto& x : pw) m->setDoubleAttr(x.first, x.second);
    return m;
}

// default settings for a kind of calculator
inline Cfg cfgdefault(Rng& g, int k)
{
    Cfg c; c.kind = k; c.defradius = 1.0;
    c.v["rmax"] = k == KDEBYE ? 5.0 : k == KPDF ? 4.0 : 3.0; c.v["rmin"] = 0.0;
    if (k == KPDF || k == KDEBYE) {
        c.v["rstep"] = 0.05; c.v["maxextension"] = 0.5;
        c.v["qmin"] = 0; c.v["qmax"] = 12.0;
        c.radiation = "xray";
        c.env["scale"]["scale"] = 1.0; c.env["qresolution"]["qdamp"] = 0.0;
    }
    if (k == KPDF) { c.pwm = "jeong"; c.pw["delta1"] = c.pw["delta2"] = c.pw["qbroad"] = 0; c.profile = "gaussian"; c.baseline = "linear"; c.v["peakprecision"] = 1e-6; }
    if (k == KDEBYE) { c.pwm = "debye-waller"; c.v["debyeprecision"] = 1e-6; }
    if (k == KBVS) c.v["valenceprecision"] = 1e-5;
    return c;
}

inline void setv(PairQuantity& p, int k, const std::string& n, double x, bool attr)
{
    if (attr || n == "peakprecision") { p.setDoubleAttr(n, x); return; }
    if (k == KPDF) {
        PDFCalculator& q = static_cast<PDFCalculator&>(p);
        if (n == "rstep") { q.setRstep(x); return; } if (n == "qmax") { q.setQmax(x); return; } if (n == "qmin") { q.setQmin(x); return; }
        if (n == "maxextension") { q.setMaxExtension(x); return; }
    }
    if (k == KDEBYE) {
        DebyePDFCalculator& q = static_cast<DebyePDFCalculator&>(p);
        if (n == "rstep") { q.setRstep(x); return; } if (n == "qmax") { q.setQmax(x); return; } if (n == "qmin") { q.setQmin(x); return; }
        if (n == "maxextension") { q.setMaxExtension(x); return; } if (n == "debyeprecision") { q.setDebyePrecision(x); return; }
    }
    if (k == KBVS && n == "valenceprecision") { static_cast<BVSCalculator&>(p).setValencePrecision(x); return; }
    if (n == "rmin") { p.setRmin(x); return; }
    if (n == "rmax") { p.setRmax(x); return; }
    p.setDoubleAttr(n, x);
}

inline PQp fresh(const Cfg& c)
{
    PQp p;
    int k = c.kind;
    if (k == KPDF) p.reset(new PDFCalculator);
    if (k == KDEBYE) p.reset(new DebyePDFCalculator);
    if (k == KBOND) p.reset(new BondCalculator);
    if (k == KBVS) p.reset(new BVSCalculator);
    if (k == KOVERLAP) { p.reset(new OverlapCalculator); auto t = boost::make_shared<ConstantRadiiTable>(); t->setDefault(c.defradius); for (auto& r : c.radii) t->setCustom(r.first, r.second); ovl(p).setAtomRadiiTable(t); }
    if (k == KCOUNT) p.reset(new PairCounter);
    if (k == KPDF || k == KDEBYE) {
        pwo(p, k).setPeakWidthModel(mkpwm(c.pwm, c.pw));
        sfo(p, k).setScatteringFactorTableByType(c.radiation);
        for (auto& x : c.custom) {
            ScatteringFactorTable& t = *sfo(p, k).getScatteringFactorTable();
            if (x.second.second == 0) t.setCustomAs(x.first, x.second.first); else t.setCustomAs(x.first, x.second.first, x.second.second, 0.0);
        }
        evo(p, k).clearEnvelopes();
        for (auto& e : c.env) { PDFEnvelopePtr ev = PDFEnvelope::createByType(e.first); for (auto& x : e.second) ev->setDoubleAttr(x.first, x.second); evo(p, k).addEnvelope(ev); }
    }
    if (k == KPDF) { pdf(p).setPeakProfileByType(c.profile); pdf(p).setBaselineByType(c.baseline); }
    for (auto& x : c.v) setv(*p, k, x.first, x.second, false);
    if (k == KBOND) for (auto& x : c.cones) bond(p).filterCone(R3::Vector(x.first[0], x.first[1], x.first[2]), x.second);
    for (auto& m : c.masks) m(*p);
    return p;
}

// change one setting of the live calculator and of the settings kept aside; the way of doing so is random.
// expect: whether the value computed by the pair summation is affected (the change counter has to move)
inline std::string mutate(Rng& g, const PQp& p, Cfg& c, bool& effective, int nsites, bool withmasks = true)
{
    int k = c.kind;
    bool sums = k == KPDF || k == KDEBYE;
    effective = false;
    for (int guard = 0; guard < 50; ++guard) {
        int what = g.integer(0, 13);
        if (what <= 3) {
            std::vector<std::string> names;
            for (auto& x : c.v) names.push_back(x.first);
            std::string n = g.pick(names);
            double x = 0;
            // the range of Debye calculators shrinks only in steps of at least 50 points; stay clear of that
            if (n == "rmax") x = k == KDEBYE ? 2.0 + 3 * g.integer(0, 2) : g.flip(.2) ? c.v[n] : g.flip(.1) ? c.v["rmin"] : g.uni(1.5, 5.5);
            else if (n == "rmin") x = g.flip(.4) ? 0.0 : g.uni(0, std::min(1.4, c.v["rmax"]));
            else if (n == "rstep") x = k == KDEBYE ? c.v[n] : g.flip() ? 0.05 : g.flip() ? 0.1 : 0.0625;
            else if (n == "qmax") x = (k == KPDF && g.flip(.2)) ? 0.0 : g.flip(.3) ? g.uni(20, 90) : g.uni(6, 20);
            else if (n == "qmin") x = g.flip() ? 0.0 : g.uni(0, 2);
            else if (n == "maxextension") x = k == KDEBYE ? c.v[n] : g.flip(.2) ? 0.0 : g.flip() ? g.uni(0, 3) : 20;
            else if (n == "debyeprecision") x = g.flip() ? 1e-6 : g.uni(0, 1e-2);
            else if (n == "valenceprecision") x = std::pow(10, -g.uni(1, 6));
            else if (n == "peakprecision") x = std::pow(10, -g.uni(5, 7));
            bool attr = g.flip() && (n != "debyeprecision" || true);
            bool summed = n != "qmin" && !(k == KDEBYE && n == "rstep") && !(k == KPDF && n == "qmax");
            effective = summed && c.v[n] != x;
            setv(*p, k, n, x, attr);
            c.v[n] = x;
            return Fmt() << n << "=" << x;
        }
        if (what == 4 && sums) {        // a parameter of the current width model, changed in place
            if (c.pw.empty()) continue;
            std::vector<std::string> names;
            for (auto& x : c.pw) names.push_back(x.first);
            std::string n = g.pick(names);
            double x = g.flip(.3) ? 0.0 : (c.pwm == "constant") ? g.uni(.05, .4) : n == "qbroad" ? g.uni(0, .02) : g.uni(0, .5);
            effective = c.pw[n] != x;
            if (g.flip()) pwo(p, k).getPeakWidthModel()->setDoubleAttr(n, x); else p->setDoubleAttr(n, x);
            c.pw[n] = x;
            return Fmt() << c.pwm << "." << n << "=" << x;
        }
        if (what == 5 && sums) {        // another width model
            int m = g.integer(0, 2);
            c.pw.clear();
            if (m == 0) { c.pwm = "constant"; c.pw["width"] = g.uni(.05, .4); }
            else if (m == 1) { c.pwm = "debye-waller"; }
            else { c.pwm = "jeong"; c.pw["delta1"] = g.uni(0, .3); c.pw["delta2"] = g.uni(0, .3); c.pw["qbroad"] = g.flip() ? 0 : g.uni(0, .02); }
            effective = true;
            if (g.flip()) pwo(p, k).setPeakWidthModel(mkpwm(c.pwm, c.pw));
            else { pwo(p, k).setPeakWidthModelByType(c.pwm); for (auto& x : c.pw) pwo(p, k).getPeakWidthModel()->setDoubleAttr(x.first, x.second); }
            return "width model " + c.pwm;
        }
        if (what == 6 && sums) {        // scattering factors
            const char* rad[] = {"xray", "neutron", "electronnumber"};
            ScatteringFactorTablePtr t = sfo(p, k).getScatteringFactorTable();
            int m = g.integer(0, 4);
            if (m == 0) {
                std::string r = rad[g.integer(0, 2)];
                c.radiation = r; c.custom.clear(); effective = true;
                if (g.flip()) sfo(p, k).setScatteringFactorTableByType(r); else sfo(p, k).setScatteringFactorTable(ScatteringFactorTable::createByType(r));
                return "radiation " + r;
            }
            std::string a = TYPES[g.integer(0, 3)], b = c.radiation == "neutron" ? "Si" : TYPES[g.integer(0, 3)];
            if (m == 1) { auto e = std::make_pair(b, 0.0); effective = !c.custom.count(a) || c.custom[a] != e; c.custom[a] = e; t->setCustomAs(a, b); return "custom " + a + " as " + b; }
            if (m == 2) {
                if (c.radiation == "electron") continue;
                auto e = std::make_pair(b, g.uni(.5, 9)); effective = true; c.custom[a] = e; t->setCustomAs(a, b, e.second, 0.0); return Fmt() << "custom " << a << " as " << b << " scaled to " << e.second;
            }
            if (m == 3) { effective = c.custom.count(a); c.custom.erase(a); t->resetCustom(a); return "reset custom " + a; }
            effective = !c.custom.empty(); c.custom.clear(); t->resetAll(); return "reset all customs";
        }
        if (what == 7 && sums) {        // envelopes, applied to the result
            if (g.flip() && c.env.size()) {
                auto e = c.env.begin(); std::advance(e, g.integer(0, c.env.size() - 1));
                if (e->second.empty()) continue;
                auto x = e->second.begin(); std::advance(x, g.integer(0, e->second.size() - 1));
                x->second = e->first == "scale" ? g.uni(.3, 3) : e->first == "qresolution" ? g.uni(0, .2) : g.uni(2, 9);
                p->setDoubleAttr(x->first, x->second);
                return "envelope " + x->first;
            }
            const char* en[] = {"scale", "qresolution", "sphericalshape", "stepcut"};
            const char* an[] = {"scale", "qdamp", "spdiameter", "stepcut"};
            int m = g.integer(0, 3);
            if (g.flip(.3)) { c.env.erase(en[m]); evo(p, k).popEnvelopeByType(en[m]); return std::string("pop envelope ") + en[m]; }
            double x = m == 0 ? g.uni(.3, 3) : m == 1 ? g.uni(0, .2) : g.uni(2, 9);
            c.env[en[m]].clear(); c.env[en[m]][an[m]] = x;
            PDFEnvelopePtr ev = PDFEnvelope::createByType(en[m]); ev->setDoubleAttr(an[m], x);
            evo(p, k).addEnvelope(ev);
            return std::string("add envelope ") + en[m];
        }
        if (what == 8 && k == KPDF) {
            if (g.flip()) { c.baseline = g.flip() ? "zero" : "linear"; pdf(p).setBaselineByType(c.baseline); return "baseline " + c.baseline; }
            std::string np = g.flip() ? "gaussian" : "croppedgaussian";
            if (np == c.profile) continue;
            c.profile = np;
            effective = true;
            if (g.flip()) pdf(p).setPeakProfileByType(np);
            else { PeakProfilePtr q = PeakProfile::createByType(np); q->setPrecision(c.v["peakprecision"]); pdf(p).setPeakProfile(q); }
            return "profile " + c.profile;
        }
        if (what == 9 && k == KBOND) {
            if (g.flip(.3)) { effective = !c.cones.empty(); c.cones.clear(); bond(p).filterOff(); return "filter off"; }
            P3 ax = p3(g.uni(-1, 1), g.uni(-1, 1), 1); double d = g.uni(20, 150);
            c.cones.push_back(std::make_pair(ax, d)); bond(p).filterCone(R3::Vector(ax[0], ax[1], ax[2]), d); effective = true;
            return Fmt() << "cone " << ax << " " << d;
        }
        if (what == 10 && k == KOVERLAP) {
            int m = g.integer(0, 2);
            std::string a = TYPES[g.integer(0, 3)];
            double x = g.uni(.3, 1.7);
            AtomRadiiTablePtr t = ovl(p).getAtomRadiiTable();
            effective = true;
            if (m == 0) { c.radii[a] = x; t->setCustom(a, x); return Fmt() << "radius " << a << " " << x; }
            if (m == 1) { c.radii.erase(a); t->resetCustom(a); return "reset radius " + a; }
            c.defradius = x; boost::static_pointer_cast<ConstantRadiiTable>(t)->setDefault(x); return Fmt() << "default radius " << x;
        }
        if (what >= 11 && withmasks) {
            std::function<void(PairQuantity&)> f;
            std::string d;
            int m = g.integer(0, 4);
            bool on = g.flip();
            bool typed = c.maskdesc.find('T') != std::string::npos, indexed = c.maskdesc.find('P') != std::string::npos;
            if (m == 0) { f = [on](PairQuantity& q) { q.maskAllPairs(on); }; d = Fmt() << "A" << on; c.masks.clear(); c.maskdesc = ""; }
            else if (m == 1) { f = [](PairQuantity& q) { q.invertMask(); }; d = "I"; }
            else if (m == 2 && !typed && nsites > 0) {
                int i = g.integer(0, nsites), j = g.integer(-1, nsites - 1);
                f = [i, j, on](PairQuantity& q) { q.setPairMask(i, j, on); }; d = Fmt() << "P(" << i << "," << j << "," << on << ")";
            }
            else if (m >= 3 && !indexed) {
                std::string a = TYPES[g.integer(0, 3)], b = g.flip(.3) ? "all" : TYPES[g.integer(0, 3)];
                f = [a, b, on](PairQuantity& q) { q.setTypeMask(a, b, on); }; d = "T(" + a + "," + b + (on ? ",1)" : ",0)");
            }
            else continue;
            f(*p);
            c.masks.push_back(f); c.maskdesc += d;
            return "mask " + d;
        }
    }
    return "nothing";
}

// all results a calculator reports
inline std::vector<std::pair<std::string, QuantityType> > results(const PQp& p, int k)
{
    std::vector<std::pair<std::string, QuantityType> > r;
    auto add = [&](const char* n, const QuantityType& v) { r.push_back(std::make_pair(std::string(n), v)); };
    if (k == KPDF) { add("RDF", pdf(p).getRDF()); add("PDF", pdf(p).getPDF()); add("extendedRDF", pdf(p).getExtendedRDF()); add("rgrid", pdf(p).getRgrid()); return r; }
    add("value", p->value());
    if (k == KDEBYE) { add("F", deb(p).getF()); add("PDF", deb(p).getPDF()); add("qgrid", deb(p).getQgrid()); }
    if (k == KBOND) {
        QuantityType a, b, d;
        for (int i : bond(p).sites0()) a.push_back(i); for (int i : bond(p).sites1()) b.push_back(i);
        for (auto& x : bond(p).directions()) for (int i = 0; i < 3; ++i) d.push_back(x[i]);
        add("sites0", a); add("sites1", b); add("directions", d); add("distances", bond(p).distances());
    }
    if (k == KOVERLAP) { add("overlaps", ovl(p).overlaps()); add("siteSquareOverlaps", ovl(p).siteSquareOverlaps()); add("coordinations", ovl(p).coordinations()); }
    return r;
}

inline bool sameresults(const PQp& a, const PQp& b, int k, std::string& why, double tol = 1e-8)
{
    auto x = results(a, k), y = results(b, k);
    for (size_t n = 0; n < x.size(); ++n) {
        const QuantityType &u = x[n].second, &v = y[n].second;
        if (u.size() != v.size()) { why = Fmt() << x[n].first << " has " << (int)u.size() << " values, from scratch " << (int)v.size(); return false; }
        double mx = 1e-2;
        for (double t : v) if (t == t) mx = std::max(mx, std::fabs(t));
        for (size_t i = 0; i < u.size(); ++i) if (!(std::fabs(u[i] - v[i]) <= tol * mx) && !(u[i] != u[i] && v[i] != v[i]))
            { why = Fmt() << x[n].first << "[" << (int)i << "] = " << u[i] << ", from scratch " << v[i]; return false; }
    }
    return true;
}
}   // namespace vh
#endif
