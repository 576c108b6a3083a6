#include "pq.hpp"
#include <functional>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
const char* const vh_rule() { return "every attribute of every class against its own getter; random attribute sets in components of a composite object, read-only, duplicate and unknown names; random create / alias / deregister histories of all six registries against a model"; }
using namespace vh;
using diffpy::Attributes;
using diffpy::attributes::DoubleAttributeError;

// ---------------------------------------------------------------- composite of components with random attributes
static long nsets = 0;
struct Part : public Attributes {
    double x[6]; bool present[6];
    double g0() const { return x[0]; } void s0(double v) { x[0] = v; ++nsets; }
    const double& g1() const { return x[1]; } void s1(double v) { x[1] = v; ++nsets; }
    const double& g2() const { return x[2]; } void s2(const double& v) { x[2] = v; ++nsets; }
    double g3() const { return x[3]; }
    const double& g4() const { return x[4]; }
    static double g5(const Part* p) { return p->x[5]; }
    static void s5(Part* p, const double& v) { p->x[5] = v; ++nsets; }
    std::vector<Part*> parts;
    static std::string name(int i) { return std::string("attr") + char('a' + i); }
    explicit Part(int mask) {
        for (int i = 0; i < 6; ++i) { x[i] = 0; present[i] = mask >> i & 1; }
        if (mask & 1) this->registerDoubleAttribute(name(0), this, &Part::g0, &Part::s0);
        if (mask & 2) this->registerDoubleAttribute(name(1), this, &Part::g1, &Part::s1);
        if (mask & 4) this->registerDoubleAttribute(name(2), this, &Part::g2, &Part::s2);
        if (mask & 8) this->registerDoubleAttribute(name(3), this, &Part::g3);
        if (mask & 16) this->registerDoubleAttribute(name(4), this, &Part::g4);
        if (mask & 32) this->registerDoubleAttribute(name(5), this, &Part::g5, &Part::s5);
    }
    virtual void accept(diffpy::BaseAttributesVisitor& v) { for (auto p : parts) p->accept(v); this->Attributes::accept(v); }
    virtual void accept(diffpy::BaseAttributesVisitor& v) const { for (auto p : parts) static_cast<const Part*>(p)->accept(v); this->Attributes::accept(v); }
};

static void composite(Rng& g)
{
    for (int k = 0; k < scale(1500, 20000); ++k) {
        std::vector<Part> ps;
        ps.reserve(4);
        int n = g.integer(1, 4), used = 0;
        std::string desc;
        for (int i = 0; i < n; ++i) {
            int m = g.integer(0, 63);
            if (!g.flip(.3)) m &= ~used;
            used |= m; desc += Fmt() << " " << m;
            ps.push_back(Part(m));
        }
        for (int i = 1; i < n; ++i) ps[0].parts.push_back(&ps[i]);
        if (!begin("components with attributes" + desc)) return;
        Attributes& a = ps[0]; const Attributes& ca = a;
        std::set<std::string> all, wr;
        for (int i = 0; i < 6; ++i) for (auto& p : ps) if (p.present[i]) { all.insert(Part::name(i)); if (i != 3 && i != 4) wr.insert(Part::name(i)); }
        VCHECK("names", ca.namesOfDoubleAttributes() == all, "names differ");
        VCHECK("names-writable", ca.namesOfWritableDoubleAttributes() == wr, "writable names differ");
        for (int r = 0; r < 12; ++r) {
            int i = g.integer(0, 6);
            std::string nm = i == 6 ? (g.flip() ? "" : "attr") : Part::name(i);
            int cnt = 0; Part* owner = 0;
            if (i < 6) for (auto& p : ps) if (p.present[i]) { ++cnt; owner = &p; }
            double v = g.uni(-5, 5);
            if (owner) owner->x[i] = v + 1;
            std::vector<Part> before(ps);
            int got = 0; double val = 0;
            try { val = g.flip() ? a.getDoubleAttr(nm) : ca.getDoubleAttr(nm); }
            catch (DoubleAttributeError&) { got = 1; }
            catch (std::logic_error&) { got = 2; }
            VEQ("get-error", got, cnt == 0 ? 1 : cnt > 1 ? 2 : 0);
            if (cnt == 1) VEQ("get-value", val, v + 1);
            VEQ("has", ca.hasDoubleAttr(nm), cnt > 0);
            long s0 = nsets; int st = 0;
            try { a.setDoubleAttr(nm, v); }
            catch (DoubleAttributeError&) { st = 1; }
            catch (std::logic_error&) { st = 2; }
            bool ro = i == 3 || i == 4;
            VEQ("set-error", st, cnt == 0 ? 1 : cnt > 1 ? 2 : ro ? 1 : 0);
            VEQ("set-calls", nsets - s0, (long)(cnt == 1 && !ro));
            for (size_t p = 0; p < ps.size(); ++p) for (int j = 0; j < 6; ++j)
                VEQ("set-value", ps[p].x[j], (cnt == 1 && !ro && &ps[p] == owner && j == i) ? v : before[p].x[j]);
        }
        Part c(ps[0]);                       // copies are independent
        c.parts.clear();
        for (int i : {0, 1, 2, 5}) if (c.present[i]) { double o = ps[0].x[i]; c.setDoubleAttr(Part::name(i), 77); VEQ("copy-own", c.x[i], 77.0); VEQ("copy-other", ps[0].x[i], o); }
        Part d(63); d = ps[0]; d.parts.clear();
        for (int i = 0; i < 6; ++i) { d.x[i] = 3 + i; VEQ("assigned-keeps", d.getDoubleAttr(Part::name(i)), 3.0 + i); }
    }
}

// ---------------------------------------------------------------- attributes of the library
typedef std::function<double()> Get;
typedef std::function<void(double)> Set;
struct Entry { std::string name; Get get; Set set; double lo, hi; };
static void check(Rng& g, const std::string& what, Attributes& a, std::vector<Entry> es, bool exact = true)
{
    if (!begin("attributes of " + what)) return;
    std::set<std::string> all, wr;
    for (auto& e : es) { all.insert(e.name); if (e.set) wr.insert(e.name); }
    const Attributes& ca = a;
    std::set<std::string> n = ca.namesOfDoubleAttributes(), w = ca.namesOfWritableDoubleAttributes();
    VCHECK("lib-names", exact ? n == all : std::includes(n.begin(), n.end(), all.begin(), all.end()), "names of " + what);
    for (auto& x : wr) VCHECK("lib-writable", w.count(x), x + " is not writable in " + what);
    for (auto& e : es) if (!e.set) VCHECK("lib-readonly", !w.count(e.name), e.name + " is writable in " + what);
    for (int r = 0; r < 10; ++r) for (auto& e : es) {
        current = what + "." + e.name;
        VCHECK("lib-has", ca.hasDoubleAttr(e.name), "missing");
        VEQ("lib-get", ca.getDoubleAttr(e.name), e.get());
        if (e.set) {
            double v = g.uni(e.lo, e.hi), u = g.uni(e.lo, e.hi);
            e.set(v); double gv = e.get();
            VEQ("lib-get-after-set", a.getDoubleAttr(e.name), gv);
            e.set(u);
            a.setDoubleAttr(e.name, v);
            VEQ("lib-set", e.get(), gv);
        } else {
            double v = e.get(); bool t = false;
            try { a.setDoubleAttr(e.name, v + 1); } catch (DoubleAttributeError&) { t = true; }
            VCHECK("lib-readonly-error", t, "no error"); VEQ("lib-readonly-value", e.get(), v);
        }
    }
    for (const char* x : {"", "nosuch", "Rmax", "scale ", "qdamp2"}) {
        bool t1 = false, t2 = false;
        if (ca.hasDoubleAttr(x)) fail("lib-unknown", std::string("has attribute ") + x);
        try { ca.getDoubleAttr(x); } catch (DoubleAttributeError&) { t1 = true; }
        try { a.setDoubleAttr(x, 1); } catch (DoubleAttributeError&) { t2 = true; }
        VCHECK("lib-unknown-error", t1 && t2, std::string("no error for ") + x);
    }
}
#define E2(nm, o, G, S, lo, hi) Entry{nm, [&]() -> double { return (o).G(); }, [&](double v) { (o).S(v); }, lo, hi}
#define E1(nm, o, G) Entry{nm, [&]() -> double { return (o).G(); }, Set(), 0, 0}

static void library(Rng& g)
{
    JeongPeakWidth j;
    auto jeong = [&](JeongPeakWidth& w) { return std::vector<Entry>{E2("delta1", w, getDelta1, setDelta1, 0, 2), E2("delta2", w, getDelta2, setDelta2, 0, 2), E2("qbroad", w, getQbroad, setQbroad, 0, 1),
        E2("qbroad_seperable", w, getQbroad_seperable, setQbroad_seperable, 0, 1)}; };
    check(g, "JeongPeakWidth", j, jeong(j));
    ConstantPeakWidth cw;
    check(g, "ConstantPeakWidth", cw, {E2("width", cw, getWidth, setWidth, -1, 2)}, false);
    ScaleEnvelope sc; check(g, "ScaleEnvelope", sc, {E2("scale", sc, getScale, setScale, -1, 2)});
    StepCutEnvelope st; check(g, "StepCutEnvelope", st, {E2("stepcut", st, getStepCut, setStepCut, -1, 20)});
    QResolutionEnvelope qr; check(g, "QResolutionEnvelope", qr, {E2("qdamp", qr, getQdamp, setQdamp, -1, 1)});
    SphericalShapeEnvelope sp; check(g, "SphericalShapeEnvelope", sp, {E2("spdiameter", sp, getSPDiameter, setSPDiameter, -1, 20)});
    LinearBaseline lb; check(g, "LinearBaseline", lb, {E2("slope", lb, getSlope, setSlope, -1, 2)});
    for (const char* t : {"gaussian", "croppedgaussian"}) { PeakProfilePtr p = PeakProfile::createByType(t); check(g, t, *p, {E2("peakprecision", *p, getPrecision, setPrecision, 0, .5)}); }
    BondCalculator bc; check(g, "BondCalculator", bc, {E2("rmin", bc, getRmin, setRmin, 0, 2), E2("rmax", bc, getRmax, setRmax, 2, 10)});
    PairCounter pc; check(g, "PairCounter", pc, {E2("rmin", pc, getRmin, setRmin, 0, 2), E2("rmax", pc, getRmax, setRmax, 2, 10)});
    BVSCalculator bv; check(g, "BVSCalculator", bv, {E2("rmin", bv, getRmin, setRmin, 0, 2), E2("rmax", bv, getRmax, setRmax, 2, 10),
        E2("valenceprecision", bv, getValencePrecision, setValencePrecision, 1e-6, .1), E1("rmaxused", bv, getRmaxUsed)});
    OverlapCalculator oc; check(g, "OverlapCalculator", oc, {E2("rmin", oc, getRmin, setRmin, 0, 2), E2("rmax", oc, getRmax, setRmax, 2, 10), E1("rmaxused", oc, getRmaxUsed)});
    for (int k = 0; k < 4; ++k) {
        PDFCalculator pd;
        auto pdf = [&]() { return std::vector<Entry>{E2("qmin", pd, getQmin, setQmin, 0, 2), E2("qmax", pd, getQmax, setQmax, 5, 30), E1("qstep", pd, getQstep), E2("rmin", pd, getRmin, setRmin, 0, 2),
            E2("rmax", pd, getRmax, setRmax, 3, 10), E2("rstep", pd, getRstep, setRstep, 0.01, 0.2), E2("maxextension", pd, getMaxExtension, setMaxExtension, 1, 10),
            E1("extendedrmin", pd, getExtendedRmin), E1("extendedrmax", pd, getExtendedRmax)}; };
        DebyePDFCalculator dp;
        auto dpdf = [&]() { return std::vector<Entry>{E2("qmin", dp, getQmin, setQmin, 0, 2), E2("qmax", dp, getQmax, setQmax, 5, 30), E2("qstep", dp, getQstep, setQstep, 0.01, 1), E2("rmin", dp, getRmin, setRmin, 0, 2),
            E2("rmax", dp, getRmax, setRmax, 3, 10), E2("rstep", dp, getRstep, setRstep, 0.01, 0.2), E2("maxextension", dp, getMaxExtension, setMaxExtension, 1, 10),
            E2("debyeprecision", dp, getDebyePrecision, setDebyePrecision, 1e-8, 1e-3)}; };
        std::vector<Entry> a = pdf(), b = dpdf();
        boost::shared_ptr<JeongPeakWidth> w1(new JeongPeakWidth), w2(new JeongPeakWidth);
        pd.setPeakWidthModel(w1); dp.setPeakWidthModel(w2);
        for (auto& e : jeong(*w1)) a.push_back(e);
        for (auto& e : jeong(*w2)) b.push_back(e);
        pd.clearEnvelopes(); dp.clearEnvelopes();
        boost::shared_ptr<ScaleEnvelope> s1(new ScaleEnvelope); boost::shared_ptr<QResolutionEnvelope> q1(new QResolutionEnvelope); boost::shared_ptr<StepCutEnvelope> c1(new StepCutEnvelope);
        if (k & 1) { pd.addEnvelope(s1); dp.addEnvelope(s1); a.push_back(E2("scale", *s1, getScale, setScale, 0, 2)); b.push_back(E2("scale", *s1, getScale, setScale, 0, 2)); }
        if (k & 2) { pd.addEnvelope(q1); dp.addEnvelope(q1); a.push_back(E2("qdamp", *q1, getQdamp, setQdamp, 0, 2)); b.push_back(E2("qdamp", *q1, getQdamp, setQdamp, 0, 2));
                     pd.addEnvelope(c1); dp.addEnvelope(c1); a.push_back(E2("stepcut", *c1, getStepCut, setStepCut, 0, 2)); b.push_back(E2("stepcut", *c1, getStepCut, setStepCut, 0, 2)); }
        boost::shared_ptr<LinearBaseline> l1(new LinearBaseline);
        if (k != 1) { pd.setBaseline(l1); a.push_back(E2("slope", *l1, getSlope, setSlope, -1, 1)); } else pd.setBaselineByType("zero");
        PeakProfilePtr pp = pd.getPeakProfile();
        a.push_back(E2("peakprecision", *pp, getPrecision, setPrecision, 1e-6, 1e-2));
        check(g, "PDFCalculator", pd, a);
        check(g, "DebyePDFCalculator", dp, b, false);
    }
}

// ---------------------------------------------------------------- registries
template <class T> struct Fake : public T {};
template <class T> static void registry(Rng& g, const char* nm, std::vector<std::string> std_types, std::map<std::string, std::string> extra = std::map<std::string, std::string>())
{
    typedef boost::shared_ptr<T> P;
    if (!begin(std::string("registry of ") + nm)) return;
    std::map<std::string, std::string> model;       // name -> type
    std::set<std::string> types0 = T::getRegisteredTypes();
    for (auto& t : std_types) VCHECK("standard-types", types0.count(t), t + " is not registered");
    for (auto& t : types0) model[t] = t;
    for (auto& a : T::getAliasedTypes()) model[a.first] = a.second;
    std::map<std::string, std::string> model0 = model;
    std::map<std::string, P> proto; for (auto& t : types0) proto[t] = T::createByType(t);
    std::vector<std::string> names; for (auto& m : model) names.push_back(m.first);
    for (const char* x : {"nick", "other", "third", "", "Gaussian", "nosuch"}) names.push_back(x);
    std::string hist;
    for (int k = 0; k < scale(400, 4000); ++k) {
        int op = g.integer(0, 9);
        std::string a = g.pick(names), b = g.pick(names);
        hist = Fmt() << nm << " op " << op << " " << a << " " << b;
        current = hist;
        if (op < 4) {
            P p, q; bool t = false;
            try { p = T::createByType(a); q = T::createByType(a); } catch (std::invalid_argument&) { t = true; }
            VEQ("create-error", t, !model.count(a));
            if (p && q) { VEQ("create-type", std::string(p->type()), model[a]); VCHECK("create-distinct", p != q, "same object"); }
        } else if (op < 8) {
            bool t = false, r = false;
            bool bad = !model.count(a) || (model.count(b) && model[b] != model[a]);
            try { r = T::aliasType(a, b); } catch (std::logic_error&) { t = true; }
            VEQ("alias-error", t, bad);
            if (!bad) { model[b] = model[a]; VEQ("alias-true", r, true); }
        } else if (op == 8 && g.flip(.3)) {
            int n = 0;
            if (model.count(a)) { std::string t = model[a]; for (auto i = model.begin(); i != model.end();) if (i->second == t) { model.erase(i++); ++n; } else ++i; }
            VEQ("deregister-count", T::deregisterType(a), n);
        } else {
            const P& p = std::next(proto.begin(), g.integer(0, proto.size() - 1))->second;
            bool bad = model.count(p->type()), t = false;
            try { p->registerThisType(); } catch (std::logic_error&) { t = true; }
            std::string ty = p->type();
            if (!bad) model[ty] = ty;
            if (!bad && extra.count(ty)) {      // a second standard name comes along
                std::string al = extra[ty];
                if (model.count(al) && model[al] != ty) bad = true; else model[al] = ty;
            }
            VEQ("register-error", t, bad);
        }
        std::set<std::string> ty; std::map<std::string, std::string> al;
        for (auto& m : model) { ty.insert(m.second); if (m.first != m.second) al[m.first] = m.second; }
        VCHECK("types", T::getRegisteredTypes() == ty, "registered types differ");
        VCHECK("aliases", T::getAliasedTypes() == al, "aliases differ");
        for (auto& x : names) VEQ("is-registered", T::isRegisteredType(x), model.count(x) > 0);
    }
    // back to the start
    for (auto& p : proto) T::deregisterType(p.first);
    for (auto& n : names) T::deregisterType(n);
    for (auto& p : proto) p.second->registerThisType();
    for (auto& m : model0) if (m.first != m.second) T::aliasType(m.second, m.first);
}

// an object made from the registry does not share state with others
static void independent(Rng& g)
{
    for (int k = 0; k < 20; ++k) {
        begin("independent objects");
        double v = g.uni(0.1, 0.9), u = g.uni(1, 2);
        auto one = [&](Attributes& a, Attributes& b, Attributes& c, const char* nm) {
            double b0 = b.getDoubleAttr(nm), c0 = c.getDoubleAttr(nm);
            a.setDoubleAttr(nm, v);
            VEQ("independent", b.getDoubleAttr(nm), b0); VEQ("independent", c.getDoubleAttr(nm), c0);
            b.setDoubleAttr(nm, u);
            VEQ("independent", a.getDoubleAttr(nm), v);
        };
        struct { const char* t; const char* a; } ev[] = {{"scale", "scale"}, {"stepcut", "stepcut"}, {"qresolution", "qdamp"}, {"sphericalshape", "spdiameter"}};
        for (auto& e : ev) {
            PDFEnvelopePtr a = PDFEnvelope::createByType(e.t), b = PDFEnvelope::createByType(e.t), c = a->create();
            double d = b->getDoubleAttr(e.a);
            one(*a, *b, *c, e.a);
            VEQ("fresh-default", PDFEnvelope::createByType(e.t)->getDoubleAttr(e.a), d);
            PDFEnvelopePtr cl = a->clone();
            VEQ("clone-equal", cl->getDoubleAttr(e.a), v); one(*a, *cl, *c, e.a);
        }
        { PeakWidthModelPtr a = PeakWidthModel::createByType("jeong"), b = PeakWidthModel::createByType("jeong"), c = a->clone(); for (const char* n : {"delta1", "delta2", "qbroad", "qbroad_seperable"}) one(*a, *b, *c, n);
          PeakWidthModelPtr d = a->clone(); for (const char* n : {"delta1", "delta2", "qbroad", "qbroad_seperable"}) VEQ("clone-equal", d->getDoubleAttr(n), v); }
        { PeakWidthModelPtr a = PeakWidthModel::createByType("constant"), b = PeakWidthModel::createByType("constant"), c = a->clone(); one(*a, *b, *c, "width"); }
        { PDFBaselinePtr a = PDFBaseline::createByType("linear"), b = PDFBaseline::createByType("linear"), c = a->clone(); one(*a, *b, *c, "slope"); }
        for (const char* t : {"gaussian", "croppedgaussian"}) { PeakProfilePtr a = PeakProfile::createByType(t), b = PeakProfile::createByType(t), c = a->clone(); one(*a, *b, *c, "peakprecision"); }
        for (const char* t : {"xray", "electron", "neutron", "electronnumber"}) {
            ScatteringFactorTablePtr a = ScatteringFactorTable::createByType(t), b = ScatteringFactorTable::createByType(t), c = a->create();
            double b0 = b->lookup("C", 1);
            a->setCustomAs("C", "O", 2.0, 0.0);
            VEQ("table-independent", b->lookup("C", 1), b0); VEQ("table-independent", c->lookup("C", 1), b0);
            VEQ("table-clone", a->clone()->lookup("C", 1), a->lookup("C", 1));
            VCHECK("table-create-clean", a->create()->getCustomSymbols().empty(), "customs in a new table");
        }
        AtomRadiiTablePtr r = AtomRadiiTable::createByType("constant"), s = AtomRadiiTable::createByType("constant");
        r->setCustom("C", v);
        VCHECK("table-independent", s->getAllCustom().empty(), "customs shared");
    }
}

void harness()
{
    Rng g(seed);
    composite(g);
    library(g);
    independent(g);
    registry<PeakProfile>(g, "PeakProfile", {"gaussian", "croppedgaussian"});
    registry<PeakWidthModel>(g, "PeakWidthModel", {"constant", "debye-waller", "jeong"});
    registry<PDFEnvelope>(g, "PDFEnvelope", {"scale", "stepcut", "qresolution", "sphericalshape"});
    registry<PDFBaseline>(g, "PDFBaseline", {"zero", "linear"});
    registry<ScatteringFactorTable>(g, "ScatteringFactorTable", {"xray", "electron", "neutron", "electronnumber"}, {{"xray", "X"}, {"electron", "E"}, {"neutron", "N"}, {"electronnumber", "EN"}});
    registry<AtomRadiiTable>(g, "AtomRadiiTable", {"constant"});
    independent(g);
}
