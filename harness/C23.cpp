#include "pq.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
const char* const vh_rule() { return "random clusters, periodic cells and crystals, with and without metadata, in up to three nested wrappers, and wrapped null pointers; histories of edits of sites and cells; oracle: the wrapped structure itself, sums over its sites, brute-force bonds of the unit cell alone, a fresh evaluation"; }
using namespace vh;

// a structure that configures its calculator
struct Meta : public AtomicStructureAdapter {
    double sc;
    Meta() : sc(1) {}
    StructureAdapterPtr clone() const { return boost::make_shared<Meta>(*this); }
    void customPQConfig(PairQuantity* pq) const { pq->setDoubleAttr("scale", sc); }
};

static StructureAdapterPtr wrap(const std::string& how, StructureAdapterPtr p)
{
    for (char c : how) p = c == 'm' ? nometa(p) : nosymmetry(p);
    return p;
}

static std::string siteline(const StructureAdapter& p, int i)
{
    Fmt f;
    f << p.siteAtomType(i) << str(fromR3(p.siteCartesianPosition(i))) << " occ " << p.siteOccupancy(i) << " aniso " << (int)p.siteAnisotropy(i);
    for (int k = 0; k < 9; ++k) f << " " << p.siteCartesianUij(i)(k / 3, k % 3);
    return f;
}

static std::string bondlist(const StructureAdapter& p, int i, double rmin, double rmax, int lo, int hi)
{
    BaseBondGeneratorPtr b = p.createBondGenerator();
    b->setRmin(rmin); b->setRmax(rmax); b->selectAnchorSite(i); b->selectSiteRange(lo, hi);
    std::vector<std::string> v;
    for (b->rewind(); !b->finished(); b->next()) {
        Fmt f; f << b->site0() << "-" << b->site1() << str(fromR3(b->r0())) << str(fromR3(b->r1())) << " " << b->multiplicity() << " " << b->msd();
        v.push_back(f);
    }
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto& x : v) s += x + "; ";
    return s;
}

static void samesites(const std::string& key, const StructureAdapter& a, const StructureAdapter& b)
{
    VEQ(key + "/count", a.countSites(), b.countSites());
    if (a.countSites() == b.countSites()) for (int i = 0; i < a.countSites(); ++i) VEQ(key + "/site", siteline(a, i), siteline(b, i));
}

static std::string collapsed(const std::string& how)
{
    std::string s;
    for (char c : how) if (s.empty() || s[s.size() - 1] != c) s += c;
    return s;
}

static void wrapping(Rng& g)
{
    int kind = g.integer(0, 3);
    Stru s = randstru(g, kind % 3, 0, 6, 4, g.flip());
    if (kind == 3) {
        std::vector<Atom> v = randatoms(g, g.integer(1, 5), 4, g.flip());
        boost::shared_ptr<Meta> mp = boost::make_shared<Meta>();
        mp->assign(v.begin(), v.end()); mp->sc = .5 * g.integer(3, 9);
        s.p = mp; s.ap = mp;
    }
    if (s.ap->countSites() && g.flip(.4)) { (*s.ap)[g.integer(0, s.ap->countSites() - 1)].occupancy = .125 * g.integer(0, 24); s.desc += " odd occupancy"; }
    std::string how;
    for (int n = g.integer(1, 4); n; --n) how += g.flip() ? 'm' : 's';
    begin(Fmt() << (std::string)s.desc << (std::string)(kind == 3 ? " with metadata" : "") << " wrapped " << how, true);
    bool nosym = how.find('s') != std::string::npos, nomet = how.find('m') != std::string::npos;
    StructureAdapterPtr w = wrap(how, s.p);
    samesites("sites", *w, *s.p);
    int n = s.p->countSites();
    double tot = 0;
    for (int i = 0; i < n; ++i) {
        int mu = nosym ? 1 : s.p->siteMultiplicity(i);
        VEQ("multiplicity", w->siteMultiplicity(i), mu);
        tot += mu * s.p->siteOccupancy(i);
    }
    VNEAR("totalOccupancy", w->totalOccupancy(), tot, 1e-12 * (1 + tot));
    VEQ("numberDensity", w->numberDensity(), nosym ? 0.0 : s.p->numberDensity());
    double um = 0;
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) um = std::max(um, s.p->siteCartesianUij(i)(k, k));
    VEQ("maxUii", maxUii(w), um);
    VEQ("maxUii/source", maxUii(s.p), um);
    // bonds
    StructureAdapterPtr ref = s.p;
    if (nosym) { AtomicStructureAdapterPtr c = boost::make_shared<AtomicStructureAdapter>(); c->assign(s.ap->begin(), s.ap->end()); ref = c; }
    double rmin = g.flip() ? 0 : g.uni(0, 3), rmax = rmin + g.uni(0, 4);
    for (int i = 0; i < n; ++i) {
        int lo = g.flip() ? 0 : g.integer(0, n), hi = g.flip() ? n : g.integer(lo, n);
        std::string b = bondlist(*w, i, rmin, rmax, lo, hi);
        VEQ("bonds", b, bondlist(*ref, i, rmin, rmax, lo, hi));
    }
    // double wrapping adds nothing
    std::string c = collapsed(how);
    StructureAdapterPtr p = w; int depth = 0;
    for (int k = c.size(); k-- > 0;) {
        auto pm = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p);
        auto ps = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p);
        VCHECK("nesting", c[k] == 'm' ? (bool)pm : (bool)ps, Fmt() << "layer " << depth << " of " << c);
        if (!(c[k] == 'm' ? (bool)pm : (bool)ps)) return;
        p = c[k] == 'm' ? pm->getSourceStructure() : ps->getSourceStructure(); ++depth;
    }
    VCHECK("nesting/source", p == s.p, "the innermost structure is the wrapped one");
    if (how.size()) {       // the constructors collapse as well
        auto m1 = boost::make_shared<NoMetaStructureAdapter>(w);
        VCHECK("nesting/constructor", !boost::dynamic_pointer_cast<NoMetaStructureAdapter>(m1->getSourceStructure()), "nometa");
        samesites("sites/constructor", *m1, *s.p);
        auto s1 = boost::make_shared<NoSymmetryStructureAdapter>(w);
        VCHECK("nesting/constructor", !boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(s1->getSourceStructure()), "nosymmetry");
        samesites("sites/constructor", *s1, *s.p);
    }
    // metadata
    PDFCalculator pdf;
    pdf.eval(w);
    double want = kind == 3 && !nomet ? boost::dynamic_pointer_cast<Meta>(s.p)->sc : 1.0;
    VEQ("metadata", pdf.getDoubleAttr("scale"), want);
    // saved copies
    if (kind != 3) {
        StructureAdapterPtr q;
        diffpy::serialization_fromstring(q, diffpy::serialization_tostring(w));
        samesites("saved", *q, *w);
        VEQ("saved/density", q->numberDensity(), w->numberDensity());
        VNEAR("saved/totalOccupancy", q->totalOccupancy(), tot, 1e-12 * (1 + tot));
    }
    // a clone is of the same kind and does not follow edits; the wrapper does
    StructureAdapterPtr k = w->clone();
    std::vector<std::string> before;
    for (int i = 0; i < n; ++i) before.push_back(siteline(*w, i));
    Atom a = randatoms(g, 1, 4)[0];
    s.ap->append(a);
    if (n) (*s.ap)[0].xyz_cartn[1] += .25;
    VEQ("clone/count", k->countSites(), n);
    if (k->countSites() == n) for (int i = 0; i < n; ++i) VEQ("clone/site", siteline(*k, i), before[i]);
    VNEAR("clone/totalOccupancy", k->totalOccupancy(), tot, 1e-12 * (1 + tot));
    PDFCalculator pdf2;
    pdf2.eval(k);
    VEQ("clone/metadata", pdf2.getDoubleAttr("scale"), want);
    samesites("edited", *w, *s.p);
    VEQ("edited/density", w->numberDensity(), nosym ? 0.0 : s.p->numberDensity());
}

static void history(Rng& g)
{
    int kind = g.integer(0, 2);
    std::string how;
    for (int n = g.integer(1, 3); n; --n) how += g.flip() ? 'm' : 's';
    Stru s = randstru(g, kind, 2, 9, 3);
    begin(Fmt() << "history of " << (std::string)s.desc << " wrapped " << how, true);
    PDFCalculator pdf; pdf.setRmax(6);
    pdf.setEvaluatorType(OPTIMIZED);
    bool follow = g.flip();
    std::string h = how;
    for (int e = 0; e < 4; ++e) {
        pdf.eval(wrap(h, s.p));
        PDFCalculator fresh; fresh.setRmax(6); fresh.setEvaluatorType(BASIC);
        fresh.eval(wrap(h, s.p));
        QuantityType a = pdf.getPDF(), b = fresh.getPDF();
        VEQ("update/size", a.size(), b.size());
        double worst = 0, size = 0;
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) { worst = std::max(worst, std::fabs(a[i] - b[i])); size = std::max(size, std::fabs(b[i])); }
        VCHECK("update/values", worst <= 1e-7 * (1 + size), Fmt() << "step " << e << " " << (std::string)s.desc << " as " << h << " differs by " << worst);
        // differences of wrapped structures name the wrapped structures
        Stru t = edited(g, s);
        StructureAdapterPtr w0 = wrap(h, s.p), w1 = wrap(h, t.p);
        StructureDifference sd = w0->diff(w1);
        VCHECK("diff/structures", sd.stru0 == w0 && sd.stru1 == w1, "the difference is of other structures");
        std::string left, right;
        {
            std::vector<std::string> x, y;
            std::set<int> pop(sd.pop0.begin(), sd.pop0.end()), add(sd.add1.begin(), sd.add1.end());
            for (int i = 0; i < w0->countSites(); ++i) if (!pop.count(i)) x.push_back(siteline(*w0, i));
            for (int i = 0; i < w1->countSites(); ++i) if (!add.count(i)) y.push_back(siteline(*w1, i));
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            for (auto& q : x) left += q + "; ";
            for (auto& q : y) right += q + "; ";
        }
        VEQ("diff/kept", left, right);
        if (kind && g.flip(.3)) {       // the lattice changes, the sites stay
            PeriodicStructureAdapterPtr pp = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(t.p);
            Cell c = randcell(g);
            pp->setLatPar(c.par[0], c.par[1], c.par[2], c.par[3], c.par[4], c.par[5]);
            t.desc += " relattice";
        }
        if (!follow && g.flip(.4)) { h.clear(); for (int n = g.integer(0, 3); n; --n) h += g.flip() ? 'm' : 's'; }
        s = t;
    }
}

static void empty()
{
    const char* hs[] = {"m", "s", "ms", "sm", "mm", "ss", "msm"};
    for (auto h : hs) {
        begin(Fmt() << "null pointer wrapped " << h, false);
        StructureAdapterPtr w = wrap(h, StructureAdapterPtr());
        VEQ("null/count", w->countSites(), 0);
        VEQ("null/density", w->numberDensity(), 0.0);
        VEQ("null/totalOccupancy", w->totalOccupancy(), 0.0);
        VEQ("null/maxUii", maxUii(w), 0.0);
        StructureAdapterPtr k = w->clone();
        VEQ("null/clone", k->countSites(), 0);
        PDFCalculator pdf;
        QuantityType v = pdf.eval(w);
        for (double x : v) VEQ("null/pdf", x, 0.0);
    }
    begin("no structure at all", false);
    VEQ("null/maxUii", maxUii(StructureAdapterPtr()), 0.0);
}

void harness()
{
    Rng g(seed);
    empty();
    for (int i = scale(300, 4000); i; --i) wrapping(g);
    for (int i = scale(60, 800); i; --i) history(g);
}
