#include "pq.hpp"
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
const char* const vh_rule() { return "profiles over random widths, precisions and arguments incl. the bounds and nonpositive widths; width models on random anisotropic pairs; envelopes and baselines over random and boundary arguments, alone and combined"; }
using namespace vh;
typedef long double ld;
static const double EPS = 2.220446049250313e-16;

static ld gref(ld x, ld w) { return 2 * sqrtl(logl(2) / acosl(-1.0L)) / w * expl(-4 * logl(2) * (x / w) * (x / w)); }

static void profiles(Rng& g)
{
    const char* types[] = {"gaussian", "croppedgaussian"};
    for (int t = 0; t < 2; ++t) {
        PeakProfilePtr p = PeakProfile::createByType(types[t]);
        double precs[] = {1e-3, 1e-8, 0.3, 0.9, 1e-20, 0, -1, 1, 2, EPS, 0.5, 1e-16, 3e-16};
        for (int k = 0; k < 13 + scale(10, 100); ++k) {
            double eps = k < 13 ? precs[k] : pow(10, g.uni(-15, 0));
            if (!begin(Fmt() << types[t] << " precision " << eps)) return;
            if (k % 2) p->setDoubleAttr("peakprecision", eps); else p->setPrecision(eps);
            double e1 = std::max(eps, EPS);
            VEQ("precision", p->getPrecision(), e1);
            VEQ("precision-attr", p->getDoubleAttr("peakprecision"), e1);
            PeakProfilePtr q = g.flip() ? p : p->clone();
            for (int m = 0; m < scale(40, 400); ++m) {
                double w = m == 0 ? 0 : m == 1 ? -0.5 : m == 2 ? -1e-9 : pow(10, g.uni(-4, 2));
                double lo = q->xboundlo(w), hi = q->xboundhi(w);
                double href = (w <= 0 || e1 >= 1) ? 0 : w * sqrt(-log(e1) / (4 * M_LN2));
                VNEAR("bound-hi", hi, href, 1e-12); VNEAR("bound-lo", lo, -href, 1e-12);
                double xs[] = {0, w / 2, -w / 2, lo, hi, hi * 1.0000001, hi * 0.9999999, g.uni(-2, 2) * w, g.uni(-5, 5), hi * g.unit(), lo * g.unit(), g.uni(2, 9) * hi};
                double area = erf(sqrt(-log(e1)));
                for (double x : xs) {
                    double v = (*q)(x, w);
                    ld ref = w <= 0 ? 0 : gref(x, w);
                    if (t == 1) {
                        if (w > 0 && std::fabs(std::fabs(x) - href) <= 1e-9 * href && href > 0) { VCHECK("profile-nonneg", v >= 0, "value " << v << " x " << x << " w " << w); continue; }
                        ref = (std::fabs(x) >= href) ? 0 : (w <= 0 ? 0 : ref / (e1 < 1 ? area : 1));
                    }
                    if (!(std::fabs(v - (double)ref) <= 1e-10 * std::fabs((double)ref) + 1e-300)) fail("profile", Fmt() << types[t] << "(" << x << ", " << w << ") = " << v << ", expected " << (double)ref);
                    VCHECK("profile-nonneg", v >= 0, "value " << v << " x " << x << " w " << w);
                    VEQ("profile-sym", (*q)(-x, w), v);
                }
                if (w > 0 && (t == 0 || href > w / 2 * 1.001)) VNEAR("profile-fwhm", (*q)(w / 2, w) / (*q)(0, w), 0.5, 1e-12);
                if (w > 0 && e1 < 1 && t == 0) VNEAR("profile-at-bound", (*q)(hi, w) / (*q)(0, w) / e1, 1, 1e-6);
            }
            if (e1 < 1e-2) {        // unit area
                double w = g.uni(0.1, 3), hi = p->xboundhi(w), s = 0; int n = 4000;
                for (int i = 0; i < n; ++i) s += (*p)(-hi + (i + 0.5) * 2 * hi / n, w) * 2 * hi / n;
                VNEAR("profile-area", s, t ? 1 : erf(sqrt(-log(e1))), 1e-5);
            }
        }
        PeakProfilePtr c = p->clone(), n = p->create();
        double e0 = p->getPrecision();
        c->setPrecision(0.25);
        VEQ("clone-independent", p->getPrecision(), e0);
        VEQ("create-fresh", n->getPrecision(), PeakProfile::createByType(types[t])->getPrecision());
        VEQ("type", std::string(n->type()), std::string(types[t]));
    }
}

static AtomicStructureAdapterPtr pairOf(Rng& g, double& msd, P3& d, double& maxu, bool flat)
{
    AtomicStructureAdapterPtr s = boost::make_shared<AtomicStructureAdapter>();
    R3::Matrix U = R3::zeromatrix(); maxu = 0;
    P3 p[2];
    for (int k = 0; k < 2; ++k) {
        Atom a; a.atomtype = "C"; a.occupancy = 1;
        p[k] = p3(g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2));
        a.xyz_cartn = R3::Vector(p[k][0], p[k][1], p[k][2]);
        R3::Matrix M = R3::zeromatrix(), V = R3::zeromatrix();
        if (!flat) for (int i = 0; i < 9; ++i) M.data()[i] = g.uni(-.1, .1);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int l = 0; l < 3; ++l) V(i, j) += M(i, l) * M(j, l);
        a.uij_cartn = V; a.anisotropy = true;
        for (int i = 0; i < 9; ++i) U.data()[i] += V.data()[i];
        for (int i = 0; i < 3; ++i) maxu = std::max(maxu, V(i, i));
        s->append(a);
    }
    d = p[1] - p[0];
    msd = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) msd += U(i, j) * d[i] * d[j] / dotp(d, d);
    return s;
}

static double ratio(double r, double d1, double d2, double q) { return r < EPS ? 0 : 1 - d1 / r - d2 / (r * r) + q * q * r * r; }

static void widths(Rng& g)
{
    const double S = 2 * sqrt(2 * log(2.0));
    for (int k = 0; k < scale(400, 8000); ++k) {
        double msd, maxu; P3 d;
        AtomicStructureAdapterPtr s = pairOf(g, msd, d, maxu, k % 17 == 0);
        double r = len(d);
        double p[4];
        for (int i = 0; i < 4; ++i) p[i] = g.flip(.3) ? 0 : g.uni(0, i == 0 ? 2 * r : i == 1 ? 2 * r * r : 0.3) * (g.flip(.1) ? -1 : 1);
        if (!begin(Fmt() << "pair at " << r << " msd " << msd << " jeong " << p[0] << " " << p[1] << " " << p[2] << " " << p[3])) return;
        BaseBondGeneratorPtr b = StructureAdapterPtr(s)->createBondGenerator();
        b->setRmin(0); b->setRmax(20); b->selectAnchorSite(0); b->selectSiteRange(1, 2); b->rewind();
        VCHECK("bond", !b->finished(), "no bond");
        if (b->finished()) continue;
        double dw = S * sqrt(std::max(msd, 0.0)), dwm = S * sqrt(2 * maxu);
        DebyeWallerPeakWidth w0; JeongPeakWidth w1; ConstantPeakWidth w2;
        VNEAR("debye-waller", w0.calculate(*b), dw, 1e-9);
        double lo = g.uni(0.1, 3), hi = lo + g.uni(0, 5);
        VNEAR("debye-waller-max", w0.maxWidth(s, lo, hi), dwm, 1e-9);
        const char* nm[] = {"delta1", "delta2", "qbroad", "qbroad_seperable"};
        for (int i = 0; i < 4; ++i) { if (g.flip()) w1.setDoubleAttr(nm[i], p[i]); else (i == 0 ? w1.setDelta1(p[i]) : i == 1 ? w1.setDelta2(p[i]) : i == 2 ? w1.setQbroad(p[i]) : w1.setQbroad_seperable(p[i])); }
        double got[] = {w1.getDelta1(), w1.getDelta2(), w1.getQbroad(), w1.getQbroad_seperable()};
        for (int i = 0; i < 4; ++i) { VEQ("jeong-set", got[i], p[i]); VEQ("jeong-attr", w1.getDoubleAttr(nm[i]), p[i]); }
        double cr = ratio(r, p[0], p[1], p[2]);
        if (std::fabs(cr) > 1e-9) VNEAR("jeong", w1.calculate(*b), cr <= 0 ? 0 : sqrt(cr) * dw + pow(p[3] * r, 2), 1e-9);
        double m = std::max(1.0, std::max(ratio(lo, p[0], p[1], p[2]), ratio(hi, p[0], p[1], p[2])));
        VNEAR("jeong-max", w1.maxWidth(s, lo, hi), dwm * sqrt(m) + pow(p[3] * hi, 2), 1e-9);
        if (p[0] >= 0 && p[1] >= 0 && r >= lo && r <= hi && msd <= 2 * maxu) VCHECK("jeong-max-bounds", w1.calculate(*b) <= w1.maxWidth(s, lo, hi) * (1 + 1e-12), "width above the maximum");
        VNEAR("jeong-dw", static_cast<DebyeWallerPeakWidth&>(w1).DebyeWallerPeakWidth::calculate(*b), dw, 1e-9);
        PeakWidthModelPtr c1 = w1.clone();
        VNEAR("jeong-clone", c1->calculate(*b), w1.calculate(*b), 0);
        double w = g.uni(-1, 3);
        w2.setWidth(w);
        VEQ("constant", w2.calculate(*b), w); VEQ("constant-max", w2.maxWidth(s, lo, hi), w);
        double uiso = (w < 0 ? -1 : 1) * 0.5 * (w / S) * (w / S);
        VNEAR("uisowidth", w2.getDoubleAttr("uisowidth"), uiso, 1e-12);
        VNEAR("bisowidth", w2.getDoubleAttr("bisowidth"), 8 * M_PI * M_PI * uiso, 1e-12);
        double u = g.uni(-0.1, 0.3); bool bb = g.flip();
        w2.setDoubleAttr(bb ? "bisowidth" : "uisowidth", u);
        double uu = bb ? u / (8 * M_PI * M_PI) : u;
        VNEAR("constant-from-u", w2.getWidth(), (uu < 0 ? -1 : 1) * S * sqrt(2 * std::fabs(uu)), 1e-12);
        VNEAR("u-roundtrip", w2.getDoubleAttr(bb ? "bisowidth" : "uisowidth"), u, 1e-12);
        if (u > 0) {        // constant width of uiso is the Debye-Waller width of two such atoms
            AtomicStructureAdapterPtr s2 = boost::make_shared<AtomicStructureAdapter>();
            for (int i = 0; i < 2; ++i) { Atom a = s->at(i); a.uij_cartn = R3::zeromatrix(); for (int j = 0; j < 3; ++j) a.uij_cartn(j, j) = uu; s2->append(a); }
            BaseBondGeneratorPtr b2 = StructureAdapterPtr(s2)->createBondGenerator();
            b2->setRmax(20); b2->selectAnchorSite(0); b2->selectSiteRange(1, 2); b2->rewind();
            if (!b2->finished()) VNEAR("uiso-meaning", w2.calculate(*b2), w0.calculate(*b2), 1e-9);
        }
    }
}

static double envref(const std::string& t, double v, double r)
{
    if (t == "scale") return v;
    if (t == "stepcut") return (v > 0 && r > v) ? 0 : 1;
    if (t == "qresolution") return v > 0 ? exp(-r * r * v * v / 2) : 1;
    if (t == "sphericalshape") return v <= 0 ? 1 : r > v ? 0 : 1 - 1.5 * r / v + 0.5 * r * r * r / v / v / v;
    return 0;
}

static void envelopes(Rng& g)
{
    const char* tp[] = {"scale", "stepcut", "qresolution", "sphericalshape"};
    const char* at[] = {"scale", "stepcut", "qdamp", "spdiameter"};
    double def[] = {1, 0, 0, 0};
    for (int k = 0; k < scale(600, 10000); ++k) {
        PDFEnvelopeOwner ow;
        int mask = g.integer(0, 15);
        double val[4];
        std::string desc;
        for (int i = 0; i < 4; ++i) {
            val[i] = g.flip(.15) ? 0 : g.flip(.1) ? -g.uni(0, 3) : i == 2 ? g.uni(0, 0.5) : g.uni(0, 12);
            if (mask >> i & 1) desc += Fmt() << " " << tp[i] << "=" << val[i];
        }
        if (!begin("envelopes" + desc)) return;
        std::vector<double> x(g.integer(0, 12)), y(x.size()), ref;
        for (auto& v : x) v = g.flip(.2) ? val[1] : g.flip(.2) ? val[3] : g.uni(0, 15);
        if (!x.empty() && g.flip()) x[0] = 0;
        for (auto& v : y) v = g.uni(-5, 5);
        ref = y;
        std::set<std::string> used;
        std::vector<int> order; for (int i = 0; i < 4; ++i) if (mask >> i & 1) order.insert(order.begin() + g.integer(0, order.size()), i);
        for (int i : order) {
            PDFEnvelopePtr e = PDFEnvelope::createByType(tp[i]);
            VEQ("envelope-default", e->getDoubleAttr(at[i]), def[i]);
            if (g.flip()) { ow.addEnvelopeByType(tp[i]); e = ow.getEnvelopeByType(tp[i]); } else ow.addEnvelope(e);
            e->setDoubleAttr(at[i], val[i]);
            VEQ("envelope-set", e->getDoubleAttr(at[i]), val[i]);
            used.insert(tp[i]);
            PDFEnvelopePtr c = e->clone();
            for (double r : x) {
                VNEAR("envelope", (*e)(r), envref(tp[i], val[i], r), 1e-12);
                VNEAR("envelope-clone", (*c)(r), envref(tp[i], val[i], r), 1e-12);
                if (i > 0 && r >= 0) VCHECK("envelope-range", (*e)(r) >= -1e-15 && (*e)(r) <= 1, "value " << (*e)(r));
            }
            for (size_t j = 0; j < x.size(); ++j) ref[j] *= envref(tp[i], val[i], x[j]);
        }
        VCHECK("envelope-types", ow.usedEnvelopeTypes() == used, "types differ");
        std::vector<double> z = ow.applyEnvelopes(x, y);
        VEQ("apply-size", z.size(), y.size());
        for (size_t j = 0; j < z.size() && j < ref.size(); ++j) VNEAR("apply", z[j], ref[j], 1e-11);
        if (!used.empty()) {
            int i = order[g.integer(0, order.size() - 1)];
            if (g.flip()) ow.popEnvelopeByType(tp[i]); else ow.popEnvelope(ow.getEnvelopeByType(tp[i]));
            used.erase(tp[i]);
            VCHECK("envelope-pop", ow.usedEnvelopeTypes() == used, "types differ after pop");
            bool thrown = false;
            try { ow.getEnvelopeByType(tp[i]); } catch (std::invalid_argument&) { thrown = true; }
            VCHECK("envelope-missing", thrown, "no error for a missing envelope");
            ow.clearEnvelopes();
            VCHECK("envelope-clear", ow.usedEnvelopeTypes().empty(), "not empty");
        }
        PDFBaselinePtr bl = PDFBaseline::createByType("linear"), bz = PDFBaseline::createByType("zero");
        double sl = g.uni(-3, 3);
        VEQ("baseline-default", bl->getDoubleAttr("slope"), 0.0);
        bl->setDoubleAttr("slope", sl);
        VEQ("baseline-set", bl->getDoubleAttr("slope"), sl);
        for (double r : x) { VNEAR("baseline-linear", (*bl)(r), sl * r, 1e-14); VEQ("baseline-zero", (*bz)(r), 0.0); VNEAR("baseline-clone", (*bl->clone())(r), sl * r, 1e-14); }
    }
}

void harness()
{
    Rng g(seed);
    profiles(g);
    widths(g);
    envelopes(g);
}
