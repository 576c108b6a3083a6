#include "pq.hpp"
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
const char* const vh_rule() { return "random clusters, periodic cells and crystals (0..7 sites, partial occupancies), Q and r ranges, steps (set, or left to the calculator), scattering factors, peak widths, precisions and masks, for the plain Debye sum (also with factors that depend on the site and vanish or change sign) and the PDF calculator; histories of edits with either evaluator; oracle: the Debye formula over brute-force pairs"; }
using namespace vh;

class Plain : public BaseDebyeSum
{
    public:
        Plain() : mode(0) {}
        int mode;
        double f(const std::string& t, double occ, double q) const
        {
            double z = t == "C" ? 6 : t == "O" ? 8 : t == "Na1+" ? 10 : 18;
            return mode == 0 ? 1.0 : mode == 1 ? occ * z : mode == 2 ? occ * z * std::exp(-q * q / 300) : occ * (z - 0.8 * q);
        }
    protected:
        virtual double sfSiteAtQ(int i, const double& q) const { return f(mstructure->siteAtomType(i), mstructure->siteOccupancy(i), q); }
};

typedef std::vector<std::vector<char> > Mask;
struct Ref { std::vector<double> v, f, slack; };

// steps from the limits, with the tolerance of the library
static int steps(double x, double dq) { return (int)std::ceil(x / dq); }

template <class SF> static Ref debye(const Stru& s, SF sf, double sig, double qmin, double dq, int n, double rlo, double rhi, double prec, const Mask& m)
{
    Ref r; r.v.assign(n, 0.0); r.f.assign(n, 0.0); r.slack.assign(n, 0.0);
    int ns = s.m.sites.size();
    int k0 = steps(qmin, dq);
    if (std::fabs(qmin - (k0 - 1) * dq) < 1e-9) --k0;
    std::vector<std::vector<double> > f(ns, std::vector<double>(n));
    for (int i = 0; i < ns; ++i) for (int k = 0; k < n; ++k) f[i][k] = sf(i, k * dq);
    for (auto& b : s.m.all(std::max(0.0, rlo), rhi)) {
        if (!m[b.i0][b.i1]) continue;
        double u = s.p->siteCartesianUij(b.i0)(0, 0) + s.p->siteCartesianUij(b.i1)(0, 0);
        double s2 = sig >= 0 ? sig * sig : std::max(0.0, u);
        int mult = s.m.sites[b.i0].pos.size();
        bool cut = false;
        for (int k = std::max(0, k0); k < n; ++k) {
            double q = k * dq, sc = mult * std::exp(-s2 * q * q / 2) * f[b.i0][k] * f[b.i1][k] / b.d;
            cut = std::fabs(sc) < 1.001 * prec;
            if (cut) r.slack[k] += prec > 0 ? 1.01 * std::max(prec, std::fabs(sc)) : 0;
            r.v[k] += sc * std::sin(q * b.d);
        }
    }
    double to = 0;
    for (int i = 0; i < ns; ++i) to += s.m.sites[i].occ * s.m.sites[i].pos.size();
    for (int k = std::max(0, k0); k < n; ++k) {
        double a = 0;
        for (int i = 0; i < ns; ++i) a += f[i][k] * s.m.sites[i].pos.size();
        a /= to > 0 ? to : 1.0;
        double sc = a * to == 0 ? 0 : 1 / (a * a * to);
        r.f[k] = r.v[k] * sc;
    }
    return r;
}

static void compare(const BaseDebyeSum& c, const Ref& r, double dq, const std::string& how)
{
    int n = r.v.size();
    QuantityType v = c.value(), f = c.getF(), q = c.getQgrid();
    VEQ("value-size-" + how, (int)v.size(), n); VEQ("f-size-" + how, (int)f.size(), n); VEQ("grid-size-" + how, (int)q.size(), n);
    if ((int)v.size() != n || (int)f.size() != n || (int)q.size() != n) return;
    double mx = 1, mf = 1;
    for (int k = 0; k < n; ++k) { mx = std::max(mx, std::fabs(r.v[k])); mf = std::max(mf, std::fabs(r.f[k])); }
    for (int k = 0; k < n; ++k) {
        VNEAR("grid-" + how, q[k], k * dq, 1e-12 * (1 + k * dq));
        VNEAR("value-" + how, v[k], r.v[k], 1e-9 * mx + r.slack[k]);
        if (r.slack[k] == 0 && std::fabs(r.f[k]) < 1e4) VNEAR("f-" + how, f[k], r.f[k], 1e-7 * mf);
    }
}

static PeakWidthModelPtr width(Rng& g, double& sig, std::string& hist)
{
    if (g.flip()) { sig = -1; hist += "debye-waller "; return PeakWidthModelPtr(new DebyeWallerPeakWidth); }
    ConstantPeakWidth* p = new ConstantPeakWidth; PeakWidthModelPtr rv(p);
    double w = g.flip(.2) ? 0 : g.uni(.02, .4);
    p->setWidth(w); sig = w / (2 * std::sqrt(2 * std::log(2.0)));
    hist += Fmt() << "width " << w << " ";
    return rv;
}

void harness()
{
    Rng g(seed);
    for (long it = 0; it < scale(200, 2500); ++it) {
        int kind = g.integer(0, 2);
        Stru s = randstru(g, kind, 0, 7);
        Plain c;
        c.mode = g.integer(0, 3);
        c.setEvaluatorType(g.flip() ? BASIC : OPTIMIZED);
        double sig, dq = 0.1, qmin = 0, qmax = 10, rmin = 0, rmax = 5, prec = 1e-6;
        std::string hist = Fmt() << "mode " << c.mode << " ";
        c.setPeakWidthModel(width(g, sig, hist));
        c.setRmax(rmax);
        for (int st = 0; st < 3; ++st) {
            if (!st || g.flip(.4)) { dq = g.flip() ? 0.1 * g.integer(1, 8) : g.uni(.03, 1.2); c.setQstep(dq); }
            if (!st || g.flip(.4)) { qmax = g.flip(.1) ? 0 : g.flip() ? dq * g.integer(1, 40) : g.uni(1, 25); c.setQmax(qmax); }
            if (!st || g.flip(.4)) { qmin = g.flip() ? 0 : g.flip() ? dq * g.integer(1, 20) : g.uni(0, 5); c.setQmin(qmin); }
            if (!st || g.flip(.4)) { rmin = g.flip() ? 0 : g.uni(0, 2); rmax = g.uni(1.5, kind ? 4 : 8); c.setRmin(rmin); c.setRmax(rmax); }
            if (!st || g.flip(.3)) { prec = g.flip() ? 0 : g.flip() ? 1e-6 : 1e-2; c.setDebyePrecision(prec); }
            int n = s.m.sites.size();
            Mask m(n, std::vector<char>(n, 1));
            c.maskAllPairs(true);
            std::string h = hist + (std::string)(Fmt() << "q " << qmin << ".." << qmax << " by " << dq << " r " << rmin << ".." << rmax << " precision " << prec);
            if (n && g.flip(.3)) { int i = g.integer(0, n - 1), j = g.integer(0, n - 1); c.setPairMask(i, j, false); m[i][j] = m[j][i] = 0; h += Fmt() << " mask " << i << "-" << j; }
            double x = qmax / dq; int np = steps(qmax, dq);
            bool un = (x != np && std::fabs(x - std::floor(x + .5)) < 1e-9) || !s.m.clear(rmax) || (rmin > 0 && !s.m.clear(rmin));
            if (un) continue;
            if (!begin(s.desc + " " + h, n > 1)) return;
            c.eval(s.p);
            auto sf = [&](int i, double q) { return c.f(s.m.sites[i].type, s.m.sites[i].occ, q); };
            Ref r = debye(s, sf, sig, qmin, dq, np, rmin, rmax, prec, m);
            compare(c, r, dq, c.getEvaluatorType() == BASIC ? "full" : "fast");
            hist += "eval; ";
            if (kind != 2 && g.flip(.7)) { Stru s2 = edited(g, s); s2.m = s.m; modelfrom(s2); s = s2; hist += "edited "; }
            if (g.flip(.2)) c.setPeakWidthModel(width(g, sig, hist));
            if (g.flip(.2)) { c.mode = g.integer(0, 3); c.ticker().click(); hist += Fmt() << "mode " << c.mode << " "; }
        }
    }
    const char* sfs[] = {"xray", "neutron", "electronnumber"};
    for (long it = 0; it < scale(120, 1500); ++it) {
        int kind = g.integer(0, 2);
        Stru s = randstru(g, kind, 0, 7);
        DebyePDFCalculator c;
        c.setEvaluatorType(g.flip() ? BASIC : OPTIMIZED);
        double sig;
        std::string hist;
        c.setPeakWidthModel(width(g, sig, hist));
        int t = g.integer(0, 2);
        for (int st = 0; st < 3; ++st) {
            if (!st || g.flip(.4)) c.setScatteringFactorTableByType(sfs[t = g.integer(0, 2)]);
            if (!st || g.flip(.5)) c.setQmax(g.flip(.1) ? 0 : g.uni(2, 25));
            if (!st || g.flip(.5)) c.setRmax(g.uni(1.5, kind ? 3.5 : 8));
            if (g.flip(.3)) c.setRmin(g.uni(0, 1.4));
            if (g.flip(.3)) c.setRstep(g.uni(.01, .3));
            if (g.flip(.3)) c.setQmin(g.flip() ? 0 : g.uni(0, 3));
            if (g.flip(.3)) c.setMaxExtension(g.flip(.3) ? 0 : g.uni(0, 5));
            if (g.flip(.3)) c.setQstep(g.uni(.01, .5));
            if (g.flip(.2)) c.setOptimumQstep();
            double prec = g.flip() ? 0 : 1e-6;
            c.setDebyePrecision(prec);
            // (the step follows the extended range that is settled when evaluated)
            int n = s.m.sites.size();
            Mask m(n, std::vector<char>(n, 1));
            if (!begin(s.desc + " PDF " + hist + sfs[t] + (std::string)(Fmt() << " qmax " << c.getQmax() << " qstep " << c.getQstep() << " r " << c.getRmin() << ".." << c.getRmax()), n > 1)) return;
            c.eval(s.p);
            double dq = c.getQstep(), qmax = c.getQmax(), x = qmax / dq, lo = c.getDoubleAttr("extendedrmin"), hi = c.getDoubleAttr("extendedrmax");
            int np = steps(qmax, dq);
            (void) x;
            if (!s.m.clear(hi) || (lo > 0 && !s.m.clear(lo))) continue;
            auto sf = [&](int i, double q) { return c.getScatteringFactorTable()->lookup(s.m.sites[i].type, q) * s.m.sites[i].occ; };
            Ref r = debye(s, sf, sig, 0, dq, np, lo, hi, prec, m);
            compare(c, r, dq, "pdf");
            QuantityType rg = c.getRgrid();
            VCHECK("range-pdf", rg.empty() || (lo <= rg.front() + 1e-9 && hi >= rg.back() - 1e-9), "pairs " << lo << ".." << hi << " do not cover the range asked for");
            if (hi > 0) VCHECK("optimum-step", dq <= M_PI / hi * (1 + 1e-12) || qmax * hi / M_PI <= 4, "step " << dq << " is too coarse for " << hi);
            hist += "eval; ";
            if (kind != 2 && g.flip(.7)) { Stru s2 = edited(g, s); s2.m = s.m; modelfrom(s2); s = s2; hist += "edited "; }
            if (g.flip(.2)) c.setPeakWidthModel(width(g, sig, hist));
        }
    }
}
