#include "pq.hpp"
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/PDFUtils.hpp>
const char* const vh_rule() { return "PDFCalculator and DebyePDFCalculator over random and boundary ranges, steps (dyadic and decimal), 2^n grids, extensions, Q limits, profiles and widths on clusters and crystals: grids, lengths, values at every grid point against direct sums and direct sine transforms; FFT utilities against direct sums"; }
using namespace vh;
static const double PI = acos(-1.0);

// number k of steps so that the multiples of dr below x are those with index < k (upper) ; unsure when x is a multiple of dr up to round-off
static bool nearmult(double x, double dr) { double q = x / dr; return fabs(q - floor(q + 0.5)) < 1e-9 * (1 + fabs(q)); }

// expected grid [lo, hi); the ends may be off by one point when the bound is a multiple of the step only up to round-off
static void checkgrid(const char* key, const QuantityType& r, double lo, double hi, double dr, bool dyadic)
{
    long i0 = (long)ceil(lo / dr), i1 = (long)ceil(hi / dr);
    bool ulo = nearmult(lo, dr), uhi = nearmult(hi, dr);
    if (ulo) i0 = (long)floor(lo / dr + 0.5);
    if (uhi) i1 = (long)floor(hi / dr + 0.5);
    if (uhi && !dyadic && (long)r.size() == i1 - i0 + 1) ++i1;
    if (i1 < i0) i1 = i0;
    if ((long)r.size() != i1 - i0) { fail(key, Fmt() << "grid of " << (long)r.size() << " points for range " << lo << " .. " << hi << " step " << dr << ", expected " << i1 - i0); return; }
    for (long i = 0; i < (long)r.size(); ++i)
        if (!(fabs(r[i] - (i0 + i) * dr) <= 1e-12 * (1 + fabs(r[i])))) { fail(key, Fmt() << "point " << i << " of the grid is " << r[i] << ", expected " << (i0 + i) * dr); return; }
}

static void sinetrans(const QuantityType& g, long off, double dr, long n2, QuantityType& f)
{
    f.assign(n2, 0.0);
    for (long k = 0; k < n2; ++k) for (size_t i = 0; i < g.size(); ++i) f[k] += g[i] * sin(PI * (double)k * (double)(off + i) / n2) * dr;
}

static void nearv(const char* key, const QuantityType& a, const QuantityType& b, double tol)
{
    if (a.size() != b.size()) { fail(key, Fmt() << "length " << (long)a.size() << ", expected " << (long)b.size()); return; }
    double m = 0;
    for (double x : b) m = std::max(m, fabs(x));
    for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i]) <= tol * (1e-3 + m))) { fail(key, Fmt() << "at " << (long)i << " of " << (long)a.size() << ": " << a[i] << ", expected " << b[i]); return; }
}

struct Conf { double rmin, rmax, dr; bool dyadic; };

static Conf randconf(Rng& g, int k)
{
    Conf c; c.dyadic = false;
    switch (k % 6) {
        case 0: c.dr = 1.0 / (1 << g.integer(1, 6)); c.dyadic = true; c.rmin = g.integer(0, 40) * c.dr; c.rmax = c.rmin + g.integer(-2, 300) * c.dr; break;
        case 1: c.dr = 1.0 / (1 << g.integer(1, 6)); c.dyadic = true; c.rmin = 0; c.rmax = (1 << g.integer(0, 8)) * c.dr; break;
        case 2: c.dr = g.integer(1, 20) * 0.01; c.rmin = g.integer(0, 30) * c.dr; c.rmax = g.integer(0, 200) * c.dr; break;
        case 3: c.dr = g.integer(1, 30) * 0.01; c.rmin = 0; c.rmax = g.uni(0.1, 9); break;
        case 4: c.dr = g.uni(0.02, 0.6); c.rmin = g.uni(0, 3); c.rmax = c.rmin + g.uni(0, 3); break;
        default: c.dr = g.uni(0.02, 0.3); c.rmin = g.flip() ? 0 : g.uni(0, 6); c.rmax = g.uni(0, 9); break;
    }
    if (c.rmax < 0) c.rmax = 0;
    if (c.dr < 0.02 && c.rmax > 4) c.dr *= 4;
    return c;
}

template <class T> static void common(const char* key, T& pc, const Conf& c)
{
    QuantityType r = pc.getRgrid();
    checkgrid(key, r, c.rmin, c.rmax, c.dr, c.dyadic);
    VEQ(std::string(key) + "-lenpdf", pc.getPDF().size(), r.size());
    VEQ(std::string(key) + "-lenrdf", pc.getRDF().size(), r.size());
    VEQ(std::string(key) + "-lenrdfperr", pc.getRDFperR().size(), r.size());
    QuantityType q = pc.getQgrid(), F = pc.getF();
    VEQ(std::string(key) + "-lenf", F.size(), q.size());
    double dq = pc.getQstep(), qm = pc.getQmax();
    for (size_t i = 0; i < q.size(); ++i) if (!close(q[i], i * dq, 1e-12)) { fail(std::string(key) + "-qgrid", "Q grid is not a multiple of the step"); break; }
    if (dq > 0) {
        long n = (long)ceil(qm / dq), n1 = nearmult(qm, dq) ? (long)floor(qm / dq + 0.5) : n;
        VCHECK(std::string(key) + "-qgridlen", (long)q.size() == n1 || (long)q.size() == n, "Q grid of " << (long)q.size() << " points for Qmax " << qm << " step " << dq);
    }
}

// prior: an evaluation with another configuration first
static void pdf(Rng& g, int k)
{
    Conf c = randconf(g, k);
    int n = g.integer(g.flip(0.05) ? 0 : 1, 5);
    std::vector<Atom> v = randatoms(g, n, 4);
    bool per = g.flip(0.25);
    Stru s = per ? periodic(randcell(g, 3, 6), v) : atomic(v);
    double fwhm = g.flip(0.15) ? 0 : g.uni(0.03, 0.5), prec = pow(10, -g.uni(2, 9)), ext = g.flip(0.3) ? 0 : g.flip(0.3) ? g.uni(0, 2) : 10;
    double qmax = g.flip(0.4) ? 0 : g.uni(3, 25), qmin = g.flip(0.6) ? 0 : g.uni(0, 3);
    int cal = g.integer(0, 1);
    if (!begin(Fmt() << "PDF " << c.rmin << " .. " << c.rmax << " step " << c.dr << " maxext " << ext << " qmin " << qmin << " qmax " << qmax << " fwhm " << fwhm << " precision " << prec << " evaluator " << cal << " " << s.desc)) return;
    PDFCalculator pc;
    pc.setEvaluatorType(cal ? OPTIMIZED : BASIC);
    pc.setRstep(c.dr); pc.setRmin(c.rmin); pc.setRmax(c.rmax); pc.setMaxExtension(ext); pc.setQmax(qmax); pc.setQmin(qmin);
    pc.setPeakProfileByType(g.flip() ? "gaussian" : "croppedgaussian");
    pc.getPeakProfile()->setPrecision(prec);
    pc.setPeakWidthModelByType("constant"); pc.getPeakWidthModel()->setDoubleAttr("width", fwhm);
    if (g.flip()) pc.addEnvelopeByType("sphericalshape");
    if (g.flip(0.3)) pc.setDoubleAttr("scale", 2.5);
    pc.eval(s.p);
    if (g.flip(0.3)) { Stru t = edited(g, s); pc.eval(t.p); pc.eval(s.p); }
    common("pdf", pc, c);
    QuantityType re = pc.getExtendedRgrid(), r = pc.getRgrid();
    double elo = pc.getExtendedRmin(), ehi = pc.getExtendedRmax();
    if (r.empty()) { VCHECK("ext-empty", re.empty(), "extended grid of an empty range has " << (long)re.size()); return; }
    checkgrid("ext", re, elo, ehi, c.dr, true);
    VCHECK("ext-covers", !re.empty() && re.front() <= r.front() + 1e-9 && re.back() >= r.back() - 1e-9, "extended grid does not cover the range");
    VCHECK("ext-nonneg", elo >= 0, "extended range starts at " << elo);
    double qnyq = PI / c.dr, qeff = (qmax > 0 && qmax < qnyq) ? qmax : qnyq, pk;
    {   // extension by six ripples, shared with the peak tails
        double hb = std::max(fabs(pc.getPeakProfile()->xboundlo(fwhm)), fabs(pc.getPeakProfile()->xboundhi(fwhm)));
        double rip = qeff < qnyq * (1 - 1e-7) ? 6 * 2 * PI / qeff : 0;
        pk = hb;
        if (rip + hb > ext) { rip *= ext / (rip + hb); pk = ext - rip; }
        double a = std::max(0.0, c.rmin - rip), b = c.rmax + rip;
        VCHECK("ext-lo", elo >= a - 1e-6 && elo < a + c.dr + 1e-6, "extended range starts at " << elo << ", expected the first step from " << a);
        VCHECK("ext-hi", ehi >= b - 1e-6 && ehi < b + c.dr + 1e-6, "extended range ends at " << ehi << ", expected " << b);
        VNEAR("ext-attr", pc.getDoubleAttr("extendedrmin"), elo, 1e-14); VNEAR("ext-attr", pc.getDoubleAttr("extendedrmax"), ehi, 1e-14);
        double clo = std::max(0.0, c.rmin - rip - pk), chi = c.rmax + rip + pk;
        long i0 = (long)ceil(clo / c.dr - 1e-9), i1 = (long)ceil(chi / c.dr - 1e-9), len = (long)pc.value().size();
        VCHECK("calc-len", labs(len - (i1 - i0)) <= 2, "value of " << len << " points, expected " << i1 - i0);
    }
    // values against the direct sum of peaks
    double nrm = 0; int ns = s.p->countSites();
    ScatteringFactorTablePtr sf = pc.getScatteringFactorTable();
    double totocc = 0, tots = 0, big = 0;
    std::vector<double> f(ns);
    for (int i = 0; i < ns; ++i) { f[i] = sf->lookup(s.p->siteAtomType(i)) * s.p->siteOccupancy(i); totocc += s.p->siteOccupancy(i) * s.p->siteMultiplicity(i); tots += f[i] * s.p->siteMultiplicity(i); }
    nrm = totocc * tots == 0 ? 0 : totocc / (tots * tots);
    QuantityType rdf(re.size(), 0.0), tol(re.size(), 0.0);
    const PeakProfile& pkf = *pc.getPeakProfile();
    BaseBondGeneratorPtr b = s.p->createBondGenerator();
    double hb = std::max(fabs(pkf.xboundlo(fwhm)), fabs(pkf.xboundhi(fwhm)));
    b->setRmin(0); b->setRmax(ehi + hb + 1);
    for (int i = 0; i < ns; ++i) {
        b->selectAnchorSite(i); b->selectSiteRange(0, ns);
        for (b->rewind(); !b->finished(); b->next()) {
            double d = b->distance();
            if (d < elo - pk - 2 * c.dr || d > ehi + pk + 2 * c.dr || d < 1e-8) continue;
            double sc = f[i] * f[b->site1()] * b->multiplicity() * nrm;
            // a peak within a step of the limits of the calculated range may be in or out
            bool edge = fabs(d - (elo - pk)) < 2 * c.dr || fabs(d - (ehi + pk)) < 2 * c.dr;
            for (size_t m = 0; m < re.size(); ++m) {
                double x = re[m] - d;
                if (edge && fabs(x) < hb + c.dr) { rdf[m] = std::numeric_limits<double>::quiet_NaN(); continue; }
                double hb1 = hb;
                if (fabs(x) > hb - c.dr - 1e-9 && fabs(x) < hb + c.dr + 1e-9) tol[m] += 1.01 * fabs(sc * pkf(0, fwhm) * (x / d + 1)) * prec;
                if (fabs(x) <= hb1) rdf[m] += sc * pkf(x, fwhm) * (x / d + 1);
            }
            big = std::max(big, fabs(sc) * pkf(0, fwhm));
        }
    }
    QuantityType got = pc.getExtendedRDF();
    VEQ("lenext", got.size(), re.size());
    for (size_t m = 0; m < re.size() && m < got.size(); ++m)
        if (rdf[m] == rdf[m] && !(fabs(got[m] - rdf[m]) <= 1e-9 * fabs(rdf[m]) + tol[m] + 1e-10 * big * (re[m] + 1) + 1e-13)) {
            fail("rdf", Fmt() << "RDF at " << re[m] << " is " << got[m] << ", expected " << rdf[m]); break; }
    QuantityType rp = pc.getExtendedRDFperR(), rx = got, gx;
    for (size_t m = 0; m < rx.size(); ++m) rx[m] = re[m] > 0 ? got[m] / re[m] : 0;
    nearv("rdfperr", rp, rx, 1e-12);
    size_t off = (size_t)floor((r.front() - re.front()) / c.dr + 0.5);
    gx.assign(got.begin() + off, got.begin() + off + r.size()); nearv("cut-rdf", pc.getRDF(), gx, 1e-14);
    gx.assign(rp.begin() + off, rp.begin() + off + r.size()); nearv("cut-rdfperr", pc.getRDFperR(), gx, 1e-14);
    QuantityType pe = pc.getExtendedPDF();
    gx.assign(pe.begin() + off, pe.begin() + off + r.size()); nearv("cut-pdf", pc.getPDF(), gx, 1e-14);
    // F and PDF
    double slope = per ? -4 * PI * s.p->numberDensity() : 0;
    for (size_t m = 0; m < rp.size(); ++m) rp[m] += slope * re[m];
    long o = (long)floor(re.front() / c.dr + 0.5), np = o + (long)re.size(), n2 = 1;
    while (n2 < np) n2 *= 2;
    if (n2 > 512) return;
    QuantityType F, G, Fe = pc.getExtendedF();
    sinetrans(rp, o, c.dr, n2, F);
    nearv("F", Fe, F, 1e-9);
    double dq = PI / (n2 * c.dr);
    VNEAR("qstep", pc.getQstep(), dq, 1e-12);
    bool skip = !(qeff < qnyq * (1 - 1e-9)) && !(qmin > dq * (1 + 1e-9));
    if (skip) G = rp;
    else {
        for (long i = 0; i < n2; ++i) {
            if (fabs(i * dq - qmin) < 1e-7 || fabs(i * dq - qeff) < 1e-7) return;
            if (i * dq < qmin || i * dq > qeff) F[i] = 0;
        }
        QuantityType h;
        sinetrans(F, 0, dq, n2, h);
        G.assign(h.begin() + o, h.begin() + np);
        for (double& x : G) x *= 2 / PI;
    }
    for (size_t m = 0; m < G.size(); ++m) {
        std::set<std::string> e = pc.usedEnvelopeTypes();
        for (auto& t : e) G[m] *= (*pc.getEnvelopeByType(t))(re[m]);
    }
    nearv("G", pe, G, 1e-8);
}

static void debye(Rng& g, int k)
{
    Conf c = randconf(g, k);
    if (c.rmax / c.dr > 120 && g.flip(0.8)) c.rmax = c.rmin + 60 * c.dr;
    std::vector<Atom> v = randatoms(g, g.integer(1, 4), 4);
    Stru s = atomic(v);
    double ext = g.flip(0.5) ? 0 : g.flip(0.5) ? g.uni(0, 2) : 10, qmax = g.flip(0.05) ? 0 : g.uni(1, 25), qmin = g.flip(0.6) ? 0 : g.uni(0, 4), dq = g.flip() ? 0 : g.uni(0.01, 0.3);
    if (!begin(Fmt() << "DebyePDF " << c.rmin << " .. " << c.rmax << " step " << c.dr << " maxext " << ext << " qmin " << qmin << " qmax " << qmax << " qstep " << dq << " " << s.desc)) return;
    DebyePDFCalculator pc;
    for (int rep = 0; rep < 2; ++rep) {
        int ord[] = {0, 1, 2, 3, 4, 5, 6};
        for (int i = 6; i > 0; --i) std::swap(ord[i], ord[g.integer(0, i)]);
        for (int o : ord) switch (o) {
            case 0: pc.setRstep(c.dr); break;
            case 1: pc.setRmin(c.rmin); break;
            case 2: pc.setRmax(c.rmax); break;
            case 3: pc.setMaxExtension(ext); break;
            case 4: pc.setQmax(qmax); break;
            case 5: pc.setQmin(qmin); break;
            case 6: if (dq > 0) pc.setQstep(dq); else if (rep == 0) pc.setOptimumQstep(); break;
        }
        pc.eval(s.p);
        common("debye", pc, c);
        VCHECK("debye-qstep", qmax == 0 || pc.getQstep() <= PI / pc.getDoubleAttr("extendedrmax") * (1 + 1e-9) || pc.getQstep() <= qmax / 4 * (1 + 1e-9), "qstep " << pc.getQstep() << " does not cover the range to " << pc.getDoubleAttr("extendedrmax"));
        QuantityType r = pc.getRgrid(), F = pc.getF(), G, h, R = pc.getRDFperR();
        if (r.empty() || pc.getQstep() <= 0) continue;
        VEQ("debye-value", pc.value().size(), pc.getQgrid().size());
        long nf = std::max((long)F.size(), (long)ceil(PI / c.dr / pc.getQstep() - 1e-9)), n2 = 1;
        while (n2 < nf) n2 *= 2;
        bool amb = nearmult(PI / c.dr / pc.getQstep(), 1) && (nf & (nf - 1)) == 0;
        for (int w = 0; w < 2 && !amb && n2 <= 1024; ++w) {
            QuantityType f1 = F;
            bool skip = false;
            for (size_t i = 0; i < f1.size(); ++i) { double q = i * pc.getQstep(); if (w && fabs(q - qmin) < 1e-7 && i > 0) skip = true; if (w && q < qmin) f1[i] = 0; }
            sinetrans(f1, 0, pc.getQstep(), n2, h);
            h.push_back(0);
            double dp = PI / (n2 * pc.getQstep());
            G.clear();
            for (double x : r) {
                long i = (long)floor(x / dp + 1e-12);
                if (i + 1 >= (long)h.size()) { skip = true; break; }
                double t = x / dp - i;
                double y = ((1 - t) * h[i] + t * h[i + 1]) * 2 / PI;
                if (w) for (auto& e : pc.usedEnvelopeTypes()) y *= (*pc.getEnvelopeByType(e))(x);
                G.push_back(y);
            }
            if (!skip) nearv(w ? "debye-G" : "debye-rdfperr", w ? pc.getPDF() : R, G, 1e-8);
        }
        if (rep == 0 && g.flip()) { Stru t = edited(g, s); pc.eval(t.p); pc.eval(s.p); common("debye-again", pc, c); }
        Conf c2 = randconf(g, k + 1 + g.integer(0, 5));
        c = c2;
        if (c.rmax / c.dr > 120) c.rmax = c.rmin + 60 * c.dr;
    }
}

static void fft(Rng& g, int k)
{
    double dr = g.uni(0.01, 1);
    int off = g.flip() ? 0 : g.integer(0, 40), n = k % 5 ? g.integer(0, 100) : (1 << g.integer(0, 6)) - off;
    if (n < 0) n = 0;
    if (!begin(Fmt() << "fft of " << n << " points from " << off << " step " << dr, n > 0)) return;
    QuantityType x(n), f, ref, b;
    for (double& y : x) y = g.uni(-1, 1);
    if (off == 0 && n > 0) x[0] = 0;       // the transformed function is odd
    f = fftgtof(x, dr, off * dr);
    if (n == 0) { VCHECK("fft-empty", f.empty(), "transform of nothing has " << (long)f.size()); return; }
    long n2 = 1;
    while (n2 < off + n) n2 *= 2;
    sinetrans(x, off, dr, n2, ref);
    nearv("fftgtof", f, ref, 1e-10);
    double dq = PI / (n2 * dr);
    b = fftftog(f, dq);
    if (off == 0) x[0] = 0;
    QuantityType back(n2, 0.0);
    std::copy(x.begin(), x.end(), back.begin() + off);
    nearv("fft-roundtrip", b, back, 1e-9);
}

void harness()
{
    Rng g(seed);
    for (int k = 0; k < scale(700, 12000); ++k) { pdf(g, k); debye(g, k); fft(g, k); }
}
