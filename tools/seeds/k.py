DBY = r'''
#include <diffpy/srreal/BaseDebyeSum.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <cmath>
''' + HIST + r'''
static Atom dsite(const char* tp, double x, double y, double z, double occ = 1)
{
    Atom a; a.atomtype = tp; a.xyz_cartn = R3::Vector(x, y, z); a.occupancy = occ; a.uij_cartn = R3::zeromatrix();
    return a;
}
class Sum : public BaseDebyeSum
{
    public:
        Sum(double c = 1, double o = 1) : fc(c), fo(o) { setPeakWidthModelByType("constant"); setRmax(10); setQmax(6); setQstep(0.1); }
        double fc, fo;
    protected:
        virtual double sfSiteAtQ(int i, const double& q) const
        { return (mstructure->siteAtomType(i) == "C" ? fc : fo) * mstructure->siteOccupancy(i); }
};
'''
seed("C21-multiplicity-char", "C21", [("srreal/BaseDebyeSum.cpp", "    vector<int> tpmultipl(ntps, 0);", "    vector<signed char> tpmultipl(ntps, 0);")],
     "more than 127 atoms of one type in the cell", "the average scattering factor is wrong", DBY + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    for (int i = 0; i < 130; ++i) s->append(dsite("C", 1.5 * (i % 12), 2.0 * (i / 12), 0));
    Sum c; c.eval(s);
    OK(std::fabs(c.getF()[20] - c.value()[20] / 130) < 1e-9);
    return bad;
}
''')
seed("C21-negative-average", "C21", [("srreal/BaseDebyeSum.cpp", "(sfavg * totocc) == 0 ?", "(sfavg * totocc) <= 0 ?")],
     "a negative average scattering factor", "F is zero at those points", DBY + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    s->append(dsite("C", 0, 0, 0)); s->append(dsite("O", 1.5, 0, 0));
    Sum c(-2, 1); c.eval(s);
    OK(std::fabs(c.getF()[20] - c.value()[20] / 0.25 / 2) < 1e-9 && std::fabs(c.value()[20]) > 0.1);
    return bad;
}
''')
seed("C21-close-pair", "C21", [("srreal/BaseDebyeSum.cpp", "    if (eps_eq(0.0, dist))  return;", "    if (eps_eq(0.0, dist, 0.01))  return;")],
     "two split sites closer than 0.01", "their pair is left out", DBY + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    s->append(dsite("C", 0, 0, 0, 0.5)); s->append(dsite("C", 0.008, 0, 0, 0.5));
    Sum c; c.eval(s);
    OK(std::fabs(c.value()[20] - 2 * 0.25 * std::sin(2 * 0.008) / 0.008) < 1e-9);
    return bad;
}
''')
seed("C21-first-step", "C21", [("srreal/PDFUtils.ipp", "    if (eps_eq(qmin, (rv - 1) * qstep))  rv -= 1;\n    return rv;", "    if (eps_eq(qmin, rv * qstep))  return rv;\n    return rv - 1;")],
     "Qmin between two grid points", "one more point below Qmin", DBY + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    s->append(dsite("C", 0, 0, 0)); s->append(dsite("C", 1.5, 0, 0));
    Sum c; c.setQmin(0.97); c.eval(s);
    OK(c.value()[9] == 0 && c.value()[10] != 0);
    return bad;
}
''')
seed("C21-damping-large", "C21", [("srreal/BaseDebyeSum.cpp", "        const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));", "        const double dwx = 0.5 * dwsigma * dwsigma * q * q;\n        const double dwscale = dwx < 8 ? exp(-dwx) : 0.0;")],
     "wide peaks, high Q and a precision finer than exp(-8)", "terms are dropped above the requested precision", DBY + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    s->append(dsite("C", 0, 0, 0)); s->append(dsite("C", 1.5, 0, 0));
    Sum c(10, 10); boost::shared_ptr<ConstantPeakWidth> w(new ConstantPeakWidth); w->setWidth(2.0); c.setPeakWidthModel(w);
    c.eval(s);
    double q = 5.0, sg = 2.0 / (2 * std::sqrt(2 * M_LN2));
    double e = 200 * std::exp(-0.5 * sg * sg * q * q) * std::sin(q * 1.5) / 1.5;
    OK(std::fabs(e) > 1e-4 && std::fabs(c.value()[50] - e) < 1e-6);
    return bad;
}
''')
