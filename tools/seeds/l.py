CRY = r'''
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <cmath>
''' + HIST + r'''
static CrystalStructureAdapterPtr cry(double a, double b, double c, double al = 90, double be = 90, double ga = 90)
{
    CrystalStructureAdapterPtr s(new CrystalStructureAdapter);
    s->setLatPar(a, b, c, al, be, ga);
    return s;
}
static void op(CrystalStructureAdapterPtr s, const char* r, double x = 0, double y = 0, double z = 0)
{
    R3::Matrix m = R3::zeromatrix();
    for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = r[i] == '-' ? -1 : r[i] - '0';
    s->addSymOp(m, R3::Vector(x, y, z));
}
static Atom csite(double x, double y, double z)
{
    Atom a; a.atomtype = "C"; a.xyz_cartn = R3::Vector(x, y, z); a.occupancy = 1; a.uij_cartn = R3::zeromatrix();
    return a;
}
'''
seed("C16-wrap-floor", "C16", [("srreal/CrystalStructureAdapter.cpp", "        dxyz = ai->xyz_cartn - a0.xyz_cartn;\n        dxyz[0] -= round(dxyz[0]);", "        dxyz = ai->xyz_cartn - a0.xyz_cartn;\n        dxyz[0] -= floor(dxyz[0] + symeps);")],
     "images that are the same up to a lattice vector and noise larger than the tolerance in fractional units", "a site is listed twice", CRY + r'''
int main()
{
    CrystalStructureAdapterPtr s = cry(0.2 * 50, 10, 10);
    s->setSymmetryPrecision(0.01);
    op(s, "100010001"); op(s, "-00010001"); op(s, "100010001", 1);
    s->append(csite(5.004, 1, 1)); s->append(csite(1.0, 2, 2));
    OK(s->siteMultiplicity(0) == 1);
    CrystalStructureAdapterPtr t = cry(0.5, 10, 10);
    t->setSymmetryPrecision(0.01);
    op(t, "100010001"); op(t, "-00010001");
    t->append(csite(0.2465, 1, 1));
    OK(t->siteMultiplicity(0) == 1);
    return bad;
}
''')
seed("C16-clear-kept", "C16", [("srreal/CrystalStructureAdapter.cpp", "    msymops.clear();\n    msymmetry_cached = false;", "    if (!msymops.empty())  msymmetry_cached = msymops.size() == 1;\n    msymops.clear();")],
     "a single operation that is not the identity, removed after its images were used", "the image is still used", CRY + r'''
int main()
{
    CrystalStructureAdapterPtr s = cry(4, 4, 4);
    op(s, "100010001", 0.5);
    s->append(csite(1, 1, 1));
    OK(std::fabs(s->getEquivalentAtoms(0)[0].xyz_cartn[0] - 3) < 1e-9);
    s->clearSymOps();
    OK(std::fabs(s->getEquivalentAtoms(0)[0].xyz_cartn[0] - 1) < 1e-9);
    return bad;
}
''')
seed("C16-precision-looser", "C16", [("srreal/CrystalStructureAdapter.cpp", "    if (eps != msymmetry_precision)  msymmetry_cached = false;", "    if (eps > msymmetry_precision)  msymmetry_cached = false;")],
     "a tolerance made tighter after images were merged", "images stay merged", CRY + r'''
int main()
{
    CrystalStructureAdapterPtr s = cry(4, 4, 4);
    s->setSymmetryPrecision(0.1);
    op(s, "100010001"); op(s, "-00010001");
    s->append(csite(0.02, 1, 1));
    OK(s->siteMultiplicity(0) == 1);
    s->setSymmetryPrecision(1e-4);
    OK(s->siteMultiplicity(0) == 2);
    return bad;
}
''')
