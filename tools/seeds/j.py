OLP = r'''
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <cmath>
''' + HIST + r'''
static AtomRadiiTablePtr radii(double c, double o, double n)
{
    AtomRadiiTablePtr t(new ConstantRadiiTable);
    t->setCustom("C", c); t->setCustom("O", o); t->setCustom("N", n);
    return t;
}
static Atom site(const char* tp, double x, double y, double z, double occ = 1)
{
    Atom a; a.atomtype = tp; a.xyz_cartn = R3::Vector(x, y, z); a.occupancy = occ; a.uij_cartn = R3::zeromatrix();
    return a;
}
'''
seed("C11-two-largest", "C11", [("srreal/OverlapCalculator.cpp", "    mstructure_cache.maxseparation = 2 * maxradius;", "    mstructure_cache.maxseparation = 2 * maxradius;\n    if (cntsites > 1)\n    {\n        QuantityType sorted(mstructure_cache.siteradii);\n        std::sort(sorted.begin(), sorted.end());\n        mstructure_cache.maxseparation = sorted[cntsites - 1] + sorted[cntsites - 2];\n    }")],
     "one site of the largest radius that overlaps with its own images", "overlaps of a site with its images are cut off", OLP + r'''
int main()
{
    PeriodicStructureAdapterPtr s(new PeriodicStructureAdapter);
    s->setLatPar(3, 9, 9, 90, 90, 90);
    s->append(site("C", 0, 0, 0)); s->append(site("O", 0, 4.5, 4.5));
    OverlapCalculator c; c.setAtomRadiiTable(radii(2, 0.5, 1));
    c.eval(s);
    OK(c.overlaps().size() == 2);
    return bad;
}
''')
seed("C11-flip-occupancy", "C11", [("srreal/OverlapCalculator.cpp", "            mstructure->siteOccupancy(i1) * mstructure->siteOccupancy(j1) *\n            mstructure->siteMultiplicity(i1) / 2;", "            mstructure->siteOccupancy(i1) * mstructure->siteOccupancy(i1 == j ? i : j1) *\n            mstructure->siteMultiplicity(i1) / 2;")],
     "flip of sites of different occupancy next to a third one", "the predicted change is weighted by another site", OLP + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    s->append(site("C", 0, 0, 0, 0.5)); s->append(site("O", 1.5, 0, 0, 1)); s->append(site("N", 3.1, 0.2, 0, 0.25));
    OverlapCalculator c; c.setAtomRadiiTable(radii(1.2, 1.0, 1.4));
    c.eval(s);
    double t0 = c.totalSquareOverlap(), d = c.flipDiffTotal(0, 1);
    AtomicStructureAdapterPtr r(new AtomicStructureAdapter);
    r->append(site("O", 0, 0, 0, 0.5)); r->append(site("C", 1.5, 0, 0, 1)); r->append(site("N", 3.1, 0.2, 0, 0.25));
    c.eval(r);
    OK(std::fabs(c.totalSquareOverlap() - t0 - d) < 1e-9);
    return bad;
}
''')
seed("C11-neighbors-kept", "C11", [("srreal/OverlapCalculator.cpp", "    mvalue.clear();\n    mneighborids.clear();\n    mneighborids_cached = false;", "    if (mneighborids_cached)\n    {\n        mneighborids.clear();\n        mneighborids_cached = this->countSites() && 2 * this->countSites() == int(mvalue.size()) / CHUNK_SIZE;\n    }\n    mvalue.clear();")],
     "neighbors asked for, evaluation again while the earlier number of pairs was twice that of sites", "no neighbors are found in the later structure", OLP + r'''
int main()
{
    PeriodicStructureAdapterPtr s(new PeriodicStructureAdapter);
    s->setLatPar(3, 9, 9, 90, 90, 90);
    s->append(site("C", 0, 0, 0));
    OverlapCalculator c; c.setAtomRadiiTable(radii(2, 0.5, 1));
    c.eval(s);
    OK(c.getNeighborSites(0).size() == 1);
    c.eval(s);
    OK(c.getNeighborSites(0).size() == 1);
    return bad;
}
''')
seed("C11-lone-hood", "C11", [("srreal/OverlapCalculator.cpp", "            if (!this->getPairMask(j0, j1))  continue;\n            initsiteset(j0, cnt);", "            if (!this->getPairMask(j0, j1))  break;\n            initsiteset(j0, cnt);")],
     "lone sites masked from themselves but not from later ones", "lone sites are in no neighborhood", OLP + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    double x[4] = {0, 3, 6, 9};
    for (int i = 0; i < 4; ++i) s->append(site("C", x[i], 0, 0));
    OverlapCalculator c; c.setAtomRadiiTable(radii(0.7, 0.5, 1));
    for (int i = 0; i < 4; ++i) c.setPairMask(i, i, false);
    c.eval(s);
    OK(c.neighborhoods().size() == 4);
    return bad;
}
''')
