HEAD = r'''
#include <cstdio>
#include <cmath>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <boost/make_shared.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/mathutils.hpp>
using namespace diffpy::srreal;
static int bad = 0;
#define OK(c) do { if (!(c)) { ++bad; std::printf("wrong: %s\n", #c); } } while (0)
static Atom atom(const char* t, double x, double y, double z)
{
    Atom a; a.atomtype = t; a.xyz_cartn = R3::Vector(x, y, z); a.occupancy = 1; a.uij_cartn = R3::zeromatrix();
    for (int i = 0; i < 3; ++i) a.uij_cartn(i, i) = 0.004;
    return a;
}
'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed("C03-invert-all", "C03", [("srreal/PairQuantity.cpp", """        mm->second = !(mm->second);
""", """        if (mm->second == mdefaultpairmask)  mm->second = !(mm->second);
""")],
     "an 'all' mask of a site equal to the default, inverted masks, then a structure with more sites",
     "invertMask leaves the stored mask for all pairs of a site unchanged when it is opposite to the new default, so sites that appear later get the wrong mask", r'''
int main()
{
    BondCalculator bc;
    AtomicStructureAdapterPtr s2 = boost::make_shared<AtomicStructureAdapter>(), s4 = boost::make_shared<AtomicStructureAdapter>();
    for (int i = 0; i < 4; ++i) { if (i < 2) s2->append(atom("C", i, 0, 0)); s4->append(atom("C", i, 0, 0)); }
    for (int k = 0; k < 2; ++k) {
        bc.maskAllPairs(true);
        bc.setStructure(s2);
        bc.setPairMask(0, -1, k == 1);
        bc.invertMask();
        bc.setStructure(s4);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) OK(bc.getPairMask(i, j) == ((i == 0 || j == 0) ? k == 0 : false));
    }
    return bad ? 1 : 0;
}
''')
seed("C03-type-order", "C03", [("srreal/PairQuantity.cpp", """            if (hasall)  orderedpairs.push_front(tpmsk->first);
            else  orderedpairs.push_back(tpmsk->first);
""", """            if (hasall && (ALLATOMSSTR == tpmsk->first.first || tpmsk->second))  orderedpairs.push_front(tpmsk->first);
            else  orderedpairs.push_back(tpmsk->first);
""")],
     "a type that sorts before 'all' (every element symbol), masked out with all other types, and an exception that re-enables one pair",
     "the mask of a type with all others may be applied after the explicit pair of types, so the exception is lost at the sites", r'''
int main()
{
    // many types so that the order in the hash table varies
    const char* t[] = {"C", "O", "Na1+", "Cl1-", "Fe", "Ni", "Ti", "Pb", "Au", "S"};
    AtomicStructureAdapterPtr s = boost::make_shared<AtomicStructureAdapter>();
    for (int i = 0; i < 10; ++i) s->append(atom(t[i], i, 0, 0));
    for (int a = 0; a < 10; ++a) for (int b = 0; b < 10; ++b) {
        BondCalculator bc;
        bc.setTypeMask(t[a], "all", false);
        bc.setTypeMask(t[a], t[b], true);
        bc.setStructure(s);
        for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j)
            OK(bc.getPairMask(i, j) == ((i == a && j == b) || (i == b && j == a) || (i != a && j != a)));
    }
    return bad ? 1 : 0;
}
''')
seed("C04-rmax-cache", "C04", [("srreal/PeriodicStructureAdapter.cpp", """    if (this->getRmax() != rmax)    msphere.reset();
""", """    if (this->getRmax() < rmax - 1.0)    msphere.reset();
""")],
     "a generator that was already used, then rmax raised by less than 1 A",
     "the sphere of lattice points is kept although it is too small for the new rmax, bonds at larger distances are not visited", r'''
#include <diffpy/srreal/BaseBondGenerator.hpp>
int main()
{
    PeriodicStructureAdapterPtr s = boost::make_shared<PeriodicStructureAdapter>();
    s->setLatPar(1, 1, 1, 90, 90, 90);
    s->append(atom("C", 0, 0, 0));
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->selectAnchorSite(0);
    b->setRmin(0);
    b->setRmax(1.1);
    int n = 0;
    for (b->rewind(); !b->finished(); b->next()) ++n;
    OK(n == 6);
    double r = 1.1;
    for (int k = 0; k < 12; ++k) {
        r += 0.9; b->setRmax(r);
        n = 0;
        for (b->rewind(); !b->finished(); b->next()) ++n;
        int w = 0;
        for (int i = -20; i <= 20; ++i) for (int j = -20; j <= 20; ++j) for (int l = -20; l <= 20; ++l) { double d = std::sqrt(double(i * i + j * j + l * l)); if (d > 0 && d <= r) ++w; }
        OK(n == w);
    }
    return bad ? 1 : 0;
}
''')
seed("C04-shortcut", "C04", [("srreal/BaseBondGenerator.cpp", """    if ((mdistance = fabs(mr01[2] = mr1[2] - mr0[2])) > mrmax)  return;
""", """    if ((mdistance = fabs(mr01[2] = mr1[2] - mr0[2])) > mrmax)  return;
    if (mdistance < mrmin && mr01[0] == mr01[1])  return;
""")],
     "a bond with equal x and y components and a z component below rmin while its length is not",
     "the distance shortcut reports |dz| instead of the length, the bond is dropped as too short", r'''
#include <diffpy/srreal/BaseBondGenerator.hpp>
int main()
{
    AtomicStructureAdapterPtr s = boost::make_shared<AtomicStructureAdapter>();
    s->append(atom("C", 0, 0, 0)); s->append(atom("C", 1.5, 1.5, 0.25)); s->append(atom("C", 0, 0, 2));
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->selectAnchorSite(0);
    b->setRmin(1); b->setRmax(5);
    int n = 0;
    for (b->rewind(); !b->finished(); b->next()) { ++n; OK(std::fabs(b->distance() - R3::norm(b->r01())) < 1e-12); }
    OK(n == 2);
    return bad ? 1 : 0;
}
''')

seed("C06-metrics", "C06", [("srreal/Lattice.cpp", """    R3::column(mrecnormbase, 2) = R3::column(mrecbase, 2) / mcr;
    this->updateMetrics();
""", """    R3::column(mrecnormbase, 2) = R3::column(mrecbase, 2) / mcr;
    // the tensor needs an update only when the cell edges are different
    if (ma * ma != mmetrics(0,0) || mb * mb != mmetrics(1,1) || mc * mc != mmetrics(2,2))  this->updateMetrics();
""")],
     "base vectors set on a lattice which already has the same edge lengths but different angles",
     "the metric tensor keeps the previous angles, so norms, distances and dot products of fractional vectors belong to the old cell", r"""
int main()
{
    Lattice L(3, 3, 3, 90, 90, 90);
    Lattice M(3, 3, 3, 90, 90, 60);
    R3::Vector a, b, c;
    // rows of exact length 3
    a = R3::Vector(3, 0, 0); b = R3::Vector(3 * 0.6, 3 * 0.8, 0); c = R3::Vector(0, 0, 3);
    L.setLatBase(a, b, c);
    R3::Vector u(1, 1, 0);
    OK(std::fabs(L.norm(u) - R3::norm(L.cartesian(u))) < 1e-9);
    OK(std::fabs(L.norm(u) - R3::norm(R3::Vector(a + b))) < 1e-9);
    return bad ? 1 : 0;
}
""")
seed("C06-diagonal", "C06", [("srreal/Lattice.cpp", """        if (normucd > maxnorm)
        {
            maxnorm = normucd;
            maxucd = ucd;
        }
""", """        if (normucd > maxnorm)
        {
            maxnorm = normucd;
            maxucd = ucd;
            // a diagonal longer than all three edges together is the longest
            if (maxnorm * maxnorm > ma * ma + mb * mb + mc * mc)  break;
        }
""")],
     "a cell where a diagonal that is tested later is longer than the first one which exceeds the orthogonal length",
     "the longest diagonal of the unit cell is not the longest; bond searches use a too small buffer zone", r"""
int main()
{
    double al[] = {50, 60, 70, 80, 95, 110, 120};
    for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) for (int k = 0; k < 7; ++k) {
        double s = al[i] + al[j] + al[k];
        if (s >= 355 || al[i] + al[j] <= al[k] + 3 || al[i] + al[k] <= al[j] + 3 || al[j] + al[k] <= al[i] + 3) continue;
        Lattice L(2, 3, 4, al[i], al[j], al[k]);
        double m = 0;
        for (int x = -1; x <= 1; x += 2) for (int y = -1; y <= 1; y += 2) m = std::max(m, R3::norm(L.cartesian(R3::Vector(x, y, 1))));
        OK(std::fabs(L.ucMaxDiagonalLength() - m) < 1e-9);
    }
    return bad ? 1 : 0;
}
""")
seed("C17-cosd", "C17", [("mathutils.ipp", """            case 120:
            case 240: return -0.5;
""", """            case 120: return -0.5;
            case 240: return x > 0 ? -0.5 : cos(x/180.0*M_PI);
""")],
     "a negative angle equivalent to 240 degrees, for example the sine of 330 or of -30 + 360 k",
     "the cosine of -240 degrees (and the sine of 330) is not exactly -0.5", r"""
int main()
{
    using namespace diffpy::mathutils;
    for (int k = -5; k <= 5; ++k) { OK(cosd(240 + 360 * k) == -0.5); OK(cosd(120 + 360 * k) == -0.5); OK(sind(330 + 360 * k) == -0.5); OK(cosd(60 + 360 * k) == 0.5); }
    return bad ? 1 : 0;
}
""")
seed("C17-epsequal", "C17", [("mathutils.hpp", """            bool rv = (v0.size() == v1.size()) &&
                std::equal(v0.begin(), v0.end(), v1.begin(), *this);
                return rv;
""", """            bool rv = (v0.size() == v1.size()) &&
                (std::equal(v0.begin(), v0.end(), v1.begin()) ||
                 std::equal(v0.begin(), v0.end(), v1.begin(), EpsilonEqual()));
                return rv;
""")],
     "a comparison of sequences with a tolerance other than the default",
     "the tolerance given to EpsilonEqual is ignored for sequences", r"""
int main()
{
    using namespace diffpy::mathutils;
    std::vector<double> a(3, 1.0), b(3, 1.0);
    b[1] += 0.01;
    EpsilonEqual loose(0.1), tight(1e-12);
    OK(loose(a, b));
    b[1] = 1 + 1e-10;
    OK(!tight(a, b));
    OK(EpsilonEqual()(a, b));
    return bad ? 1 : 0;
}
""")
