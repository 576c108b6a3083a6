HIST = r'''
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <cmath>
#include <stdexcept>
static AtomicStructureAdapterPtr chain(int n)
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    Atom a; a.atomtype = "C"; a.uij_cartn = R3::identity(); a.uij_cartn *= 0.005;
    for (int i = 0; i < n; ++i) { a.xyz_cartn[0] = 1.2 * i; a.xyz_cartn[1] = 0.1 * i * i; s->append(a); }
    return s;
}
static AtomicStructureAdapterPtr copy(AtomicStructureAdapterPtr s) { return boost::dynamic_pointer_cast<AtomicStructureAdapter>(s->clone()); }
static bool near(const QuantityType& a, const QuantityType& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(fabs(a[i] - b[i]) < 1e-5 * (1 + fabs(b[i])))) return false;
    return true;
}
'''
seed("C01-full-reselect", "C01", [("srreal/PQEvaluator.cpp", "        else if (needsreselection && ii1 >= (anchors.end() - sd.add1.size()))", "        else if (needsreselection && ii1 > (anchors.end() - sd.add1.size()))")],
     "a fast update of bonds after an edit of one atom among several", "bonds of the first added atom to unchanged atoms are listed only one way", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(12), b = copy(s);
    (*b)[4].xyz_cartn[2] = 0.4;
    BondCalculator p, f; p.setRmax(4); f.setRmax(4);
    p.eval(s); p.eval(b); f.eval(b);
    OK(near(p.distances(), f.distances()));
    return bad ? 1 : 0;
}
''')
