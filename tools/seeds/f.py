seed("C02-chop-gap", "C02", [("srreal/PQEvaluator.cpp", "bool chop_inner = !chop_outer;", "bool chop_inner = (mncpu > (cntsites * CPU_LOAD_VARIANCE + 1));")],
     "a number of sites for which neither way of splitting the work is chosen, e.g. 10 sites on 2 CPUs", "every CPU counts all pairs", r'''
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
int main()
{
    for (int n = 2; n < 40; ++n) for (int ncpu = 1; ncpu < 6; ++ncpu) {
        AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
        Atom a; a.atomtype = "C";
        for (int i = 0; i < n; ++i) { a.xyz_cartn[0] = 0.01 * i; s->append(a); }
        PairCounter ser, m; ser.eval(s); m.setStructure(s);
        for (int i = 0; i < ncpu; ++i) { PairCounter c; c.setupParallelRun(i, ncpu); c.eval(s); m.mergeParallelData(c.getParallelData(), ncpu); }
        OK(m.value()[0] == ser.value()[0]);
    }
    return bad ? 1 : 0;
}
''')
seed("C02-fast-masked", "C02", [("srreal/PQEvaluator.cpp", "    for (ii1 = first_anchor; ii1 != anchors.end(); ++ii1)\n    {\n        if (n++ % mncpu)    continue;", "    for (ii1 = first_anchor; ii1 != anchors.end(); ++ii1)\n    {\n        if (!hasmask && (n++ % mncpu))    continue;")],
     "a fast update on several CPUs with masked pairs", "pairs of the added atoms are counted by every CPU", r'''
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <cmath>
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    Atom a; a.atomtype = "C";
    for (int i = 0; i < 12; ++i) { a.xyz_cartn[0] = 1.2 * i; s->append(a); }
    AtomicStructureAdapterPtr s1 = boost::dynamic_pointer_cast<AtomicStructureAdapter>(s->clone());
    (*s1)[3].xyz_cartn[1] = 0.5;
    DebyePDFCalculator ser, m, c[3];
    ser.setPairMask(0, 1, false); ser.eval(s1);
    m.setPairMask(0, 1, false); m.setStructure(s1);
    for (int i = 0; i < 3; ++i) {
        c[i].setEvaluatorType(OPTIMIZED); c[i].setPairMask(0, 1, false); c[i].setupParallelRun(i, 3);
        c[i].eval(s); c[i].eval(s1);
        m.mergeParallelData(c[i].getParallelData(), 3);
    }
    OK(m.value().size() == ser.value().size());
    for (size_t i = 0; i < m.value().size(); ++i) OK(fabs(m.value()[i] - ser.value()[i]) < 1e-6 * (1 + fabs(ser.value()[i])));
    return bad ? 1 : 0;
}
''')
