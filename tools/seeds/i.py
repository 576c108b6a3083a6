BVS = r'''
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
''' + HIST
seed("C10-filter-angles", "C10", [("srreal/BondCalculator.cpp", "    mfilter_directions.clear();\n    mfilter_degrees.clear();", "    mfilter_directions.clear();")],
     "filters switched off and set again", "the angle of an earlier filter is used for the new direction", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(6);
    BondCalculator b, f;
    b.setRmax(5); f.setRmax(5);
    b.filterCone(R3::Vector(0, 0, 1), 170); b.filterOff();
    b.filterCone(R3::Vector(1, 0, 0), 30); f.filterCone(R3::Vector(1, 0, 0), 30);
    b.eval(s); f.eval(s);
    OK(f.distances().size() > 0);
    OK(b.distances().size() == f.distances().size());
    return bad;
}
''')
seed("C12-cation-nine", "C12", [("srreal/BVParametersTable.cpp", "    bpk9.mvalence0 = 9;\n    bpit = mcustomtable.find(bpk9);\n    if (bpit != mcustomtable.end())  return *bpit;\n", "    bpk9.mvalence0 = 9;\n")],
     "a custom entry for unspecified valence (9) of a cation", "the custom entry is not used", BVS + r'''
int main()
{
    BVParametersTable t;
    t.setCustom("Fe", 9, "O", -2, 1.23, 0.4);
    const BVParam& p = t.lookup("Fe", 5, "O", -2);
    OK(p.mRo == 1.23);
    return bad;
}
''')
seed("C12-custom-kept", "C12", [("srreal/BVParametersTable.cpp", "    this->resetCustom(bp);\n    mcustomtable.insert(bp);", "    if (mcustomtable.count(bp) && mcustomtable.find(bp)->mB == bp.mB)  return;\n    this->resetCustom(bp);\n    mcustomtable.insert(bp);")],
     "a custom entry replaced by one with the same B", "the older R0 stays in use", BVS + r'''
int main()
{
    BVParametersTable t;
    t.setCustom("Fe", 2, "O", -2, 1.5, 0.37); t.setCustom("Fe", 2, "O", -2, 1.7, 0.37);
    OK(t.lookup("O", -2, "Fe", 2).mRo == 1.7);
    return bad;
}
''')
seed("C12-precision-limit", "C12", [("srreal/BVSCalculator.cpp", "        for (sv1 = sv0; sv1 != allsymvals.end(); ++sv1)", "        sv1 = sv0;\n        if (allsymvals.size() > 2)  ++sv1;\n        for (; sv1 != allsymvals.end(); ++sv1)")],
     "bonds between atoms of the same kind in a structure of three kinds", "the distance limit misses the longest bonds", BVS + r'''
int main()
{
    AtomicStructureAdapterPtr s(new AtomicStructureAdapter);
    Atom a; a.atomtype = "Na1+"; s->append(a);
    a.atomtype = "Cl1-"; a.xyz_cartn = R3::Vector(0, 3, 0); s->append(a);
    a.atomtype = "C"; a.xyz_cartn = R3::Vector(8, 0, 0); s->append(a);
    a.atomtype = "C"; a.xyz_cartn = R3::Vector(15, 0, 0); s->append(a);
    BVSCalculator b;
    b.getBVParamTable()->setCustom("C", 0, "C", 0, 6.5, 0.4);
    b.eval(s);
    OK(fabs(b.value()[2] - exp(-0.5 / 0.4)) < 1e-6);
    return bad;
}
''')
