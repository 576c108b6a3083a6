seed("C07-filter-off", "C07", [("srreal/BondCalculator.cpp", "    if (!mfilter_directions.empty())  mticker.click();", "    if (mfilter_directions.size() > 1)  mticker.click();")],
     "removing the only cone filter between two evaluations of the same structure", "the bonds stay filtered after the filter is removed", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(6);
    BondCalculator b;
    b.setRmax(4);
    b.eval(s);
    size_t n = b.distances().size();
    R3::Vector d(1, 0, 0);
    b.filterCone(d, 2.0); b.eval(s);
    b.filterOff(); b.eval(s);
    OK(b.distances().size() == n);
    return bad;
}
''')
seed("C07-type-mask-erased", "C07", [("srreal/PairQuantity.cpp", "                tpmsk = mtypemask.erase(tpmsk);\n            }\n            else  ++tpmsk;", "                tpmsk = mtypemask.erase(tpmsk);\n                modified = modified && mtypemask.empty();\n            }\n            else  ++tpmsk;")],
     "an all-mask of a type set again over a later exception of the opposite mask", "the change is not noticed and the old value is returned", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(6);
    (*s)[2].atomtype = "O"; (*s)[4].atomtype = "O";
    PDFCalculator p;
    p.setTypeMask("O", "all", false);
    p.setTypeMask("O", "C", true);
    p.eval(s);
    QuantityType v0 = p.getPDF();
    p.setTypeMask("O", "all", false);
    p.eval(s);
    PDFCalculator f; f.setTypeMask("O", "all", false); f.eval(s);
    OK(near(p.getPDF(), f.getPDF()));
    return bad;
}
''')
seed("C07-profile-ticker", "C07", [("srreal/PDFCalculator.cpp", "    if (pkpf)  tic.updateFrom(pkpf->ticker());", "    if (pkpf && !(pkpf->ticker() < this->ScatteringFactorTableOwner::ticker()))  tic.updateFrom(pkpf->ticker());"),
      ("srreal/PDFCalculator.cpp", "    tic.updateFrom(this->ScatteringFactorTableOwner::ticker());\n    const", "    const")],
     "a custom scattering factor set after the last change of the peak profile", "the calculator does not notice the custom factor", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(6);
    (*s)[2].atomtype = "O"; (*s)[4].atomtype = "O";
    PDFCalculator p, f;
    p.eval(s);
    p.getScatteringFactorTable()->setCustomAs("O", "C", 3.0, 0.0); f.getScatteringFactorTable()->setCustomAs("O", "C", 3.0, 0.0);
    p.eval(s); f.eval(s);
    OK(near(p.getPDF(), f.getPDF()));
    return bad;
}
''')
seed("C07-table-custom", "C07", [("srreal/ScatteringFactorTable.cpp", "    if (!mcustom.empty())  mticker.click();\n    mcustom.clear();", "    const bool nochange = mcustom.empty();\n    mcustom.clear();\n    if (!nochange && !mcustom.empty())  mticker.click();")],
     "dropping all custom scattering factors between two evaluations", "the value for the custom factors is returned", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(6);
    (*s)[2].atomtype = "O"; (*s)[4].atomtype = "O";
    PDFCalculator p, f;
    p.getScatteringFactorTable()->setCustomAs("O", "C", 3.0, 0.0);
    p.eval(s);
    p.getScatteringFactorTable()->resetAll();
    p.eval(s); f.eval(s);
    OK(near(p.getPDF(), f.getPDF()));
    return bad;
}
''')
SFT = r'''
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <cmath>
#include <stdexcept>
'''
seed("C13-radii-partial", "C13", [("srreal/AtomRadiiTable.cpp", "        rds[smbl] = value;\n", "        if (mcustomradius.count(smbl) && value == 0.0)  mcustomradius.erase(smbl);\n        else  rds[smbl] = value;\n")],
     "a zero radius for an atom that has a custom radius already", "the atom gets the standard radius, and a rejected string changes the table", SFT + r'''
int main()
{
    ConstantRadiiTable t;
    t.setDefault(2);
    t.setCustom("C", 1.5);
    t.fromString("C:0, N:1");
    OK(t.lookup("C") == 0);
    OK(t.lookup("N") == 1);
    return bad;
}
''')
seed("C13-zero-custom", "C13", [("srreal/ScatteringFactorTable.cpp", "    if (csft != mcustom.end())\n", "    if (csft != mcustom.end() && csft->second.second != 0.0)\n")],
     "an atom type with the custom value zero", "the standard value is returned", SFT + r'''
int main()
{
    ScatteringFactorTablePtr t = ScatteringFactorTable::createByType("X");
    t->setCustomAs("C", "O", 0.0, 1.0);
    OK(t->lookup("C", 1.0) == 0);
    return bad;
}
''')
seed("C09-envelope-slot", "C09", [("srreal/PDFEnvelope.cpp", "    if (!menvelope.count(tp))\n    {\n        ostringstream", "    PDFEnvelopePtr& found = menvelope[tp];\n    if (!found)\n    {\n        ostringstream"), ("srreal/PDFEnvelope.cpp", "    PDFEnvelopePtr& rv = menvelope[tp];\n    return rv;", "    return found;")],
     "a lookup of an envelope type that is not in use", "an empty envelope is left behind by the rejected lookup", HIST + r'''
int main()
{
    PDFCalculator p;
    size_t n = p.usedEnvelopeTypes().size();
    bool threw = false;
    try { p.getEnvelopeByType("stepcut"); } catch (std::invalid_argument&) { threw = true; }
    OK(threw);
    OK(p.usedEnvelopeTypes().size() == n);
    return bad;
}
''')
seed("C09-parallel-half", "C09", [("srreal/BondCalculator.cpp", "    ensureEpsilonPositive(\"magnitude of cone vector\", nmconeaxis);\n    coneaxis /= nmconeaxis;\n    mfilter_directions.push_back(coneaxis);\n    mfilter_degrees.push_back(degrees);", "    mfilter_degrees.push_back(degrees);\n    ensureEpsilonPositive(\"magnitude of cone vector\", nmconeaxis);\n    coneaxis /= nmconeaxis;\n    mfilter_directions.push_back(coneaxis);")],
     "a rejected cone direction followed by a valid one", "the angle of the rejected filter stays and is used for the next direction", HIST + r'''
int main()
{
    AtomicStructureAdapterPtr s = chain(5);
    BondCalculator b, f;
    b.setRmax(5); f.setRmax(5);
    bool threw = false;
    try { b.filterCone(R3::Vector(0, 0, 0), 0.5); } catch (std::invalid_argument&) { threw = true; }
    OK(threw);
    b.filterCone(R3::Vector(1, 0, 0), 60); f.filterCone(R3::Vector(1, 0, 0), 60);
    b.eval(s); f.eval(s);
    OK(b.distances().size() == f.distances().size());
    return bad;
}
''')
