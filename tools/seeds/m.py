
SA_, NMF, NSF = "srreal/StructureAdapter.cpp", "srreal/NoMetaStructureAdapter.cpp", "srreal/NoSymmetryStructureAdapter.cpp"
WRP = """
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
using namespace diffpy::srreal;
struct Meta : public PeriodicStructureAdapter {
    StructureAdapterPtr clone() const { return StructureAdapterPtr(new Meta(*this)); }
    void customPQConfig(PairQuantity* pq) const { pq->setDoubleAttr("scale", 3.0); }
};
template <class T> boost::shared_ptr<T> cell(int n) {
    boost::shared_ptr<T> p(new T); p->setLatPar(4, 4, 4, 90, 90, 90);
    for (int i = 0; i < n; ++i) { Atom a; a.atomtype = i % 2 ? "Cl" : "Na"; a.xyz_cartn = R3::Vector(.3 * i, .7 * i, .1); a.occupancy = 1 - .125 * i;
      a.uij_cartn = R3::identity(); a.uij_cartn *= .01 * (i + 1); p->append(a); }
    return p; }
"""
seed("C23-clone-shared", "C23", [(NSF, "if (msrcstructure)  rv->msrcstructure = msrcstructure->clone();", "rv->msrcstructure = msrcstructure;")],
     "clone of a wrapped structure, then an edit of the original", "a clone follows later changes of the structure it was cloned from", WRP + r"""
int main() { auto p = cell<PeriodicStructureAdapter>(2); StructureAdapterPtr w = nosymmetry(p), k = w->clone();
  OK(k->countSites() == 2); p->append((*p)[0]); OK(w->countSites() == 3); OK(k->countSites() == 2); return bad; }""")
seed("C23-density-occupancy", "C23", [(NMF, "return msrcstructure->numberDensity();", "const double occ = msrcstructure->totalOccupancy();\n    const int n = msrcstructure->countSites();\n    return msrcstructure->numberDensity() * (occ < n ? occ / n : 1.0);")],
     "a wrapped periodic structure with partial occupancies", "partial occupancies reduce the density twice", WRP + r"""
int main() { auto p = cell<PeriodicStructureAdapter>(3); OK(nometa(p)->numberDensity() == p->numberDensity());
  auto q = cell<PeriodicStructureAdapter>(1); OK(nometa(q)->numberDensity() == q->numberDensity()); return bad; }""")
seed("C23-meta-nested", "C23", [(NMF, "// disable customPQConfig of the wrapped PairQuantity", "// disable customPQConfig of the wrapped PairQuantity\n    if (msrcstructure->numberDensity() == 0)  msrcstructure->customPQConfig(pq);")],
     "metadata hidden on top of removed symmetry: nometa(nosymmetry(x)) of a periodic structure with metadata", "metadata reach the calculator", WRP + r"""
int main() { boost::shared_ptr<Meta> p = cell<Meta>(2); PDFCalculator a, b, c, d; a.eval(nometa(p)); OK(a.getDoubleAttr("scale") == 1.0);
  b.eval(nosymmetry(p)); OK(b.getDoubleAttr("scale") == 3.0); c.eval(nosymmetry(nometa(p))); OK(c.getDoubleAttr("scale") == 1.0);
  d.eval(nometa(nosymmetry(p))); OK(d.getDoubleAttr("scale") == 1.0); return bad; }""")
seed("C23-maxuii-late", "C23", [(SA_, "if (U(k,k) > rv)   rv = U(k,k);", "if (U(k,k) > rv)   { rv = U(k,k);  if (stru->siteAnisotropy(i))  break; }")],
     "an anisotropic site whose largest displacement is not along its first growing axis", "the largest displacement is underestimated", WRP + r"""
int main() { auto p = cell<PeriodicStructureAdapter>(2); (*p)[1].anisotropy = true; (*p)[1].uij_cartn(2, 2) = 0.5; OK(maxUii(nosymmetry(p)) == 0.5); return bad; }""")
seed("C23-totocc-capped", "C23", [(SA_, "total_occupancy += this->siteOccupancy(i) * this->siteMultiplicity(i);", "double occ = this->siteOccupancy(i);\n        total_occupancy += (occ > 1.0 ? 1.0 : occ) * this->siteMultiplicity(i);")],
     "a site with an occupancy above one", "total occupancy no longer follows from the sites", WRP + r"""
int main() { auto p = cell<PeriodicStructureAdapter>(2); (*p)[1].occupancy = 1.5; OK(p->totalOccupancy() == 2.5); return bad; }""")
DIF = """
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
using namespace diffpy::srreal;
Atom at(const char* t, double x, double y, double z, double occ = 1) { Atom a; a.atomtype = t; a.xyz_cartn = R3::Vector(x, y, z); a.occupancy = occ; a.anisotropy = false; a.uij_cartn = R3::identity(); a.uij_cartn *= .01; return a; }
bool fastok(StructureAdapterPtr p, StructureAdapterPtr q) { PDFCalculator o, f; o.setEvaluatorType(OPTIMIZED); f.setEvaluatorType(BASIC); o.eval(p); o.eval(q); f.eval(q);
  QuantityType x = o.getPDF(), y = f.getPDF(); bool ok = x.size() == y.size(); for (size_t i = 0; ok && i < x.size(); ++i) ok = std::fabs(x[i] - y[i]) < 1e-6 * (1 + std::fabs(y[i])); return ok; }
"""
ASA, PSA, CSA, CSH = "srreal/AtomicStructureAdapter.cpp", "srreal/PeriodicStructureAdapter.cpp", "srreal/CrystalStructureAdapter.cpp", "srreal/CrystalStructureAdapter.hpp"
seed("C15-less-upper-tensor", "C15", [(ASA, "    for (; u0 != u0last; ++u0, ++u1)\n    {\n        if (*u0 < *u1)  return true;", "    for (; u0 != u0last; ++u0, ++u1)\n    {\n        if (!a0.anisotropy && u0 != a0.uij_cartn.data().begin())  break;\n        if (*u0 < *u1)  return true;")],
     "shuffled atoms that are isotropic but differ in a later tensor element", "the ordering takes different atoms for the same one", DIF + r"""
int main() { Atom a = at("C", 0, 0, 0), b = a; b.uij_cartn(2, 2) = .5; OK((a < b) || (b < a)); return bad; }""")
seed("C15-sorted-duplicates", "C15", [(ASA, "    symdiffatoms.erase(ii, symdiffatoms.end());", "    symdiffatoms.erase(ii, symdiffatoms.end());\n    symdiffatoms.erase(std::unique(symdiffatoms.begin(), symdiffatoms.end(),\n            [](const atomindex& x, const atomindex& y) {\n                return x.second >= 0 && y.second >= 0 && *x.first == *y.first; }), symdiffatoms.end());")],
     "several equal atoms removed from a structure whose atoms are reordered too", "an atom that occurs repeatedly is removed once only", DIF + r"""
int main() { AtomicStructureAdapterPtr p(new AtomicStructureAdapter), q(new AtomicStructureAdapter);
  for (int i = 0; i < 3; ++i) p->append(at("C", 1, 1, 1)); for (int i = 0; i < 9; ++i) p->append(at("O", i, 0, 0));
  for (int i = 8; i >= 0; --i) q->append(at("O", i, 0, 0)); q->append(at("C", 1, 1, 1));
  StructureDifference d = p->diff(q); OK(d.pop0.size() == 2 && d.add1.empty()); return bad; }""")
seed("C15-tail-sites", "C15", [(ASA, "    for (int i = nboth; ai1 != astru1.matoms.end(); ++i, ++ai1)\n    {", "    const_iterator ailast = ai0 == astru0.matoms.end() && nboth > 0 && sd.add1.empty() && astru1.countSites() == nboth + 1 && *ai1 == astru1.matoms[nboth - 1] ? ai1 : astru1.matoms.end();\n    for (int i = nboth; ai1 != ailast; ++i, ++ai1)\n    {")],
     "the last atom of an otherwise unchanged structure appended again", "an added duplicate of the last atom is not listed", DIF + r"""
int main() { AtomicStructureAdapterPtr p(new AtomicStructureAdapter), q(new AtomicStructureAdapter);
  for (int i = 0; i < 5; ++i) { p->append(at("O", i, 0, 0)); q->append(at("O", i, 0, 0)); } q->append(at("O", 4, 0, 0));
  StructureDifference d = p->diff(q); OK(d.add1.size() == 1); return bad; }""")
seed("C15-symop-shift", "C15", [(CSH, "return (op0.R == op1.R) && (op0.t == op1.t);", "return (op0.R == op1.R) && (R3::norm(op0.t) == R3::norm(op1.t));")],
     "two crystals with translations of equal length in other directions", "other symmetry is taken for the same", DIF + r"""
int main() { CrystalStructureAdapterPtr v[] = {CrystalStructureAdapterPtr(new CrystalStructureAdapter), CrystalStructureAdapterPtr(new CrystalStructureAdapter)};
  for (int k = 0; k < 2; ++k) { v[k]->setLatPar(5, 5, 5, 90, 90, 90); SymOpRotTrans s; s.R = R3::identity(); s.t = R3::Vector(0, 0, 0); v[k]->addSymOp(s); s.t[k] = .5; v[k]->addSymOp(s);
    v[k]->append(at("C", .1, 0, 0)); v[k]->append(at("O", 2, 1, 1)); v[k]->append(at("O", 1, 2, 1)); v[k]->append(at("O", 1, 2, 2)); }
  OK(!v[0]->diff(v[1]).allowsfastupdate()); return bad; }""")
seed("C15-lattice-volume", "C15", [(PSA, "    if (this->getLattice() != pother->getLattice())  return sd;", "    if (this->getLattice() != pother->getLattice() &&\n            this->getLattice().volume() != pother->getLattice().volume())  return sd;")],
     "two periodic structures with the same sites in cells of the same volume and other edges", "structures in different cells are taken for the same", DIF + r"""
int main() { PeriodicStructureAdapterPtr p(new PeriodicStructureAdapter), q(new PeriodicStructureAdapter);
  p->setLatPar(4, 4, 8, 90, 90, 90); q->setLatPar(8, 4, 4, 90, 90, 90);
  for (int i = 0; i < 4; ++i) { p->append(at("O", i, .3, 0)); q->append(at("O", i, .3, 0)); } OK(fastok(p, q)); return bad; }""")
seed("C23-diff-unwrapped", "C23", [(NSF, "    if (!pother)  return sd;\n    sd = this->getSourceStructure()->diff(pother->getSourceStructure());", "    StructureAdapterConstPtr osource = other;\n    if (pother)  osource = pother->getSourceStructure();\n    sd = this->getSourceStructure()->diff(osource);"),
     (NSF, "assert(sd.stru1 == pother->getSourceStructure());", "assert(sd.stru1 == osource);")],
     "an evaluation of nosymmetry(x) followed by one of x itself or of an edited copy", "a structure and its symmetry-free form do not differ, so the fast update keeps the old value", DIF + WRP.replace("using namespace diffpy::srreal;", "") + r"""
int main() { auto p = cell<PeriodicStructureAdapter>(3); OK(fastok(nosymmetry(p), p->clone())); return bad; }""")
