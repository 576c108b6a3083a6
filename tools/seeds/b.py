seed("C14-jeong-max", "C14", [("srreal/JeongPeakWidth.cpp", """    double maxmsdsharp = max(
            this->msdSharpeningRatio(rmin),
            this->msdSharpeningRatio(rmax));
""", """    double maxmsdsharp = this->msdSharpeningRatio(max(rmin, rmax));
"""), ],
     "a negative delta parameter, which makes the correction largest at the lower end of the range",
     "the maximum width over a range ignores the correction at rmin", r'''
#include <diffpy/srreal/JeongPeakWidth.hpp>
int main()
{
    AtomicStructureAdapterPtr s = boost::make_shared<AtomicStructureAdapter>();
    s->append(atom("C", 0, 0, 0)); s->append(atom("C", 1, 0, 0));
    JeongPeakWidth w;
    w.setDelta2(-1.0);
    BaseBondGeneratorPtr b = StructureAdapterPtr(s)->createBondGenerator();
    b->setRmax(2); b->selectAnchorSite(0); b->selectSiteRange(1, 2); b->rewind();
    OK(w.calculate(*b) <= w.maxWidth(s, 1.0, 5.0) + 1e-9);
    return bad ? 1 : 0;
}
''')
seed("C14-shape-zero", "C14", [("srreal/SphericalShapeEnvelope.cpp", """    if (r > mspdiameter)  return 0.0;
    double rdratio = r / mspdiameter;
""", """    if (r > 2 * mspdiameter)  return 0.0;
    double rdratio = r / mspdiameter;
""")],
     "a distance between one and two sphere diameters",
     "the shape envelope is not zero beyond the sphere diameter", r'''
#include <diffpy/srreal/PDFEnvelope.hpp>
int main()
{
    PDFEnvelopePtr e = PDFEnvelope::createByType("sphericalshape");
    e->setDoubleAttr("spdiameter", 3);
    for (double r = 3.0; r < 20; r += 0.25) OK((*e)(r) == 0);
    return bad ? 1 : 0;
}
''')
