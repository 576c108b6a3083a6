seed("C18-alias-steal", "C18", [("HasClassRegistry.ipp", """    if (reg.count(al) && reg[al] != reg[tp])
    {""", """    if (reg.count(al) && reg[al] != reg[tp] && al == reg[al]->type())
    {""")],
     "an alias that already names another type",
     "aliasType silently redirects an existing alias of another type", r'''
#include <diffpy/srreal/PDFEnvelope.hpp>
int main()
{
    PDFEnvelope::aliasType("scale", "nick");
    bool thrown = false;
    try { PDFEnvelope::aliasType("stepcut", "nick"); } catch (std::logic_error&) { thrown = true; }
    OK(thrown);
    OK(PDFEnvelope::createByType("nick")->type() == "scale");
    return bad ? 1 : 0;
}
''')
seed("C18-names-readonly", "C18", [("Attributes.cpp", """        if (mexcludereadonly && ati->second->isreadonly())  continue;
""", """        if (mexcludereadonly && ati->second->isreadonly() && !mnames.empty())  continue;
""")],
     "a component whose first attribute in the alphabet is read-only",
     "a read-only attribute is listed among the writable ones when it comes first", r'''
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
struct A : public diffpy::Attributes {
    double g() const { return 1; }
    A() { this->registerDoubleAttribute("aaa", this, &A::g); }
};
int main()
{
    A a;
    OK(a.namesOfWritableDoubleAttributes().empty());
    OK(a.namesOfDoubleAttributes().size() == 1);
    return bad ? 1 : 0;
}
''')
