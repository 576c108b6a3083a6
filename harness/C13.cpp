#include "common.hpp"
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/runtimepath.hpp>
#include <fstream>
#include <map>
#include <set>
const char* const vh_rule() { return "standard values of every symbol in the data files against an independent reading of the files, with every spelling of a charge, and of all short strings over an alphabet of signs, digits and letters; random histories of set, reset and lookup calls on scattering-factor and radii tables against a model; the text form of radii"; }
using namespace vh;
using namespace diffpy::srreal;

struct WK { double a[5], b[5], c; };
static std::map<std::string, WK> wkt;
static std::map<std::string, double> ent, bct;
static std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> r(1);
    for (char c : s) { if (c == sep) r.push_back(""); else r.back() += c; }
    return r;
}
static void readfiles()
{
    using diffpy::runtimepath::datapath;
    { std::ifstream f(datapath("f0_WaasKirf.dat").c_str()); std::string ln, sym;
      while (getline(f, ln)) {
        if (ln.compare(0, 2, "#S") == 0) { std::istringstream i(ln); std::string x; i >> x >> x >> sym; }
        else if (ln.compare(0, 2, "#L") == 0) { getline(f, ln); std::istringstream i(ln); WK w; for (double& x : w.a) i >> x; i >> w.c; for (double& x : w.b) i >> x; wkt[sym] = w; }
      } }
    { std::ifstream f(datapath("ionlist.dat").c_str()); std::string ln;
      while (getline(f, ln)) {
        std::istringstream i(ln); std::string el; int z, v;
        if (ln.empty() || ln[0] == '#' || !(i >> el >> z)) continue;
        ent.insert(std::make_pair(el, z));
        while (i >> v) ent.insert(std::make_pair(el + std::to_string(abs(v)) + (v > 0 ? "+" : "-"), z - v));
      } }
    { std::ifstream f(datapath("nsftable.dat").c_str()); std::string ln;
      while (getline(f, ln)) {
        if (ln.empty() || ln[0] == '#') continue;
        std::vector<std::string> w = split(ln, ',');
        if (w.size() != 11 || w[3].empty()) continue;
        // "Z-El" or "Z-El-A"
        std::vector<std::string> p = split(w[0], '-');
        double bc = strtod(w[3].c_str(), 0);
        if (p.size() == 2) bct[p[1]] = bc;
        else {
            bct[p[2] + "-" + p[1]] = bc;
            if (w[1] == "100" || (!bct.count(p[1]) && !w[1].empty() && w[1].back() == 'Y')) bct.insert(std::make_pair(p[1], bc));
        }
      }
      bct["n"] = bct["1-n"]; bct["D"] = bct["2-H"]; bct["T"] = bct["3-H"]; }
}
// valence written at the end of a symbol: a sign after at most one digit 1-8
static int valence(const std::string& s0)
{
    std::string s = s0;
    while (!s.empty() && isspace(s.back())) s.pop_back();
    if (s.empty() || (s.back() != '+' && s.back() != '-')) return 0;
    int v = s.back() == '+' ? 1 : -1;
    s.pop_back();
    while (!s.empty() && isspace(s.back())) s.pop_back();
    if (!s.empty() && s.back() >= '0' && s.back() <= '8') v *= s.back() - '0';
    return v;
}
static bool in(char c, const char* z) { return c && strchr(z, c); }
static std::string bare(const std::string& s)
{
    size_t b = 0, e = s.size();
    while (b < e && in(s[b], "0123456789- \t")) ++b;
    size_t e1 = e;
    while (e1 > 0 && in(s[e1 - 1], "+-012345678 \t")) --e1;
    return b < e1 ? s.substr(b, e1 - b) : "";
}
static double none() { return -12345678.0; }
// standard value or none()
static double stdval(const std::string& type, const std::string& s, double q)
{
    int v = valence(s);
    if (type == "X" || type == "E") {
        auto i = wkt.find(s);
        if (i == wkt.end() && abs(v) <= 1) i = wkt.find(bare(s) + (v == 0 ? "" : v > 0 ? "1+" : "1-"));
        if (i == wkt.end()) return none();
        double t = q / (4 * M_PI), r = i->second.c, z = i->second.c;
        for (int k = 0; k < 5; ++k) { r += i->second.a[k] * exp(-i->second.b[k] * t * t); z += i->second.a[k]; }
        return type == "X" ? r : 0.023934 * (round(z) - r) / (t * t);
    }
    if (type == "EN") {
        auto i = ent.find(s);
        if (i == ent.end()) i = ent.find(bare(s) + (v == 0 ? "" : std::to_string(abs(v)) + (v > 0 ? "+" : "-")));
        return i == ent.end() ? none() : i->second;
    }
    auto i = bct.find(s);
    if (i == bct.end()) {
        size_t e = s.size();
        while (e > 0 && in(s[e - 1], "+-012345678 \t")) --e;
        i = bct.find(e ? s.substr(0, e) : s);
    }
    return i == bct.end() ? none() : i->second;
}
static double look(ScatteringFactorTablePtr t, const std::string& s, double q)
{
    try { return t->lookup(s, q); } catch (std::invalid_argument&) { return none(); }
}
static bool eq(double a, double b) { return a == b || fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b)) || (a != a && b != b) || fabs(a - b) < 1e-11; }
static const char* const TYPES_[] = {"X", "E", "N", "EN"};

void harness()
{
    readfiles();
    Rng g(seed);
    VCHECK("tables-read", wkt.size() > 200 && ent.size() >= 447 && bct.size() > 300, wkt.size() << " " << ent.size() << " " << bct.size());
    std::set<std::string> syms;
    for (auto& x : wkt) syms.insert(x.first);
    for (auto& x : ent) syms.insert(x.first);
    for (auto& x : bct) syms.insert(x.first);
    std::vector<std::string> all(syms.begin(), syms.end());
    ScatteringFactorTablePtr tabs[4];
    for (int k = 0; k < 4; ++k) {
        tabs[k] = ScatteringFactorTable::createByType(TYPES_[k]);
        if (!begin(Fmt() << "table " << TYPES_[k])) return;
        VEQ("radiation", tabs[k]->radiationType(), std::string(TYPES_[k]));
    }
    for (auto& s : all) for (int k = 0; k < 4; ++k) {
        double q = k == 1 ? g.uni(1, 20) : g.flip(.2) ? 0 : g.uni(0, 25);
        if (!begin(Fmt() << "symbol " << s << " " << TYPES_[k] << " q " << q)) return;
        VCHECK("standard", eq(look(tabs[k], s, q), stdval(TYPES_[k], s, q)), look(tabs[k], s, q) << " expected " << stdval(TYPES_[k], s, q));
    }
    // spellings of charges
    static const char* const SUF[] = {"+", "-", "1+", "1-", "2+", "2-", "3+", "0+", "0-", " ", "9+", "4-", " 2+", "2 +", "+ ", "8+", "++", "+2"};
    for (auto& s : all) {
        if (!g.flip(.35)) continue;
        for (auto f : SUF) for (int k = 0; k < 4; ++k) {
            std::string b = (g.flip(.1) ? "12-" : g.flip(.05) ? " " : "") + s + f;
            double q = g.uni(1, 20);
            if (!begin(Fmt() << "spelling '" << b << "' " << TYPES_[k] << " q " << q)) return;
            VCHECK("standard", eq(look(tabs[k], b, q), stdval(TYPES_[k], b, q)), look(tabs[k], b, q) << " expected " << stdval(TYPES_[k], b, q));
        }
    }
    const std::string AB = "+-0189 CHlnD";
    int L = scale(3, 4);
    std::vector<std::string> todo(1, "");
    for (size_t i = 0; i < todo.size(); ++i) {
        std::string s = todo[i];
        if ((int) s.size() < L) for (char c : AB) todo.push_back(s + c);
        if (!begin(Fmt() << "string '" << s << "'")) return;
        VEQ("valence", atomValence(s), valence(s));
        VEQ("bare", atomBareSymbol(s), bare(s));
        int k = i % 4;
        VCHECK("standard", eq(look(tabs[k], s, 2.5), stdval(TYPES_[k], s, 2.5)), TYPES_[k] << " " << look(tabs[k], s, 2.5) << " expected " << stdval(TYPES_[k], s, 2.5));
    }
    // histories of customizations
    for (long it = 0; it < scale(300, 3000); ++it) {
        int k = g.integer(0, 3);
        ScatteringFactorTablePtr t = g.flip() ? tabs[k]->create() : tabs[k]->clone();
        std::map<std::string, std::pair<std::string, double>> m;
        std::vector<std::string> S = {"C", "O2-", "Foo", "Na1+", "D", "Bar", all[g.integer(0, all.size() - 1)]};
        auto pick = [&]() { return S[g.integer(0, S.size() - 1)]; };
        std::string h;
        for (int st = 0; st < 14; ++st) {
            int w = g.integer(0, 9);
            std::string a = pick(), b = g.flip(.1) ? a : pick();
            double q = g.uni(1, 10), x = g.flip(.1) ? 0.0 : g.uni(-5, 9);
            bool threw = false, want = false;
            if (w < 3) { h += a + " as " + b + "; "; t->setCustomAs(a, b); m[a] = std::make_pair(b, 1.0); }
            else if (w < 7) {
                h += Fmt() << a << " as " << b << " " << x << " at " << q << "; ";
                double f = stdval(TYPES_[k], b, q);
                want = f == none();
                try { t->setCustomAs(a, b, x, q); } catch (std::invalid_argument&) { threw = true; }
                if (!want) m[a] = std::make_pair(b, x / f);
            }
            else if (w < 9) { h += "reset " + a + "; "; t->resetCustom(a); m.erase(a); }
            else { h += "reset all; "; t->resetAll(); m.clear(); }
            if (!begin(Fmt() << TYPES_[k] << " history " << h)) return;
            VEQ("rejected", threw, want);
            std::unordered_set<std::string> cs = t->getCustomSymbols();
            VEQ("custom-count", cs.size(), m.size());
            for (auto& z : S) {
                double q1 = g.flip(.3) ? q : g.uni(1, 15), e = none();
                auto i = m.find(z);
                if (i == m.end()) e = stdval(TYPES_[k], z, q1);
                else { e = stdval(TYPES_[k], i->second.first, q1); if (e != none()) e *= i->second.second; }
                VEQ("custom-symbol", cs.count(z), m.count(z));
                double r = look(t, z, q1);
                VCHECK("lookup", eq(r, e), z << " at " << q1 << ": " << r << " expected " << e);
            }
            if (w >= 3 && w < 7 && !threw && stdval(TYPES_[k], b, q) != 0) VCHECK("value-asked", eq(look(t, a, q), x), look(t, a, q) << " expected " << x);
            if (g.flip(.1)) { ScatteringFactorTablePtr o = t->clone(); t->resetAll(); VEQ("clone-own", o->getCustomSymbols().size(), m.size()); t = o; }
        }
    }
    // radii
    for (long it = 0; it < scale(400, 4000); ++it) {
        boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
        std::map<std::string, double> m;
        double d = 0;
        static const char* const S[] = {"C", "Na1+", "A", "Zz", "O2-"};
        std::string h;
        for (int st = 0; st < 10; ++st) {
            std::string a = S[g.integer(0, 4)];
            double r = g.integer(0, 400) / 100.0;
            int w = g.integer(0, 9);
            bool bad = false, threw = false;
            if (w < 3) { t->setCustom(a, r); m[a] = r; h += Fmt() << a << " " << r << "; "; }
            else if (w == 3) { t->resetCustom(a); m.erase(a); h += "reset " + a + "; "; }
            else if (w == 4 && g.flip()) { t->resetAll(); m.clear(); h += "reset all; "; }
            else if (w == 5) { t->setDefault(d = r); h += Fmt() << "default " << r << "; "; VEQ("default", t->getDefault(), r); }
            else {
                std::string s;
                std::map<std::string, double> n = m;
                int c = g.integer(0, 4);
                auto sp = [&]() { return std::string(g.integer(0, 2) * g.integer(0, 1), g.flip() ? ' ' : '\t'); };
                for (int j = 0; j < c; ++j) {
                    std::string b = S[g.integer(0, 4)];
                    double x = g.integer(0, 400) / 100.0;
                    Fmt f;
                    f << (j ? "," : "") << sp() << b << sp();
                    int e = g.flip(.12) ? g.integer(0, 3) : 9;
                    if (e == 0) f << sp() << x;
                    else if (e == 1) f << ":" << sp() << "abc";
                    else if (e == 2) f << ":" << x << "x";
                    else if (e == 3) f << ":" << x << " " << b << ":" << x;
                    else f << ":" << sp() << x << sp();
                    if (e < 4) bad = true;
                    n[b] = x;
                    s += f;
                }
                h += "'" + s + "'; ";
                try { t->fromString(s); } catch (std::invalid_argument&) { threw = true; }
                if (!bad) m = n;
            }
            if (!begin(Fmt() << "radii " << h)) return;
            VEQ("radii-rejected", threw, bad);
            for (auto z : S) VEQ("radius", t->lookup(z), m.count(z) ? m[z] : d);
            VEQ("radii-count", t->getAllCustom().size(), m.size());
            std::string sep = g.flip() ? "," : ", ", e;
            for (auto& kv : m) e += (e.empty() ? "" : sep) + std::string(Fmt() << kv.first << ":"), e += ([&]() { std::ostringstream o; o << kv.second; return o.str(); })();
            VEQ("radii-text", t->toString(sep), e);
            ConstantRadiiTable u;
            u.fromString(t->toString());
            VEQ("radii-text-read", u.getAllCustom().size(), m.size());
            for (auto& kv : m) VEQ("radii-text-read", u.lookup(kv.first), kv.second);
        }
    }
}
