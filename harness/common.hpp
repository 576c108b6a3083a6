// Shared support for the replay harnesses: they run the real compiled code of
// /repo on concrete inputs, (a) to replay what the verifier refutes and (b) as
// the labelled bounded stand-in for functions the verifier cannot reach.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <stdexcept>
#include <algorithm>
#include <limits>
#include <csignal>
#include <unistd.h>

namespace vh {

struct Rng {
    unsigned long long s;
    explicit Rng(unsigned long long x = 1) : s(0x1234567ULL) { s += x * 0xD1342543DE82EF95ULL; s = next(); s = next() ^ x; next(); }
    unsigned long long next() {
        s += 0x9E3779B97F4A7C15ULL;
        unsigned long long z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int integer(int lo, int hi) { return lo + (int)(next() % (unsigned long long)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool flip(double p = 0.5) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

static long seed = 1;
static bool thorough = false;
static std::vector<double> hints;      // numbers from the verifier's countermodel
static long ncases = 0, nnontrivial = 0, nfail = 0;
static std::vector<std::string> samples;
static std::string current;
static std::set<std::string> failkeys;

inline long scale(long quick, long thor) { return thorough ? thor : quick; }

// describe the case about to run; returns false when the run should stop
inline bool begin(const std::string& desc, bool nontrivial = true)
{
    current = desc;
    ++ncases;
    if (nontrivial) ++nnontrivial;
    if (samples.size() < 6 && (ncases & (ncases - 1)) == 0) samples.push_back(desc);
    return nfail < 40;
}

inline std::string clean(std::string s)
{
    for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') s[i] = ' ';
    return s;
}

inline void fail(const std::string& key, const std::string& what)
{
    if (failkeys.count(key)) { ++nfail; return; }
    failkeys.insert(key);
    ++nfail;
    printf("FAIL key=%s case={%s} %s\n", key.c_str(), clean(current).c_str(), clean(what).c_str());
    fflush(stdout);
}

inline bool close(double a, double b, double tol = 1e-9)
{
    if (a == b) return true;
    if (a != a && b != b) return true;
    return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}

inline std::string str(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }
inline std::string str(int x) { char b[64]; snprintf(b, sizeof b, "%d", x); return b; }
inline std::string str(long x) { char b[64]; snprintf(b, sizeof b, "%ld", x); return b; }
inline std::string str(unsigned long x) { char b[64]; snprintf(b, sizeof b, "%lu", x); return b; }
inline std::string str(bool x) { return x ? "true" : "false"; }
template <class T> std::string str(const std::vector<T>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size() && i < 12; ++i) r += (i ? "," : "") + str(v[i]);
    if (v.size() > 12) r += ",...";
    return r + "]";
}
struct Fmt {
    std::string s;
    template <class T> Fmt& operator<<(const T& x) { s += str(x); return *this; }
    operator std::string() const { return s; }
};

#define VCHECK(key, cond, msg) do { if (!(cond)) vh::fail(key, std::string(#cond " violated: ") + std::string(vh::Fmt() << msg)); } while (0)
#define VEQ(key, a, b) do { auto va_ = (a); auto vb_ = (b); if (!(va_ == vb_)) vh::fail(key, std::string(vh::Fmt() << #a " = " << va_ << ", expected " << vb_)); } while (0)
#define VNEAR(key, a, b, tol) do { double va_ = (a); double vb_ = (b); if (!vh::close(va_, vb_, tol)) vh::fail(key, std::string(vh::Fmt() << #a " = " << va_ << ", expected " << vb_)); } while (0)

inline void onsig(int sig)
{
    printf("FAIL key=signal-%d case={%s} the library stopped the process (signal %d)\n", sig, clean(current).c_str(), sig);
    fflush(stdout);
    _exit(3);
}

inline void finish()
{
    for (size_t i = 0; i < samples.size(); ++i) printf("SAMPLE %s\n", clean(samples[i]).c_str());
    printf("CASES %ld %ld\n", ncases, nnontrivial);
    fflush(stdout);
}

}   // namespace vh

void harness();     // defined by each harness
const char* const vh_rule();   // how cases are made

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--seed") && i + 1 < argc) vh::seed = atol(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) vh::thorough = true;
        else if (!strcmp(argv[i], "--hint") && i + 1 < argc) vh::hints.push_back(atof(argv[++i]));
    }
    int sg[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
    for (int s : sg) signal(s, vh::onsig);
    printf("RULE %s\n", vh_rule());
    try { harness(); }
    catch (std::exception& e) { vh::fail("unexpected-exception", std::string("exception escaped: ") + e.what()); }
    vh::finish();
    return vh::nfail ? 1 : 0;
}
#endif
