ETC, ETH = "EventTicker.cpp", "EventTicker.hpp"
TIK = """
#include <climits>
#include <utility>
#include <diffpy/serialization.ipp>
#include <diffpy/EventTicker.hpp>
using namespace diffpy::eventticker;
EventTicker::value_type& gt();
template <EventTicker::value_type* P> struct Rob { friend EventTicker::value_type& gt() { return *P; } };
template struct Rob<&EventTicker::gtick>;
"""
seed("C19-epoch-lost", "C19", [(ETC, "        ++gtick.first;\n        gtick.second = 0;", "        gtick.second = 0;\n        if (gtick.first < 0)  ++gtick.first;")],
     "the counter of clicks overflows", "events after the overflow look older than all before", TIK + r"""
int main() { EventTicker a, b; gt().second = LONG_MAX - 1; a.click(); b.click(); OK(b > a); return bad; }""")
seed("C19-update-second", "C19", [(ETC, "if (other > *this)  mtick = other.mtick;", "if (other.mtick.second > mtick.second || other.mtick.first > mtick.first)  mtick = other.mtick;")],
     "updating a counter clicked after the overflow from one clicked before", "the older event wins", TIK + r"""
int main() { EventTicker a, b; gt().second = LONG_MAX - 1; a.click(); b.click(); b.click(); EventTicker c = b; b.updateFrom(a); OK(b == c); return bad; }""")
seed("C19-load-newer", "C19", [(ETH, "if (ga > gtick)", "if (ga.second > gtick.second && ga.first == gtick.first)")],
     "a counter saved after an overflow is loaded by a program without one", "clicks after loading look older than the loaded counter", TIK + r"""
int main() { EventTicker a, b, c; gt() = EventTicker::value_type(1, 5); a.click(); std::string s = diffpy::serialization_tostring(a);
  gt() = EventTicker::value_type(0, 0); diffpy::serialization_fromstring(b, s); c.click(); OK(c > b); return bad; }""")
