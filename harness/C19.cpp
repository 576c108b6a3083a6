#include "common.hpp"
#include <diffpy/EventTicker.hpp>
#include <diffpy/serialization.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
const char* const vh_rule() { return "random histories of up to 8 counters: click, updateFrom, copy, reset, save and load, also at the end of the range of the event count; a model numbers the clicks"; }
using namespace vh;
using diffpy::eventticker::EventTicker;
#include <sys/wait.h>
#include <climits>
// counters saved by a process with many events are loaded in one with few
static void crossprocess(Rng& g)
{
    for (int it = 0; it < 30; ++it) {
        int fd[2];
        if (pipe(fd)) return;
        const int n = g.integer(2, 6), clicks = g.integer(0, 40), here = g.integer(0, 50);
        std::vector<long> m(n, 0);
        std::vector<int> which;
        for (int k = 0; k < clicks; ++k) which.push_back(g.integer(0, n - 1));
        begin(Fmt() << n << " counters saved after " << clicks << " more events, loaded after " << here);
        for (int k = 0; k < clicks; ++k) m[which[k]] = k + 1;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            std::vector<EventTicker> t(n);
            for (int w : which) t[w].click();
            std::ostringstream os(std::ios::binary);
            { boost::archive::binary_oarchive oa(os); for (int q = 0; q < n; ++q) { const EventTicker& c = t[q]; oa << c; } }
            std::string b = os.str();
            if (write(fd[1], b.data(), b.size()) < 0) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        std::string b; char buf[4096]; ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, k);
        close(fd[0]); int st; waitpid(pid, &st, 0);
        EventTicker local;
        for (int q = 0; q < here; ++q) local.click();
        std::vector<EventTicker> u(n);
        if (g.flip()) for (auto& x : u) x = local;
        std::istringstream is(b, std::ios::binary);
        boost::archive::binary_iarchive ia(is);
        for (int q = 0; q < n; ++q) ia >> u[q];
        EventTicker c; c.click();
        for (int a = 0; a < n; ++a) {
            VCHECK("load-not-newer", u[a] < c, "loaded counter " << a << " is newer than an event after loading");
            if (here >= clicks) continue;
            for (int d = 0; d < n; ++d) if (m[a] && m[d]) VCHECK("load-order", (u[a] < u[d]) == (m[a] < m[d]), a << "," << d);
        }
        if (here >= clicks) for (int a = 0; a < n; ++a) for (int d = 0; d < n; ++d) VCHECK("load-order2", (u[a] < u[d]) == (m[a] < m[d]), a << "," << d);
    }
}

// the count of the last event, to place the histories at the end of its range
EventTicker::value_type& gt();
template <EventTicker::value_type* P> struct Rob { friend EventTicker::value_type& gt() { return *P; } };
template struct Rob<&EventTicker::gtick>;
static std::string dump(const std::vector<EventTicker>& t)
{
    std::ostringstream os(std::ios::binary);
    { boost::archive::binary_oarchive oa(os); for (const EventTicker& c : t) oa << c; }
    return os.str();
}
static void epochs(Rng& g)
{
    for (int it = 0; it < 400; ++it) {
        const long first = g.integer(0, 2);
        const int before = g.integer(0, 12), n = g.integer(2, 6), clicks = g.integer(1, 25);
        gt() = EventTicker::value_type(first, LONG_MAX - before);
        if (!begin(Fmt() << clicks << " clicks of " << n << " counters starting " << before << " events before the end of round " << first)) return;
        std::vector<EventTicker> t(n);
        std::vector<long> m(n, 0);
        for (int k = 0; k < clicks; ++k) {
            int i = g.integer(0, n - 1), j = g.integer(0, n - 1);
            if (g.integer(0, 2)) { t[i].click(); m[i] = k + 1; }
            else { t[i].updateFrom(t[j]); m[i] = std::max(m[i], m[j]); }
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
                VCHECK("round-less", (t[a] < t[b]) == (m[a] < m[b]), a << "," << b << " after " << k + 1 << " steps");
                VCHECK("round-equal", (t[a] == t[b]) == (m[a] == m[b]), a << "," << b << " after " << k + 1 << " steps");
            }
        }
        // counters saved in one round of the count and loaded in another
        EventTicker::value_type saved = gt();
        std::string b = dump(t);
        EventTicker::value_type here(g.integer(0, 3), g.flip() ? LONG_MAX - 40 + g.integer(0, 20) : g.integer(0, 30));
        gt() = here;
        std::istringstream is(b, std::ios::binary);
        boost::archive::binary_iarchive ia(is);
        std::vector<EventTicker> u(n);
        for (int q = 0; q < n; ++q) ia >> u[q];
        EventTicker c; c.click();
        for (int a = 0; a < n; ++a) {
            VCHECK("round-load-not-newer", u[a] < c, "saved at " << saved.first << "," << saved.second << ", loaded at " << here.first << "," << here.second);
            if (saved <= here) VCHECK("round-load-same", u[a] == t[a], "saved at " << saved.first << "," << saved.second << ", loaded at " << here.first << "," << here.second);
        }
    }
    gt() = EventTicker::value_type(0, 1000);
}

void harness()
{
    Rng g(seed);
    crossprocess(g);
    epochs(g);
    for (long it = 0; it < scale(4000, 60000); ++it) {
        int n = g.integer(2, 8), steps = g.integer(1, 60);
        std::vector<EventTicker> t(n);
        std::vector<long> m(n, 0);
        long now = 0;
        std::string log;
        if (!begin(Fmt() << n << " counters, " << steps << " steps")) return;
        for (int k = 0; k < steps; ++k) {
            int i = g.integer(0, n - 1), j = g.integer(0, n - 1);
            switch (g.integer(0, 6)) {
                case 0: case 1: case 2: {
                    EventTicker old = t[i];
                    t[i].click(); m[i] = ++now;
                    for (int q = 0; q < n; ++q) if (q != i) VCHECK("click-newest", t[i] > t[q] && t[q] < t[i] && t[i] != t[q] && !(t[i] == t[q]) && t[i] >= t[q] && !(t[i] <= t[q]), "counter " << i << " clicked after " << q);
                    VCHECK("click-newer-than-before", t[i] > old, "");
                    log += Fmt() << "click " << i << "; "; break; }
                case 3: t[i].updateFrom(t[j]); m[i] = std::max(m[i], m[j]); log += Fmt() << "update " << i << " from " << j << "; "; break;
                case 4: t[i] = t[j]; m[i] = m[j]; log += Fmt() << i << " = " << j << "; "; break;
                case 5: t[i] = EventTicker(); m[i] = 0; log += Fmt() << "reset " << i << "; "; break;
                case 6: {
                    // all counters pass through an archive
                    std::ostringstream os(std::ios::binary);
                    { boost::archive::binary_oarchive oa(os); const std::vector<EventTicker>& ct = t; for (int q = 0; q < n; ++q) { const EventTicker& c = ct[q]; oa << c; } }
                    std::istringstream is(os.str(), std::ios::binary);
                    std::vector<EventTicker> u(n);
                    for (int q = 0; q < n; ++q) if (g.flip()) u[q].click(), ++now;
                    boost::archive::binary_iarchive ia(is);
                    for (int q = 0; q < n; ++q) ia >> u[q];
                    t = u; log += "save and load; "; break; }
            }
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
                VCHECK("less", (t[a] < t[b]) == (m[a] < m[b]), a << "," << b << " after " << log);
                VCHECK("less-equal", (t[a] <= t[b]) == (m[a] <= m[b]), a << "," << b << " after " << log);
                VCHECK("greater", (t[a] > t[b]) == (m[a] > m[b]), a << "," << b << " after " << log);
                VCHECK("greater-equal", (t[a] >= t[b]) == (m[a] >= m[b]), a << "," << b << " after " << log);
                VCHECK("equal", (t[a] == t[b]) == (m[a] == m[b]), a << "," << b << " after " << log);
                VCHECK("not-equal", (t[a] != t[b]) == (m[a] != m[b]), a << "," << b << " after " << log);
            }
            EventTicker fresh;
            for (int a = 0; a < n; ++a) VCHECK("never-clicked", (t[a] > fresh) == (m[a] > 0) && (t[a] == fresh) == (m[a] == 0), a << " after " << log);
        }
    }
}
