// The simulated UART: bytes arrive at scripted times; every byte taken and every byte sent is an event.
#pragma once
#include "world.h"
#include "drv.h"
#include <deque>
#include <set>

namespace uart
{
inline std::deque<std::pair<uint64_t, uint8_t>> arrivals;
inline std::set<long> readErrors;     // numbers of the failing read calls
inline long reads = 0;
inline long accept = -2;              // what the next write accepts: a count, -1 error, -2 everything
inline long deviceTimeout = 1000;
inline int port = 1, label = 1;      // the UART the commands are about, and what traces call it
inline int pending = 0;               // accepted and not yet transmitted
inline bool quiet = false;
// Long receptions: bytes that are no delimiter and taken one after the other are one event (if asked for).
inline bool merge = false;
inline std::array<int, 2> delims = {-1, -1};
inline std::vector<uint8_t> run;
inline uint64_t runEnd = 0;
inline void endRun()
{
    if (run.empty()) return;
    auto r = std::move(run);
    run.clear();
    drv::Ev("Run").bytes("data", r.data(), r.size()).num("t", runEnd).emit();
}

inline void reset() { merge = false; run.clear(); drv::before = endRun; arrivals.clear(); readErrors.clear(); reads = 0; accept = -2; deviceTimeout = 1000; pending = 0; quiet = false; }
inline bool available() { return !arrivals.empty() && arrivals.front().first <= world::us; }
inline size_t buffered() { size_t n = 0; for (auto &a : arrivals) n += a.first <= world::us; return n; }
inline int take(const char* ev = "Take")
{
    uint8_t b = arrivals.front().second;
    arrivals.pop_front();
    if (merge && *ev == 'T' && b != delims[0] && b != delims[1]) { run.push_back(b); runEnd = world::us; return b; }
    drv::Ev(ev).num("b", b).num("t", world::us).emit();
    return b;
}
inline int name(int p) { return p == port ? label : p == label ? -1 : p; }
inline void drop(int p = port) { if (p != port) drv::Ev("WrongPort").num("port", p).emit(); else while (available()) take("Drop"); }
inline long send(const uint8_t* d, size_t n, int p = port)
{
    long k = accept == -2 ? (long)n : accept == -1 ? -1 : std::min<long>(accept, n);
    accept = -2;
    pending += k > 0 ? k : 0;
    drv::Ev("Wire").bytes("data", d, k > 0 ? k : 0).num("given", n).num("res", k).num("port", name(p)).emit();
    return k;
}
inline void drained(int p = port) { if (p == port) pending = 0; drv::Ev("Drained").num("port", name(p)).emit(); }
}
