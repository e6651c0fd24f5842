// The simulated world around the platform code: a virtual clock and event helpers.
// Every reading of the clock lets some time pass (scripted), so that time moves between any two readings.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <csignal>

namespace world
{
inline uint64_t us = 0;         // time since the trace began
inline uint64_t base = 0;       // value of the microsecond clock when the trace began
inline uint32_t seed = 1, jitter = 0;
inline long readings = 0, stallAt = -1;
inline uint64_t stall = 0;

inline void start(uint64_t clock) { us = 0; base = clock; seed = 1; jitter = 0; readings = 0; stallAt = -1; stall = 0; }
inline uint32_t random() { seed = seed * 1664525u + 1013904223u; return seed >> 8; }
inline void touch()             // a call into the platform
{
    us += 1 + (jitter ? random() % (jitter + 1) : 0);
    if (readings++ == stallAt) us += stall;
}
inline uint64_t clock() { return base + us; }
inline void advance(uint64_t d) { us += d; }
[[noreturn]] inline void hang() { signal(SIGALRM, SIG_DFL); raise(SIGALRM); abort(); }
}
