// Semaphores, events and mutexes of every flavour.
#pragma once
#include "linear.hpp"

using oqpi::sync_object_creation_options;
static const auto CREATE = sync_object_creation_options::create_if_nonexistent;
static const auto OPEN   = sync_object_creation_options::open_existing;
static const auto EITHER = sync_object_creation_options::open_or_create;

struct Count { int n; std::string key() const { return std::string((const char *)&n, sizeof n); } };

// Waits for a duration picked at random, in one of the ways the interface offers. Sets 'asked' to the duration in nanoseconds.
template <typename T> inline bool timed_wait(T &t, int64_t ns)
{
    using namespace std::chrono;
    switch (rnd(3)) {
    case 0: return t.waitFor(nanoseconds(ns));
    case 1: return t.waitUntil(system_clock::now() + nanoseconds(ns));
    default: return t.waitUntil(steady_clock::now() + nanoseconds(ns));
    }
}
inline int64_t short_wait() { return one_of<int64_t>({0, 0, -1000, 100, 2000, 20000, 400000}); }

// Interruptions, stalls past a deadline, and a wall clock that starts close to a full second or steps.
inline void time_faults(bool jumps)
{
    if (chance(50)) sim_fault_enable(SIM_F_EINTR, one_of({50, 200, 500}), rng(2, 30));
    if (chance(30)) sim_fault_enable(SIM_F_STALL, one_of({5, 50}), rng(1, 6));
    if (chance(50)) sim_set_real(1700000000ll * 1000000000 + one_of<int64_t>({0, 1, 999999999, 999990000, 999000000, 500000000, 999999000}));
    if (jumps && chance(20)) sim_fault_enable(SIM_F_CLOCK_JUMP, 200, rng(1, 4));
}
