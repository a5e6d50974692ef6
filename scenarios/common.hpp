// Shared by every scenario: the code under test, compiled unmodified, and small helpers around the simulator.
#pragma once
#define OQPI_USE_DEFAULT
#include "sim.h"

#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#ifdef SIM_WINDOWS
// The Windows backend, on a simulated Win32: every other header comes first.
#include <array>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <ctime>
#include <deque>
#include <iostream>
#include <limits>
#include <mutex>
#include <queue>
#include <sstream>
#include <tuple>
#include <type_traits>
#define _WIN32 1
#include "oqpi.hpp"
#undef _WIN32
static constexpr bool WINDOWS = true;       // where its objects differ by nature
#else
#include "oqpi.hpp"
static constexpr bool WINDOWS = false;
#endif

using H = oqpi::default_helpers;
using prio_t = oqpi::task_priority;
static const auto WAITABLE = oqpi::task_type::waitable;
static const auto FORGET   = oqpi::task_type::fire_and_forget;

inline int  rnd(int n) { return int(sim_choose(uint32_t(n))); }
inline int  rng(int lo, int hi) { return lo + rnd(hi - lo + 1); }
inline bool chance(int percent) { return rnd(100) >= 100 - percent; }   // shrinks towards false
template <typename T> inline T one_of(std::initializer_list<T> l) { return *(l.begin() + rnd(int(l.size()))); }

// ---- client threads
struct Client {
    int id = -1;
    static void run(void *p)
    {
        auto *f = static_cast<std::function<void()> *>(p);
        (*f)();
    }
};
// The closure lives in oracle memory; its body runs as ordinary user code.
template <typename F> inline Client spawn(const char *name, F f, int proc = 0)
{
    std::function<void()> *p;
    { QUIET; p = new std::function<void()>(std::move(f)); }
    Client c;
    c.id = sim_spawn(Client::run, p, name, proc);
    return c;
}
inline void join(const Client &c) { sim_join(c.id); }
inline void join_all(const std::vector<Client> &v) { for (auto &c : v) sim_join(c.id); }

// Containers of the oracle are filled under QUIET; this makes one such object that outlives the scope.
template <typename T, typename... A> inline T &oracle(A &&...a) { QUIET; return *new T(std::forward<A>(a)...); }

// A piece of the user's own work: some scheduling points, rarely a sleep, so that others get to run in between.
inline void some_work(int kind)
{
    switch (kind % 8) {
    case 0: case 1: case 2: break;
    case 3: case 4: sim_point(); break;
    case 5: sim_point(); sim_point(); sim_point(); break;
    case 6: sim_yield(); break;
    default: sim_sleep(1000 * (kind % 16)); break;
    }
}

inline prio_t any_prio() { return prio_t(rnd(5)); }

// ---- scheduler configuration
// The library's name for a set of task priorities, bit i for the i-th one from high to low.
inline oqpi::worker_priority worker_prio(int mask)
{
    using P = oqpi::worker_priority;
    switch (mask) {
    case 0b11111: return P::wprio_any;
    case 0b01110: return P::wprio_any_normal;
    case 0b11110: return P::wprio_normal_or_low;
    case 0b01111: return P::wprio_normal_or_high;
    }
    const P each[5] = {P::wprio_high, P::wprio_above_normal, P::wprio_normal, P::wprio_below_normal, P::wprio_low};
    int all = 0;
    for (int i = 0; i < 5; ++i) if (mask & 1 << i) all |= int(each[i]);
    return P(all);
}
inline int any_mask() { return chance(30) ? one_of({0b01110, 0b11110, 0b01111}) : rng(1, 30); }
// What worker_cfg was told, from the name it gave
inline int mask_of(const oqpi::worker_config &c) { const std::string &n = c.threadAttributes.name_; return n[0] == 'w' && n[1] ? atoi(n.c_str() + 1) : 31; }
inline oqpi::worker_config worker_cfg(int count, int mask)
{
    oqpi::worker_config c;
    c.threadAttributes = oqpi::thread_attributes("w" + std::to_string(mask) + ".");
    c.workerPrio = worker_prio(mask);
    c.count = count;
    return c;
}

using sem_default = oqpi::semaphore_interface<>;
using thr_default = oqpi::thread_interface<>;
using sched_t = oqpi::scheduler<concurrent_queue>;

struct WorldConfig {
    int maxWorkers = 4;
    bool mixedPrio = true;      // several worker classes with different priority masks
    bool faults = true;         // interruptions and weak-cas failures
    bool attributes = false;    // stack sizes, cores and priorities for the workers, now and then ten of a kind
    bool crowd = false;         // now and then more workers than a word has bits
};

// A freshly constructed scheduler in the static the helpers use, with a randomised set of workers.
struct World {
    int workers = 0, cores = 4;
    std::vector<int> *masks;    // priority mask of each worker class
    std::vector<int> *counts;   // number of workers of each
    std::vector<oqpi::worker_config> *cfgs;   // what they were registered with
    void (*byDefault)(int) = nullptr;   // the scheduler registers its workers when it is started for the first time
    explicit World(const WorldConfig &wc = WorldConfig()) : World(wc, false) {}
    template <typename Ctx = oqpi::empty_worker_context> static World make(const WorldConfig &wc);
    World(const WorldConfig &wc, bool skip)
    {
        masks = &oracle<std::vector<int>>();
        { QUIET; counts = new std::vector<int>; cfgs = new std::vector<oqpi::worker_config>; }
        new (&H::scheduler_) sched_t();
        if (!skip) setup<oqpi::empty_worker_context>(wc);
    }
    template <typename Ctx> void setup(const WorldConfig &wc)
    {
        int shape = wc.mixedPrio ? rnd(4) : 0;
        const bool crowd = wc.crowd && rnd(400) == 399;
        const bool ten = wc.attributes && chance(3);
        if (ten) { shape = 6; sim_limits(30000, 1000000); sim_probe("ten workers of a kind"); }
        else if (crowd) { shape = 5; sim_limits(60000, 6000000); sim_probe("more than 32 workers"); }
        else if (chance(8)) {
            // as the examples do it
            workers = rng(1, wc.maxWorkers);
            { QUIET; masks->push_back(31); counts->push_back(workers); }
            oqpi::worker_config c;
            c.threadAttributes = oqpi::thread_attributes("oqpi::worker_", 0, oqpi::all_cores, oqpi::thread_priority::highest);
            c.count = workers;
            { QUIET; cfgs->push_back(c); }
            if (chance(30)) {
                // as many as there are cores
                sim_set_cores(cores = workers);
                sim_probe("as many workers as cores");
                if (std::is_same<Ctx, oqpi::empty_worker_context>::value && chance(50)) byDefault = [](int) { H::start_default_scheduler(); };
                else byDefault = [](int) { H::template start_default_scheduler<Ctx>(); };
            }
            else if (std::is_same<Ctx, oqpi::empty_worker_context>::value && chance(50)) byDefault = [](int n) { H::start_default_scheduler(n); };
            else byDefault = [](int n) { H::template start_default_scheduler<Ctx>(n); };
            shape = 4;
        }
        std::vector<oqpi::worker_config> pending;
        const bool array = chance(30);
        auto reg = [&](int count, int mask) {
            { QUIET; masks->push_back(mask); counts->push_back(count); }
            auto c = worker_cfg(count, mask);
            c.threadAttributes.name_ += char('a' + masks->size());
            if (wc.attributes && chance(50)) {
                c.threadAttributes.stackSize_ = one_of<uint32_t>({0, 65536, 1u << 20});
                if (chance(70)) c.threadAttributes.coreAffinityMask_ = oqpi::core_affinity(rng(1, 15));
                c.threadAttributes.priority_ = oqpi::thread_priority(rnd(6));
            }
            { QUIET; cfgs->push_back(c); }
            workers += count;
            if (array) { pending.push_back(c); return; }
            H::scheduler_.template registerWorker<thr_default, sem_default, Ctx>(c);
        };
        if (shape == 4) ;
        else if (shape == 6) { reg(rng(10, 13), 31); if (chance(50)) reg(rng(1, 2), any_mask()); }
        else if (shape == 5) { const int m = chance(30) ? 31 : any_mask(); reg(rng(32, 35), m); reg(rng(1, 2), m == 31 ? 31 : 31 & ~m); }
        else if (shape == 0) reg(rng(1, wc.maxWorkers), 31);
        else if (shape == 1) { reg(1, 31); if (wc.maxWorkers > 1) reg(rng(1, std::max(1, wc.maxWorkers - 1)), 1 << rnd(5)); }
        else if (shape == 2) { int m = any_mask(); reg(rng(1, 2), m); reg(1, 31 & ~m); }
        else { int m = any_mask(); reg(1, m); reg(rng(1, 2), (31 & ~m) | rnd(32)); if (chance(30)) reg(1, rng(1, 31)); }
        if (pending.size() == 2) {
            const oqpi::worker_config both[2] = {pending[0], pending[1]};
            if constexpr (std::is_same<Ctx, oqpi::empty_worker_context>::value) H::scheduler_.template registerWorkers<thr_default, sem_default>(both);
            else H::scheduler_.template registerWorkers<thr_default, sem_default, Ctx>(both);
        } else for (auto &c : pending) {
            if constexpr (std::is_same<Ctx, oqpi::empty_worker_context>::value) H::scheduler_.template registerWorker<thr_default, sem_default>(c);
            else H::scheduler_.template registerWorker<thr_default, sem_default, Ctx>(c);
        }
        if (wc.faults && chance(40)) sim_fault_enable(SIM_F_EINTR, one_of({20, 100, 300}), rng(1, 12));
        if (wc.faults && chance(20)) sim_fault_enable(SIM_F_CAS_WEAK, 200, 20);
    }
    // The system refuses threads to some of the workers, the others can still do all the work.
    void refuse_some_threads()
    {
        if (masks->size() == 1 && workers > 1) sim_fault_enable(SIM_F_THREAD_CREATE, one_of({200, 500, 900}), workers - 1);
    }
    void start()
    {
        if (!byDefault) { H::scheduler_.start(); return; }
        auto f = byDefault;
        byDefault = nullptr;
        f(workers);
        const int all = H::scheduler().workersTotalCount();
        if (all != workers) sim_fail("worker-count", "the default scheduler should have %d workers and has %d", workers, all);
    }
    // The scheduler tells how many workers are registered, altogether and for each priority.
    void check_counts()
    {
        if (byDefault) return;              // not registered yet
        const int all = H::scheduler().workersTotalCount();
        if (all != workers) sim_fail("worker-count", "a scheduler of %d workers tells %d", workers, all);
        for (int p = 0; p < 5; ++p) {
            int n = 0;
            for (size_t i = 0; i < masks->size(); ++i) if ((*masks)[i] & (1 << p)) n += (*counts)[i];
            const int told = H::scheduler().workersCount(prio_t(p));
            if (told != n) sim_fail("worker-count", "a scheduler with %d workers for priority %d tells %d", n, p, told);
        }
    }
    void stop() { if (chance(30)) H::stop_scheduler(); else H::scheduler_.stop(); }
    void destroy() { H::scheduler_.~scheduler(); }
};

inline void check_no_leak()
{
    QUIET;
    if (sim_live_allocs()) { sim_dump_leaks(); sim_fail("leak", "%zu block(s) allocated by the library in this run were never freed", sim_live_allocs()); }
    if (WINDOWS) if (int n = sim_win_handles(0)) sim_fail("handles", "%d handle(s) are still open", n);
}

