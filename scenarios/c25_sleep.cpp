// C25: sleeping lasts at least as long as asked, and not much longer.
#include "common.hpp"
#include <chrono>

static const int64_t SLACK = 2000000;

struct far_clock {
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<far_clock>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::steady_clock::now().time_since_epoch() + std::chrono::hours(1000)); }
};

static bool stalls, steps;               // the system clock is set now and then
static std::vector<int64_t> *left;       // what it showed each time, right before
template <typename D> static void nap(D d)
{
    using namespace std::chrono;
    int64_t ns = duration_cast<nanoseconds>(d).count();
    const int64_t t0 = sim_now_mono();
    int64_t target = INT64_MIN;             // on the system clock
    size_t since;
    { QUIET; since = left->size(); }
    const int how = chance(2) ? 6 : rnd(6);
    switch (how) {
    case 0: {
        const auto t = system_clock::now() + nanoseconds(ns);
        target = duration_cast<nanoseconds>(t.time_since_epoch()).count();
        oqpi::this_thread::sleep_until(t);
        break;
    }
    case 1: oqpi::this_thread::sleep_until(steady_clock::now() + nanoseconds(ns)); break;
    case 2: oqpi::this_thread::sleep_until(far_clock::now() + nanoseconds(ns)); break;
    case 6:                                                     // until the first time there is
        sim_probe("first time"); ns = 0;
        switch (rnd(3)) {
        case 0: oqpi::this_thread::sleep_until(system_clock::time_point::min()); break;
        case 1: oqpi::this_thread::sleep_until(steady_clock::time_point::min()); break;
        default: oqpi::this_thread::sleep_until(far_clock::time_point::min());
        }
        break;
    default: oqpi::this_thread::sleep_for(d);
    }
    const int64_t spent = sim_now_mono() - t0;
    const char *what = how <= 2 || how == 6 ? "until a time" : "for a duration";
    if (steps && target != INT64_MIN) {
        QUIET;
        int64_t seen = sim_now_real();
        for (; since < left->size(); ++since) seen = std::max(seen, (*left)[since]);
        if (seen < target) sim_fail("early", "sleeping until a time of the system clock, which was set meanwhile, ended %ld ns before", long(target - seen));
        return;
    }
    if (spent < ns) sim_fail("early", "sleeping %s %ld ns away ended after %ld ns", what, long(ns), long(spent));
    if (!stalls && spent > std::max<int64_t>(ns, 0) + SLACK) sim_fail("late", "sleeping %s %ld ns away took %ld ns", what, long(ns), long(spent));
    if (sim_fault_count(SIM_F_EINTR) > 1) sim_probe("interrupted more than once");
}
static void some_nap()
{
    using namespace std::chrono;
    using third = duration<long, std::ratio<1, 3>>;
    if (!stalls && chance(4) && sim_now_mono() < 1000000000000000000ll) {
        sim_probe("decades");
        if (chance(30)) return nap(minutes(one_of<int64_t>({35791395, 71582789, -71582789})));
        return nap(seconds(one_of<int64_t>({2147483647, 2147483648, 2200000000, 4294967295, 4294967296, 4294967299, -2147483649, -4294967297})));
    }
    switch (rnd(12)) {
    case 0: return nap(seconds(one_of({0, 1, 2, -1, 59, -100000})));
    case 1: return nap(milliseconds(one_of({0, 1, 999, 1000, 1001, 2500, -1, -999, -1000, -1500})));
    case 2: return nap(microseconds(one_of({0, 1, 999999, 1000001, 250, -1, -1000001})));
    case 3: return nap(nanoseconds(one_of<int64_t>({0, 1, 999999999, 1000000000, 1000000001, 4000000000, -1, -999999999})));
    case 4: return nap(duration<double>(one_of({0., 0.5, 1.25, 0.999999, 3e-9, -0.75, 1e-7})));
    case 5: return nap(duration<float, std::milli>(one_of({0.f, 0.25f, 1.5f, 999.5f, -2.5f})));
    case 6: return nap(third(one_of({0, 1, 2, 3, 4, -1, -5})));
    case 7: return nap(minutes(one_of({0, 1, -1, 1000})));
    case 8: return nap(hours(one_of({0, 1, -1, 24 * 365})));
    default: return nap(nanoseconds(int64_t(rnd(2000)) * one_of<int64_t>({1, 1000, 1000000, 1999999})));
    }
}

static void scenario()
{
    sim_race_detection(0);
    sim_set_real(1700000000ll * 1000000000 + one_of<int64_t>({0, 1, 999999999, 999990000, 500000000}));
    if (chance(80)) sim_fault_enable(SIM_F_EINTR, one_of({50, 300, 800, 1000}), rng(1, 40));
    stalls = chance(20);
    if (stalls) sim_fault_enable(SIM_F_STALL, one_of({5, 50}), rng(1, 6));
    std::vector<Client> cs;
    steps = chance(30);
    { QUIET; left = new std::vector<int64_t>; }
    for (int i = rng(1, 3); i > 0; --i) cs.push_back(spawn("sleeper", [] { for (int k = rng(1, 3); k > 0; --k) some_nap(); }));
    // somebody sets the system clock
    if (steps) cs.push_back(spawn("clock setter", [] {
        for (int k = rng(1, 3); k > 0; --k) {
            sim_sleep(one_of<int64_t>({1, 1000, 1000000, 500000000, 2000000000, 60000000000}));
            { QUIET; left->push_back(sim_now_real()); }
            sim_set_real(sim_now_real() + one_of<int64_t>({1000000, -1000000, 1000000000, -1000000000, -3600000000000, 3600000000000, -1}));
            sim_probe("clock set");
        }
    }));
    join_all(cs);
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c25_sleep", scenario); }
