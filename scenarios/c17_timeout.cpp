// C17: timed waits end no earlier than asked when they fail, and soon after.
#include "sync.hpp"

static const int64_t SLACK = 2000000;       // far more than the steps of a run take, far less than what would be noticed

// A clock of the user's own, with its own epoch.
struct far_clock {
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<far_clock>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::steady_clock::now().time_since_epoch() + std::chrono::hours(1000)); }
};

// One of every kind of object something can be awaited on; nothing to take at first.
struct Thing {
    oqpi::semaphore *ls = nullptr; oqpi::global_semaphore *gs = nullptr;
    oqpi::auto_reset_event *la = nullptr; oqpi::global_auto_reset_event *ga = nullptr;
    oqpi::manual_reset_event *lm = nullptr; oqpi::global_manual_reset_event *gm = nullptr;
    oqpi::global_mutex *mx = nullptr;
    int kind;
    explicit Thing(int k) : kind(k)
    {
        switch (k) {
        case 0: ls = new oqpi::semaphore(0, 5); break;
        case 1: gs = new oqpi::global_semaphore("t17", CREATE, 0, 5); break;
        case 2: la = new oqpi::auto_reset_event(); break;
        case 3: ga = new oqpi::global_auto_reset_event("t17", EITHER); break;
        case 4: lm = new oqpi::manual_reset_event(); break;
        case 5: gm = new oqpi::global_manual_reset_event("t17", CREATE); break;
        default: mx = new oqpi::global_mutex("t17", CREATE, true);
        }
    }
    ~Thing() { delete ls; delete gs; delete la; delete ga; delete lm; delete gm; delete mx; }
    void signal()
    {
        if (ls) ls->notifyOne(); else if (gs) gs->notify(1); else if (la) la->notify(); else if (ga) ga->notify();
        else if (lm) lm->notify(); else if (gm) gm->notify(); else mx->unlock();
    }
    template <typename D> bool wait_for(D d)
    {
        if (ls) return ls->waitFor(d);
        if (gs) return gs->waitFor(d);
        if (la) return la->waitFor(d);
        if (ga) return ga->waitFor(d);
        if (lm) return lm->waitFor(d);
        if (gm) return gm->waitFor(d);
        return chance(50) ? mx->tryLockFor(d) : mx->try_lock_for(d);
    }
    template <typename T> bool wait_until(T t)
    {
        if (ls) return ls->waitUntil(t);
        if (gs) return gs->waitUntil(t);
        if (la) return la->waitUntil(t);
        if (ga) return ga->waitUntil(t);
        if (lm) return lm->waitUntil(t);
        if (gm) return gm->waitUntil(t);
        return chance(50) ? mx->tryLockUntil(t) : mx->try_lock_until(t);
    }
};

struct Call { int64_t ns = 0; int64_t real0 = 0, mono0 = 0, real1 = 0, mono1 = 0; bool done = false, got = false; };

template <typename D> static bool ask(Thing &t, Call &c, D d)
{
    using namespace std::chrono;
    c.ns = duration_cast<nanoseconds>(d).count();
    const nanoseconds ns(c.ns);
    c.real0 = sim_now_real(); c.mono0 = sim_now_mono();
    if (chance(2)) {                                            // the first time there is: over for long
        sim_probe("first time");
        c.ns = INT64_MIN / 2;
        switch (rnd(3)) {
        case 0: return t.wait_until(system_clock::time_point::min());
        case 1: return t.wait_until(steady_clock::time_point::min());
        default: return t.wait_until(far_clock::time_point::min());
        }
    }
    switch (rnd(6)) {
    case 0: return t.wait_until(system_clock::now() + duration_cast<system_clock::duration>(ns));
    case 1: return t.wait_until(steady_clock::now() + duration_cast<steady_clock::duration>(ns));
    case 2: return t.wait_until(far_clock::now() + ns);
    default: return t.wait_for(d);
    }
}
static bool timed(Thing &t, Call &c)
{
    using namespace std::chrono;
    using third = duration<long, std::ratio<1, 3>>;
    // more than 68 or 136 years: nothing is ever early then, unless it is too early; once per run, so that the clocks do not overflow
    if (chance(4) && sim_now_mono() < 1000000000000000000ll) {
        sim_probe("decades");
        if (chance(30)) return ask(t, c, minutes(one_of<int64_t>({35791395, 71582789, -71582789})));
        return ask(t, c, seconds(one_of<int64_t>({2147483647, 2147483648, 2200000000, 4294967295, 4294967296, 4294967299, -2147483649, -4294967297})));
    }
    switch (rnd(12)) {
    case 0: return ask(t, c, seconds(one_of({0, 1, 2, -1, 59, -100000})));
    case 1: return ask(t, c, milliseconds(one_of({0, 1, 999, 1000, 1001, 2500, -1, -999, -1000, -1500})));
    case 2: return ask(t, c, microseconds(one_of({0, 1, 999999, 1000001, 250, -1, -1000001})));
    case 3: return ask(t, c, nanoseconds(one_of<int64_t>({0, 1, 999999999, 1000000000, 1000000001, 4000000000, -1, -999999999, -1000000001})));
    case 4: return ask(t, c, duration<double>(one_of({0., 0.5, 1.25, 0.999999, 3e-9, -0.75, 1e-7})));
    case 5: return ask(t, c, duration<float, std::milli>(one_of({0.f, 0.25f, 1.5f, 999.5f, -2.5f})));
    case 6: return ask(t, c, third(one_of({0, 1, 2, 3, 4, -1, -5})));
    case 7: return ask(t, c, minutes(one_of({0, 1, -1, 1000})));
    case 8: return ask(t, c, hours(one_of({0, 1, -1, 24 * 365})));
    default: return ask(t, c, nanoseconds(int64_t(rnd(2000)) * one_of<int64_t>({1, 1000, 1000000, 1999999})));
    }
}

// no stall and no clock step: both bounds, and success when something came in time
static void bounds(const Call &c, bool upper, const char *what)
{
    const int64_t spent = std::max(c.real1 - c.real0, c.mono1 - c.mono0);
    if (!c.got && spent < c.ns) sim_fail("early", "%s of %ld ns failed after %ld ns", what, long(c.ns), long(spent));
    if (upper && std::max<int64_t>(c.ns, 0) + SLACK < c.mono1 - c.mono0)
        sim_fail("late", "%s of %ld ns took %ld ns", what, long(c.ns), long(c.mono1 - c.mono0));
}
// a mutex belongs to the thread that took it there
static void give_back(Thing &t, const Call &c) { if (WINDOWS && t.mx && c.got) t.mx->unlock(); }
static void end(Call &c, bool got) { QUIET; c.real1 = sim_now_real(); c.mono1 = sim_now_mono(); c.got = got; c.done = true; }

// 1: one waiter, something may come at a known time
static void punctual(Thing &t, bool stalls)
{
    for (int i = rng(1, 3); i > 0; --i) {
        Call &c = oracle<Call>();
        int64_t at = -1;                                        // relative to the call
        if (chance(50)) at = int64_t(rnd(1000)) * one_of<int64_t>({0, 1000, 1000000, 3000000});
        int64_t start = -1, posted = -1;
        Client w = spawn("waiter", [&] { { QUIET; start = sim_now_mono(); } end(c, timed(t, c)); give_back(t, c); });
        if (at >= 0) { sim_sleep(at); posted = sim_now_mono(); t.signal(); posted = std::max(posted, sim_now_mono()); }
        join(w);
        bounds(c, !stalls, "a timed wait");
        if (at < 0 && c.got) sim_fail("success-from-nothing", "a timed wait succeeded although nothing was signalled");
        if (at >= 0 && !stalls) {
            if (!c.got && posted + SLACK < c.mono0 + c.ns) sim_fail("missed", "a timed wait of %ld ns failed although it was signalled %ld ns after it began", long(c.ns), long(posted - c.mono0));
            if (c.got && c.mono1 > std::max(posted, c.mono0) + SLACK) sim_fail("late", "a timed wait returned %ld ns after it was signalled", long(c.mono1 - posted));
        }
        if (c.got) sim_probe("signalled in time");
        if (t.lm) t.lm->reset();
        else if (t.gm) t.gm->reset();
        else if (at >= 0 && !c.got) {
            // what came too late is still there, whatever the timeout
            Call &again = oracle<Call>();
            end(again, timed(t, again));
            if (!again.got) sim_fail("missed", "a timed wait of %ld ns failed although the object was signalled", long(again.ns));
        }
        else if (WINDOWS && t.mx && c.got) t.mx->lock();
    }
}
// 2: several waiters with timeouts of their own, a few signals
static void crowd(Thing &t, bool stalls)
{
    std::vector<Client> cs;
    std::vector<Call *> &calls = oracle<std::vector<Call *>>();
    const int n = rng(2, 4);
    for (int i = 0; i < n; ++i) {
        Call &c = oracle<Call>();
        { QUIET; calls.push_back(&c); }
        cs.push_back(spawn("waiter", [&t, &c] { end(c, timed(t, c)); }));
    }
    int signals = 0;
    if (t.kind != 6) for (int i = rnd(3); i > 0; --i) { if (chance(50)) sim_sleep(rnd(3000) * 1000000ll); t.signal(); ++signals; }
    join_all(cs);
    int got = 0;
    for (auto *c : calls) { bounds(*c, !stalls, "a timed wait"); got += c->got; }
    if (t.kind != 4 && t.kind != 5 && got > signals) sim_fail("success-from-nothing", "%d timed waits succeeded after %d signals", got, signals);
    if (got && !signals) sim_fail("success-from-nothing", "%d timed waits succeeded although nothing was signalled", got);
}
// 3: the wall clock steps while somebody waits
static void stepped(Thing &t)
{
    Call &c = oracle<Call>();
    Client w = spawn("waiter", [&] { end(c, timed(t, c)); give_back(t, c); });
    sim_settle();
    int64_t mono_deadline = c.mono0 + c.ns, real_deadline = c.real0 + c.ns;
    if (c.done) { join(w); bounds(c, true, "a timed wait"); return; }
    if (chance(40)) sim_sleep(rnd(1000) * 1000000ll);
    if (!c.done) {
        const int64_t jump = one_of<int64_t>({1, 1000000, -1000000, 999999999, 1000000000, -1000000000, 60000000000, 3600000000000, -3600000000000, 86400000000000});
        const int64_t before = sim_now_real();
        sim_set_real(before + jump);
        sim_settle();
        sim_probe("clock stepped during a wait");
        if (c.done && !c.got && sim_now_mono() < mono_deadline && std::max(before, sim_now_real()) < real_deadline)
            sim_fail("early", "after a clock step of %ld ns a timed wait of %ld ns failed although no clock had reached its deadline", long(jump), long(c.ns));
        if (!c.done && sim_now_mono() > mono_deadline + SLACK && sim_now_real() > real_deadline + SLACK)
            sim_fail("late", "a timed wait of %ld ns goes on although every clock passed its deadline", long(c.ns));
    }
    const bool sig = chance(30);
    if (sig) t.signal();
    join(w);
    if (c.got && !sig) sim_fail("success-from-nothing", "a timed wait succeeded although nothing was signalled");
    if (!c.got && c.mono1 < mono_deadline && c.real1 < real_deadline) sim_fail("early", "a timed wait of %ld ns failed although no clock had reached its deadline", long(c.ns));
    if (c.mono1 > mono_deadline + SLACK && c.real1 > real_deadline + SLACK) sim_fail("late", "a timed wait of %ld ns went on until every clock was past its deadline", long(c.ns));
}

// 4: as long as can be said, which is as good as for ever
static void for_ever(Thing &t)
{
    using namespace std::chrono;
    Client w = spawn("waiter", [&] {
        bool got;
        switch (rnd(7)) {
        case 0: got = t.wait_for(nanoseconds::max()); break;
        case 1: got = t.wait_for(seconds(9000000000)); break;
        case 2: got = t.wait_for(hours(2562047)); break;
        case 3: got = t.wait_for(duration<double>(9e9)); break;
        case 4: got = t.wait_until(steady_clock::time_point::max()); break;
        case 5: got = t.wait_until(far_clock::time_point::max()); break;
        default: got = t.wait_until(system_clock::time_point::max());
        }
        if (!got) sim_fail("early", "a wait for centuries failed");
        if (WINDOWS && t.mx) t.mx->unlock();
    });
    if (chance(80)) sim_sleep(one_of<int64_t>({1000, 1000000, 2500000000, 100000000000000ll}));
    t.signal();
    join(w);
    sim_probe("for ever");
}

static void scenario()
{
    sim_race_detection(0);
    const int mode = rnd(4);
    sim_set_real(1700000000ll * 1000000000 + one_of<int64_t>({0, 1, 999999999, 999990000, 999000000, 500000000, 999999000, 250000001}));
    if (chance(50)) sim_fault_enable(SIM_F_EINTR, one_of({50, 300, 800}), rng(2, 40));
    const bool stalls = mode == 1 && chance(60);
    if (stalls) sim_fault_enable(SIM_F_STALL, one_of({5, 50}), rng(1, 6));
    {
        Thing t(rnd(7));
        if (!stalls && chance(5)) for_ever(t);
        else if (mode <= 1) punctual(t, stalls);
        else if (mode == 2) crowd(t, false);
        else stepped(t);
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c17_timeout", scenario); }
