// C16: a mutex admits one holder at a time and orders critical sections.
#include "sync.hpp"
#include <mutex>

enum { LOCK, TRY, UNLOCK };
using M = oqpi::global_mutex;
static History *hist;
static int inside;
struct Shared { int value = 0; std::string text; };      // ordinary user data, protected by nothing else
static Shared *shared;

static void section()
{
    { QUIET; if (++inside != 1) sim_fail("two-holders", "%d threads are between lock and unlock at once", inside); }
    int v = shared->value;
    some_work(rnd(8));
    shared->value = v + 1;
    shared->text = std::string(size_t(v % 5), 'x');
    { QUIET; if (inside != 1) sim_fail("two-holders", "%d threads are between lock and unlock at once", inside); --inside; }
}
static int entered;
static void got(M &m, int o, bool r)
{
    hist->end(o, r);
    if (!r) return;
    { QUIET; ++entered; }
    section();
    int u = hist->begin("unlock", UNLOCK);
    m.unlock();
    hist->end(u, 1);
}
static bool timed_lock(M &m, int64_t ns)
{
    using namespace std::chrono;
    switch (rnd(4)) {
    case 0: return m.tryLockFor(nanoseconds(ns));
    case 1: return m.try_lock_for(nanoseconds(ns));
    case 2: return m.tryLockUntil(system_clock::now() + nanoseconds(ns));
    default: return m.try_lock_until(steady_clock::now() + nanoseconds(ns));
    }
}
static void script(M &m)
{
    for (int k = rng(1, 4); k > 0; --k) {
        switch (rnd(6)) {
        case 0: { int o = hist->begin("tryLock", TRY); got(m, o, chance(50) ? m.tryLock() : m.try_lock()); break; }
        case 1: case 2: { int o = hist->begin("tryLockFor", TRY); got(m, o, timed_lock(m, short_wait())); break; }
        case 3: {                       // through the standard wrapper
            int o = hist->begin("lock", LOCK);
            std::unique_lock<M> l(m);
            hist->end(o, 1);
            { QUIET; ++entered; }
            section();
            int u = hist->begin("unlock", UNLOCK);
            l.unlock();
            hist->end(u, 1);
            break;
        }
        default: {
            int o = hist->begin("lock", LOCK);
            bool r = m.lock();
            if (!r) sim_fail("lock-failed", "lock returned without the mutex");
            got(m, o, r);
        }
        }
        if (chance(15)) sim_sleep(rng(0, 4) * 1000);
    }
}
// Nobody else touches the mutex now.
static void check_free(M &m, M &other)
{
    for (int i = WINDOWS ? 0 : rnd(3); i > 0; --i) { sim_probe("extra unlock"); (chance(50) ? m : other).unlock(); }
    if (!(chance(50) ? m.tryLock() : timed_lock(m, 0))) sim_fail("free-but-locked", "a mutex nobody holds cannot be locked");
    auto again = [&other] { if (chance(50) ? other.tryLock() : timed_lock(other, one_of<int64_t>({0, -5, 3000}))) sim_fail("two-holders", "a mutex that is held was locked again"); };
    if (WINDOWS) {                      // its mutexes are recursive
        join(spawn("other", again));
        if (chance(50)) {
            if (!other.lock()) sim_fail("lock-failed", "lock returned without the mutex");
            m.unlock();
            join(spawn("other", again));
        }
    }
    else again();
    m.unlock();
}

static void scenario()
{
    time_faults(true);
    inside = entered = 0;
    hist = &History::make();
    {
        const bool locked = chance(50), another = chance(60);
        Shared data;
        shared = &data;
        M a("m16", chance(50) ? CREATE : EITHER, locked), b("m16", another ? OPEN : EITHER, chance(50));
        if (!a.isValid() || !b.isValid()) sim_fail("invalid", "the mutex could not be created or opened");
        M *const pa = &a, *const pb = &b;
        int o = -1;
        if (locked) { o = hist->begin("lock", LOCK); hist->end(o, 1); QUIET; ++entered; }
        else if (chance(40)) check_free(a, b);
        std::vector<Client> cs;
        for (int i = rng(2, 4); i > 0; --i) {
            const int proc = rnd(3);        // threads of another process open the mutex themselves
            cs.push_back(spawn("client", [=] {
                if (!proc) return script(chance(50) ? *pa : *pb);
                M own("m16", chance(50) ? OPEN : EITHER);
                if (!own.isValid()) sim_fail("invalid", "another process could not open the mutex");
                script(own);
            }, proc));
        }
        if (locked) { section(); int u = hist->begin("unlock", UNLOCK); a.unlock(); hist->end(u, 1); }
        join_all(cs);
        auto step = [](Count &c, const Op &op) {
            switch (op.kind) {
            case UNLOCK: if (!c.n) return false; c.n = 0; return true;
            case LOCK: if (c.n) return false; c.n = 1; return true;
            default: if (op.res) { if (c.n) return false; c.n = 1; return true; } return c.n == 1;
            }
        };
        if (!linearizable(hist->ops, Count{0}, step, [](const Count &, const Op &) { return false; }))
            sim_fail("not-linearizable", "no order of these operations explains them:%s", hist->text().c_str());
        if (data.value != entered) sim_fail("lost-update", "%d critical sections left the value %d", entered, data.value);
        check_free(b, a);
        if (WINDOWS && chance(50)) {    // who ends, or crashes, while it holds the mutex gives it up
            join(spawn("owner", [pa] { if (!pa->lock()) sim_fail("lock-failed", "lock returned without the mutex"); }));
            if (chance(50)) {
                bool &has = oracle<bool>(false);
                Client c = spawn("owner", [&has] { M own("m16", OPEN); if (!own.lock()) sim_fail("lock-failed", "lock returned without the mutex"); { QUIET; has = true; } sim_park(&has); }, 7);
                { auto there = [&] { QUIET; return has; }; while (!there()) sim_yield(); }
                sim_kill_proc(7);
                join(c);
            }
            if (!(chance(50) ? b.lock() : timed_lock(b, one_of<int64_t>({0, 1000})))) sim_fail("lock-failed", "a mutex whose owner is gone cannot be locked");
            join(spawn("other", [pa] { if (pa->tryLock()) sim_fail("two-holders", "a mutex that is held was locked again"); }));
            b.unlock();
            check_free(a, b);
            sim_probe("owner gone");
        }
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c16_mutex", scenario); }
