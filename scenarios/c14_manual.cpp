// C14: a manual reset event is a flag.
#include "sync.hpp"

enum { NOTIFY, WAIT, TIMED, RESET, TAKE, PUT, DROP };
static History *hist;

template <typename E> static void script(E &e, bool resets, bool notifies)
{
    for (int k = rng(1, 4); k > 0; --k) {
        int what = rnd(8);
        if (what < 2 && notifies) { int o = hist->begin("notify", NOTIFY); e.notify(); hist->end(o, 1); }
        else if (what < 4 && resets) { int o = hist->begin("reset", RESET); e.reset(); hist->end(o, 1); }
        else if (what < 6) { int o = hist->begin("waitFor", TIMED); hist->end(o, timed_wait(e, short_wait())); }
        else {
            int o = hist->begin("wait", WAIT);
            bool r = e.wait();
            hist->end(o, r);
            if (!r) sim_fail("wait-failed", "wait returned although the event was not signalled");
        }
        if (chance(15)) sim_sleep(rng(0, 4) * 1000);
    }
}

static bool strict()
{
    auto step = [](Count &c, const Op &o) {
        switch (o.kind) {
        case NOTIFY: c.n = 1; return true;
        case RESET: c.n = 0; return o.ret != UINT64_MAX;
        case WAIT: return c.n == 1 && o.ret != UINT64_MAX;
        default: return c.n == o.res && o.ret != UINT64_MAX;
        }
    };
    return linearizable(hist->ops, Count{0}, step, [](const Count &c, const Op &o) { return o.kind == WAIT && c.n == 0; });
}
// What is known about the implementation: the event is a count of tokens, a waiter takes one and puts it back a moment later,
// a reset removes them one at a time until it sees none.
static bool relaxed()
{
    std::vector<Op> *v;
    {
        QUIET;
        v = new std::vector<Op>;
        int tokens = 0;
        for (auto &o : hist->ops) if (o.kind == NOTIFY) ++tokens;
        for (auto &o : hist->ops) {
            auto put = [&](int kind, int after) { Op x = o; x.kind = kind; x.after = after; v->push_back(x); return int(v->size()) - 1; };
            if (o.kind == NOTIFY) put(PUT, -1);
            else if (o.kind == RESET) { int p = -1; for (int i = 0; i < std::min(tokens, 4); ++i) p = put(DROP, p); put(RESET, p); }
            else if (o.res && o.ret != UINT64_MAX) put(PUT, put(TAKE, -1));
            else put(o.kind, -1);
        }
    }
    auto step = [](Count &c, const Op &o) {
        if (o.ret == UINT64_MAX) return false;
        switch (o.kind) {
        case PUT: ++c.n; return true;
        case TAKE: if (!c.n) return false; --c.n; return true;
        case DROP: if (c.n) --c.n; return true;
        case RESET: c.n = 0; return true;
        default: return c.n == 0;          // a wait that failed
        }
    };
    return linearizable(*v, Count{0}, step, [](const Count &c, const Op &o) { return o.kind == WAIT && c.n == 0; });
}
static void check(const char *when)
{
    if (strict()) return;
    if (relaxed()) sim_fail("token-in-hand", "%s: only explained by a waiter that held the event's token for a moment:%s", when, hist->text().c_str());
    sim_fail("not-linearizable", "%s: no order of these operations on a flag explains them:%s", when, hist->text().c_str());
}

template <typename E, typename Make> static void run(Make make)
{
    const int threads = rng(2, 4);
    const bool resets = chance(50);
    E e(make());
    hist = &History::make();
    std::vector<Client> cs;
    for (int i = 0; i < threads; ++i) { bool n = i == 0 || chance(40); cs.push_back(spawn("client", [&e, resets, n] { script(e, resets, n); })); }
    sim_rest();
    check("at rest");
    for (int round = 0;; ++round) {
        int waiting = 0;
        { QUIET; for (auto &c : cs) if (sim_is_blocked(c.id)) ++waiting; }
        if (!waiting) break;
        if (round > 20) sim_fail("stuck", "%d thread(s) still wait after %d notifications", waiting, round);
        if (waiting > 1) sim_probe("several waiters released by one notification");
        int o = hist->begin("notify", NOTIFY);
        e.notify();
        hist->end(o, 1);
        sim_rest();
        check("after a notification");
    }
    join_all(cs);
    // reset for good, then notify for good
    e.reset();
    if (timed_wait(e, one_of<int64_t>({0, -5, 1000}))) sim_fail("signalled-after-reset", "a wait on an event that was reset succeeded");
    e.notify();
    if (chance(50)) e.notify();
    for (int i = rng(1, 3); i > 0; --i)
        if (chance(50)) e.wait(); else if (!timed_wait(e, one_of<int64_t>({0, -5, 1000}))) sim_fail("lost-signal", "a wait on a signalled event failed");
    if (chance(50)) { e.reset(); if (timed_wait(e, 0)) sim_fail("signalled-after-reset", "a wait on an event that was reset succeeded"); }
}

// the creator and another handle to the same name
struct Pair {
    oqpi::global_manual_reset_event a, b;
    Pair() : a("e14", EITHER), b("e14", OPEN) {}
    oqpi::global_manual_reset_event &any() { return chance(50) ? a : b; }
    void notify() { any().notify(); }
    void reset() { any().reset(); }
    bool wait() { return any().wait(); }
    template <typename D> bool waitFor(D d) { return any().waitFor(d); }
    template <typename D> bool waitUntil(D d) { return any().waitUntil(d); }
};

static void scenario()
{
    time_faults(true);
    switch (rnd(3)) {
    case 0: run<oqpi::manual_reset_event>([] { return oqpi::manual_reset_event(); }); break;
    case 1: run<oqpi::global_manual_reset_event>([] { return oqpi::global_manual_reset_event("e14", CREATE); }); break;
    default: run<Pair>([] { return Pair(); });
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c14_manual", scenario); }
