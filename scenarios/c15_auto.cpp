// C15: each notification of an auto reset event releases one waiter.
#include "sync.hpp"

enum { NOTIFY, WAIT, TIMED };
static History *hist;

template <typename E> static void script(E &e, int bias)
{
    for (int k = rng(1, 5); k > 0; --k) {
        if (rnd(4) < bias) { int o = hist->begin("notify", NOTIFY); e.notify(); hist->end(o, 1); }
        else if (chance(40)) { int o = hist->begin("waitFor", TIMED); hist->end(o, timed_wait(e, short_wait())); }
        else {
            int o = hist->begin("wait", WAIT);
            bool r = e.wait();
            hist->end(o, r);
            if (!r) sim_fail("wait-failed", "wait returned without a notification");
        }
        if (chance(15)) sim_sleep(rng(0, 4) * 1000);
    }
}

template <typename E, typename Make> static void run(Make make)
{
    const int threads = rng(2, 4);
    E e(make());
    hist = &History::make();
    std::vector<Client> cs;
    for (int i = 0; i < threads; ++i) { int b = rng(i == 0, 4); cs.push_back(spawn("client", [&e, b] { script(e, b); })); }
    auto step = [](Count &c, const Op &o) {
        switch (o.kind) {
        case NOTIFY: c.n = WINDOWS ? 1 : c.n + 1; return true;          // there an event is signalled or not
        case WAIT: if (c.n <= 0 || o.ret == UINT64_MAX) return false; --c.n; return true;
        default: if (o.res) { if (c.n <= 0) return false; --c.n; return true; } return c.n == 0 && o.ret != UINT64_MAX;
        }
    };
    auto blocked = [](const Count &c, const Op &o) { return o.kind == WAIT && c.n == 0; };
    for (int round = 0;; ++round) {
        sim_rest();
        if (!linearizable(hist->ops, Count{0}, step, blocked)) sim_fail("not-linearizable", "notifications and waits do not pair up:%s", hist->text().c_str());
        int waiting = 0;
        { QUIET; for (auto &c : cs) if (sim_is_blocked(c.id)) ++waiting; }
        if (!waiting) break;
        if (round > 40) sim_fail("stuck", "%d thread(s) still wait after %d notifications", waiting, round);
        if (waiting > 1) sim_probe("several waiters, one notification");
        int o = hist->begin("notify", NOTIFY);
        e.notify();
        hist->end(o, 1);
    }
    join_all(cs);
    int left = 0, expect = 0;
    size_t before;
    { QUIET; before = hist->ops.size(); }
    for (;; ++left) {
        int o = hist->begin("waitFor", TIMED);
        const bool got = e.waitFor(std::chrono::seconds(0));
        hist->end(o, got);
        if (!got) break;
        if (left > 200) sim_fail("tokens-created", "waits succeed without end");
    }
    if (!linearizable(hist->ops, Count{0}, step, blocked)) sim_fail("not-linearizable", "notifications and waits do not pair up:%s", hist->text().c_str());
    { QUIET; for (size_t i = 0; i < before; ++i) if (hist->ops[i].kind == NOTIFY) ++expect; else if (hist->ops[i].res) --expect; }
    if (!WINDOWS && left != expect) sim_fail("token-count", "%d notification(s) are left, %d expected", left, expect);
    // one more of each, by whichever call
    e.notify();
    if (chance(50)) e.wait(); else if (!timed_wait(e, one_of<int64_t>({0, -5, 1000}))) sim_fail("lost-signal", "a wait after a notification failed");
    if (timed_wait(e, one_of<int64_t>({0, -5, 1000}))) sim_fail("token-count", "one notification let two waits succeed");
}

struct Pair {
    oqpi::global_auto_reset_event a, b;
    Pair() : a("e15", EITHER), b("e15", OPEN) {}
    oqpi::global_auto_reset_event &any() { return chance(50) ? a : b; }
    void notify() { any().notify(); }
    bool wait() { return any().wait(); }
    template <typename D> bool waitFor(D d) { return any().waitFor(d); }
    template <typename D> bool waitUntil(D d) { return any().waitUntil(d); }
};

static void scenario()
{
    time_faults(true);
    switch (rnd(3)) {
    case 0: run<oqpi::auto_reset_event>([] { return oqpi::auto_reset_event(); }); break;
    case 1: run<oqpi::global_auto_reset_event>([] { return oqpi::global_auto_reset_event("e15", CREATE); }); break;
    default: run<Pair>([] { return Pair(); });
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c15_auto", scenario); }
