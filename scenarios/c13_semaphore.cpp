// C13: a semaphore is an atomic counter of tokens.
#include "sync.hpp"

enum { POST, WAIT, TRY, TIMED };
static History *hist;

static void add_posts(const char *name, int n, uint64_t call, uint64_t ret)
{
    // a notification of n is n tokens, which need not appear at one instant
    QUIET;
    for (int i = 0; i < n; ++i) { Op o; o.kind = POST; o.arg = 1; o.res = 1; o.who = sim_self(); o.name = name; o.call = call; o.ret = ret; hist->ops.push_back(o); }
}

template <typename S> static void script(S &s, int maxCount)
{
    for (int k = rng(1, 4); k > 0; --k) {
        switch (rnd(7)) {
        case 0: case 1: {
            int n = 1;
            uint64_t c = sim_stamp();
            if (chance(50)) s.notifyOne(); else { n = rnd(4); s.notify(n); }
            add_posts("notify", n, c, sim_stamp());
            break;
        }
        case 2: if (!WINDOWS && chance(20)) { uint64_t c = sim_stamp(); s.notifyAll(); add_posts("notifyAll", maxCount, c, sim_stamp()); break; }  // else: fall through
        case 3: { int o = hist->begin("tryWait", TRY); hist->end(o, s.tryWait()); break; }
        case 4: { int o = hist->begin("waitFor", TIMED); hist->end(o, timed_wait(s, short_wait())); break; }
        default: {
            int o = hist->begin("wait", WAIT);
            bool r = s.wait();
            hist->end(o, r);
            if (!r) sim_fail("wait-failed", "wait returned without a token");
            break;
        }
        }
        if (chance(15)) sim_sleep(rng(0, 4) * 1000);
    }
}

template <typename S, typename Make> static void run(Make make)
{
    const int init = rnd(4), maxCount = WINDOWS ? 1000 : rng(1, 3), threads = rng(2, 4);
    S s(make(init, maxCount));
    hist = &History::make();
    std::vector<Client> cs;
    for (int i = 0; i < threads; ++i) cs.push_back(spawn("client", [&s, maxCount] { script(s, maxCount); }));
    // Let everything come to rest: time passes until nobody has a timer left, then whoever still waits must have nothing to take.
    auto rest = [] {
        sim_rest();
        QUIET;
        for (auto &o : hist->ops) if (o.ret == UINT64_MAX && o.kind != WAIT) sim_fail("attempt-blocked", "%s of T%d never returns", o.name, o.who);
    };
    rest();
    auto step = [](Count &c, const Op &o) {
        switch (o.kind) {
        case POST: ++c.n; return true;
        case WAIT: if (c.n <= 0 || o.ret == UINT64_MAX) return false; --c.n; return true;
        default: if (o.res) { if (c.n <= 0) return false; --c.n; return true; } return c.n == 0;
        }
    };
    auto blocked = [](const Count &c, const Op &) { return c.n == 0; };
    if (!linearizable(hist->ops, Count{init}, step, blocked)) sim_fail("not-linearizable", "initial count %d, no order of these operations explains them:%s", init, hist->text().c_str());
    // release whoever is left, then count the tokens
    for (;;) {
        int waiting = 0;
        { QUIET; for (auto &c : cs) if (sim_is_blocked(c.id)) ++waiting; }
        if (!waiting) break;
        sim_probe("waiters blocked without a token");
        uint64_t c = sim_stamp();
        s.notify(waiting);
        add_posts("notify", waiting, c, sim_stamp());
        rest();
    }
    join_all(cs);
    int left = 0;
    while (s.tryWait()) if (++left > 1000) sim_fail("tokens-created", "tryWait succeeds without end");
    int expect = init;
    { QUIET; for (auto &o : hist->ops) if (o.kind == POST) ++expect; else if (o.res) --expect; }
    if (left != expect) sim_fail("token-count", "%d token(s) are left, notifications and successful waits leave %d", left, expect);
    if (timed_wait(s, one_of<int64_t>({0, -5, 1000}))) sim_fail("token-count", "a wait on an empty semaphore succeeded");
}

// very many tokens: none is lost or made however they are given and taken
template <typename S> static void bulk(S s, int init, int max)
{
    const bool huge = init > 1000 || max > 1000 || rnd(30) == 29;
    sim_limits(huge ? 4000000 : 60000, huge ? 40000000 : 3000000);
    struct State { int64_t given = 0, taken = 0; };
    State &st = oracle<State>();
    const int most = one_of({30, 300, 3000});
    { QUIET; st.given = init; }
    for (int i = rnd(4); i > 0; --i) { { QUIET; ++st.given; } s.notifyOne(); }
    if (huge) { const int n = one_of({1, 65536, 65537, 70000}); { QUIET; st.given += n; } s.notify(n); sim_probe("more tokens than 16 bits"); }
    if (!WINDOWS && (max > 1000 || chance(30))) { { QUIET; st.given += max; } s.notifyAll(); }
    auto giver = [&] { for (int k = rng(1, 4); k > 0; --k) { const int n = rnd(most); { QUIET; st.given += n; } s.notify(n); } };
    auto taker = [&] { for (int k = rnd(most); k > 0; --k) { if (!s.tryWait()) { sim_yield(); continue; } QUIET; if (++st.taken > st.given) sim_fail("tokens-created", "more tokens were taken than given"); } };
    std::vector<Client> cs;
    for (int i = rng(1, 2); i > 0; --i) cs.push_back(spawn("giver", giver));
    for (int i = rng(0, 2); i > 0; --i) cs.push_back(spawn("taker", taker));
    join_all(cs);
    while (s.tryWait()) { QUIET; if (++st.taken > st.given) sim_fail("tokens-created", "more tokens were taken than given"); }
    if (st.taken != st.given) sim_fail("token-count", "%ld tokens were given but only %ld could be taken", long(st.given), long(st.taken));
    sim_probe("very many tokens");
}

// Win32's maximum: releasing all gives that many tokens, one to each of those who wait, as many times as they were all taken
template <typename S> static void to_the_brim(S s, int max)
{
    struct State { int taken = 0; };
    State &st = oracle<State>();
    for (int round = rng(1, 3); round > 0; --round) {
        std::vector<Client> cs;
        { QUIET; st.taken = 0; }
        for (int i = rnd(max + 1); i > 0; --i) cs.push_back(spawn("waiter", [&] { if (!s.wait()) sim_fail("wait-failed", "a wait for tokens that are released failed"); QUIET; ++st.taken; }));
        if (chance(50)) sim_yield();
        s.notifyAll();
        join_all(cs);
        while (s.tryWait()) { QUIET; ++st.taken; }
        if (st.taken != max) sim_fail("token-count", "all %d tokens were released but %d could be taken", max, st.taken);
    }
    sim_probe("all tokens");
}

// the creator and another handle to the same name
struct Pair {
    oqpi::global_semaphore a, b;
    Pair(int i, int m) : a("s13", EITHER, i, m), b("s13", OPEN, 7, m) {}
    oqpi::global_semaphore &any() { return chance(50) ? a : b; }
    void notify(int n) { any().notify(n); }
    void notifyOne() { any().notifyOne(); }
    void notifyAll() { any().notifyAll(); }
    bool tryWait() { return any().tryWait(); }
    bool wait() { return any().wait(); }
    template <typename D> bool waitFor(D d) { return any().waitFor(d); }
    template <typename D> bool waitUntil(D d) { return any().waitUntil(d); }
};

static void scenario()
{
    time_faults(true);
    if (rnd(400) == 399) {
        const int init = chance(5) ? one_of({255, 65536, 65537, 100000}) : rnd(4), max = chance(4) ? one_of({65536, 65540}) : rng(1, 300);
        const int cap = WINDOWS ? 1 << 30 : max;        // no more tokens than that there
        if (chance(50)) bulk(oqpi::semaphore(init, cap), init, max); else bulk(oqpi::global_semaphore("s13", CREATE, init, cap), init, max);
        check_no_leak();
        return;
    }
    if (WINDOWS && chance(4)) {
        const int max = rng(1, 5);
        if (chance(50)) to_the_brim(oqpi::semaphore(0, max), max); else to_the_brim(oqpi::global_semaphore("s13", CREATE, 0, max), max);
        check_no_leak();
        return;
    }
    if (chance(2)) {                         // there are no negative numbers of tokens: such a semaphore is not created
        const int init = chance(50) ? -1 : -rng(2, 0x7fffffff);
        const bool named = chance(40);
        {
            auto s = named ? std::unique_ptr<oqpi::global_semaphore>(new oqpi::global_semaphore("s13", CREATE, init)) : nullptr;
            auto l = named ? nullptr : std::unique_ptr<oqpi::semaphore>(new oqpi::semaphore(init));
            if (named ? s->isValid() : l->isValid()) sim_fail("invalid-count", "a semaphore created with %d tokens is valid", init);
        }
        sim_probe("negative count");
    }
    switch (rnd(3)) {
    case 0: run<oqpi::semaphore>([](int i, int m) { return oqpi::semaphore(i, m); }); break;
    case 1: run<oqpi::global_semaphore>([](int i, int m) { return oqpi::global_semaphore("s13", CREATE, i, m); }); break;
    default: run<Pair>([](int i, int m) { return Pair(i, m); });
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c13_semaphore", scenario); }
