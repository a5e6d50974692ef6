// C03: whoever sees a task completed sees its return value and everything it wrote.
#include "common.hpp"

static const int N = 8;
struct Big { int a[6]; bool ok(int v) const { for (int i = 0; i < 6; ++i) if (a[i] != v + i) return false; return true; } };

struct Rec {
    int id = 0, value = 0, runs = 0, work = 0;
    bool returned = false;
    int payload[3];                     // plain memory, written by the task, read by the waiters
    int argSum = 0;
};

static void begin(Rec &r)
{
    { QUIET; if (++r.runs > 1) sim_fail("executed-twice", "task %d was executed twice", r.id); }
    for (int i = 0; i < 3; ++i) { r.payload[i] = r.value + i; some_work(r.work + i); }
}
static void finish(Rec &r) { QUIET; r.returned = true; }

static void seen_done(Rec &r, const char *how)
{
    { QUIET; if (!r.returned) sim_fail("not-finished", "%s reported task %d complete before its function returned", how, r.id); }
    for (int i = 0; i < 3; ++i)
        if (r.payload[i] != r.value + i) sim_fail("effects-not-visible", "after %s, task %d's write %d reads %d instead of %d", how, r.id, i, r.payload[i], r.value + i);
    if (r.runs != 1) sim_fail("execution-count", "task %d ran %d times", r.id, r.runs);
}

static int  value_of(Rec &r) { return r.value; }
template <typename R> struct Check;
template <> struct Check<int>         { static int make(Rec &r) { return r.value * 3; } static bool ok(Rec &r, int v) { return v == r.value * 3; } };
template <> struct Check<std::string> { static std::string make(Rec &r) { return std::string(20 + r.id, char('a' + r.id)) + std::to_string(r.value); }
                                        static bool ok(Rec &r, const std::string &v) { return v == make(r); } };
template <> struct Check<Big>         { static Big make(Rec &r) { Big b; for (int i = 0; i < 6; ++i) b.a[i] = r.value + i; return b; } static bool ok(Rec &r, const Big &v) { return v.ok(r.value); } };
template <> struct Check<std::shared_ptr<int>> { static std::shared_ptr<int> make(Rec &r) { return std::make_shared<int>(r.value); }
                                        static bool ok(Rec &r, const std::shared_ptr<int> &v) { return v && *v == r.value; } };

template <typename T, typename R> static void observe(std::shared_ptr<T> t, Rec &r, oqpi::task_handle h)
{
    switch (rnd(6)) {
    case 0: t->wait(); seen_done(r, "wait"); break;
    case 1: h.wait(); seen_done(r, "handle.wait"); break;
    case 2: h.activeWait(); seen_done(r, "activeWait"); break;
    case 3: while (!t->isDone()) sim_yield(); seen_done(r, "isDone"); break;
    case 4: while (!h.isDone()) sim_yield(); seen_done(r, "handle.isDone"); break;
    case 5: {
        R v = t->waitForResult();
        if (!Check<R>::ok(r, v)) sim_fail("wrong-result", "waitForResult of task %d did not return the value its function returned", r.id);
        seen_done(r, "waitForResult");
        return;
    }
    }
    if (!t->isDone()) sim_fail("not-done", "task %d is not done although a wait on it returned", r.id);
    R v = t->getResult();
    if (!Check<R>::ok(r, v)) sim_fail("wrong-result", "getResult of task %d did not return the value its function returned", r.id);
}

struct Client_ { std::vector<Client> all; };

template <typename R, typename P, typename MOVE> static void waited_on(Rec &r, P &t, MOVE move);

template <typename R> static void typed(Rec &r)
{
    std::string text = "argument number " + std::to_string(r.id) + " long enough not to be inline";
    auto fn = [&r](int a, const std::string &s) {
        begin(r);
        if (a != r.value + 1 || s.size() < 30 || atoi(s.c_str() + 16) != r.id) sim_fail("wrong-argument", "task %d got other arguments than it was created with", r.id);
        R v = Check<R>::make(r);
        finish(r);
        return v;
    };
    std::string arg = text;
    // a task may be moved as long as nobody else uses it
    if (chance(15)) {
        using T = oqpi::task<WAITABLE, oqpi::manual_reset_event_interface<>, oqpi::empty_task_context, std::function<R()>>;
        auto t = std::make_shared<T>("typed", any_prio(), [fn, &r, text] { return fn(r.value + 1, text); });
        auto move = [&] {
            const int k = rnd(4);
            if (k == 0) { t = std::make_shared<T>(std::move(*t)); return; }
            if (k == 1) { T &same = *t; *t = std::move(same); sim_probe("task assigned to itself"); return; }
            sim_probe("task assigned to another one");
            auto to = std::make_shared<T>("other", any_prio(), [&r]() -> R { sim_fail("wrong-task", "what was executed is the task which task %d was assigned to", r.id); return Check<R>::make(r); });
            if (k == 2) { *to = std::move(*t); t = to; return; }
            *to = T(std::move(*t));
            t = to;
        };
        if (chance(70)) move();
        waited_on<R>(r, t, move);
        return;
    }
    auto t = H::make_task<WAITABLE>("typed", any_prio(), fn, r.value + 1, arg);
    using T = typename decltype(t)::element_type;
    auto move = [&] { sim_probe("task moved"); auto from = t; t = std::make_shared<T>(std::move(*from)); };
    if (chance(15)) move();
    arg = "overwritten after the task was created .................";
    waited_on<R>(r, t, move);
}

template <typename R, typename P, typename MOVE> static void waited_on(Rec &r, P &t, MOVE move)
{
    using T = typename P::element_type;
    const int how = rnd(3);
    if (chance(10)) {
        t->executeSingleThreaded();
        if (chance(60)) move();
        for (int k = rng(1, 3); k > 0; --k) observe<T, R>(t, r, oqpi::task_handle(t));
        if (t->tryGrab()) sim_fail("not-done", "task %d was executed but can be taken again", r.id);
        return;
    }
    oqpi::task_handle h(t);

    const int waiters = rng(0, 3);
    std::vector<Client> ws;
    const bool early = chance(50);
    auto spawnWaiters = [&] { for (int i = 0; i < waiters; ++i) ws.push_back(spawn("waiter", [t, &r, h] { observe<T, R>(t, r, h); })); };
    if (early && how != 2) spawnWaiters();       // they may even take the task before it is submitted
    if (how == 0) H::schedule_task(h);
    else if (how == 1) {
        // the task is a member of a group
        auto g = H::make_parallel_group<WAITABLE>("g", any_prio());
        auto other = H::make_task<FORGET>("o", prio_t::inherit, [] { sim_point(); });
        if (early && waiters) H::schedule_task(h);         // waiters may already have taken it: a task in use is not added to a group
        else { g->addTask(h); g->addTask(other); H::schedule_task(oqpi::task_handle(g)); if (chance(50)) g->wait(); }
    } else {
        H::schedule_task(h);
        t->executeSingleThreaded();
        if (chance(50)) { t->wait(); seen_done(r, "executeSingleThreaded and wait"); }
    }
    if (!early || how == 2) spawnWaiters();
    if (chance(80)) observe<T, R>(t, r, h);
    join_all(ws);
    if (chance(30)) observe<T, R>(t, r, h);                // long completed
    // do not leave before it ran: the record dies with the run only, but the task must have happened
    t->wait();
}
static void typed_void(Rec &r)
{
    auto t = H::make_task<WAITABLE>("void", any_prio(), [&r] { begin(r); finish(r); });
    oqpi::task_handle h(t);
    H::schedule_task(h);
    Client c = spawn("waiter", [&r, h, t]() mutable { if (chance(50)) t->waitForResult(); else h.activeWait(); seen_done(r, "waitForResult or activeWait"); });
    if (chance(50)) h.wait(); else h.activeWait();
    seen_done(r, "wait or activeWait");
    join(c);
}

static void scenario()
{
    World w;
    w.start();
    Rec *recs = new Rec[N];
    const int clients = rng(1, 2);
    int next = 0;
    auto one = [&](int id) {
        Rec &r = recs[id];
        r.id = id; r.value = 100 * id + rnd(50); r.work = rnd(16);
        switch (rnd(5)) {
        case 0: typed<int>(r); break;
        case 1: typed<std::string>(r); break;
        case 2: typed<Big>(r); break;
        case 3: typed<std::shared_ptr<int>>(r); break;
        default: typed_void(r); break;
        }
    };
    std::vector<Client> cs;
    for (int i = 0; i < clients; ++i) {
        const int a = next, k = rng(1, 2);
        next += k;
        cs.push_back(spawn("client", [&one, a, k] { for (int j = 0; j < k; ++j) one(a + j); }));
    }
    join_all(cs);
    w.stop();
    w.destroy();
    delete[] recs;
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c03_wait", scenario); }
