// C01: every task submitted to a running scheduler is executed exactly once.
#include "graph.hpp"

static void on_start(Graph &, Node &x)
{
    if (x.starts > 1) sim_fail("executed-twice", "task %d was started a second time (first by T%d)", x.id, x.thread);
}
struct Extra { int starts = 0, ends = 0; };
struct Ctx { std::vector<Extra> extra; };

static void body(Graph &g, Node &x)
{
    auto &c = *static_cast<Ctx *>(g.user);
    if (x.work % 5 == 0 && x.id % 2 == 0) {
        // a task that submits another one, which nobody waits on
        size_t i;
        { QUIET; i = c.extra.size(); c.extra.emplace_back(); }
        auto f = [&c, i] {
            { QUIET; if (++c.extra[i].starts > 1) sim_fail("executed-twice", "fire and forget task submitted by a task was started a second time"); }
            sim_point();
            { QUIET; ++c.extra[i].ends; }
        };
        auto with = [&c, i, f](size_t j, const std::string &s) {
            if (j != i || s != "argument") sim_fail("wrong-argument", "a fire and forget task was called with other arguments than it was created with");
            f();
        };
        using TC = oqpi::empty_task_context;
        const prio_t p = prio_t(x.id % 5);
        switch (x.work / 5 + x.id % 4) {
        case 0: H::fire_and_forget_task("x", p, f); break;
        case 1: H::fire_and_forget_task("x", f); break;
        case 2: H::fire_and_forget_task<TC>("x", p, with, i, std::string("argument")); break;
        case 3: H::fire_and_forget_task<TC>("x", with, i, "argument"); break;
        case 4: H::fire_and_forget_task("x", p, with, i, "argument"); break;
        default: H::fire_and_forget_task<TC>("x", p, f);
        }
    }
}

// very many tiny tasks
static void bulk()
{
    sim_limits(100000, 4000000);
    sim_heap_reuse(1);
    World w;
    auto &starts = oracle<std::vector<int>>();
    const int each = one_of({100, 1000, 3000}), clients = rng(1, 2);
    int next = 0, left = 0;
    const bool pending = chance(50);
    auto submit = [&] {
        for (int k = each; k > 0; --k) {
            int i;
            { QUIET; i = next++; starts.push_back(0); ++left; }
            auto f = [&starts, &left, i] { QUIET; if (++starts[i] > 1) sim_fail("executed-twice", "task %d of very many was started a second time", i); --left; };
            if (i % 64 == 5) { auto h = H::schedule_task(H::make_task<WAITABLE>("x", prio_t(i % 5), f)); if (!pending) h.activeWait(); }
            else H::fire_and_forget_task("x", prio_t(i % 7 % 5), f);
        }
    };
    if (pending) submit(); else w.start();
    std::vector<Client> cs;
    for (int i = 0; i < clients && !pending; ++i) cs.push_back(spawn("client", submit));
    if (pending) w.start();
    join_all(cs);
    auto done = [&] { QUIET; return !left; };
    while (!done()) sim_sleep(5000);
    w.stop();
    { QUIET; for (int s : starts) if (s != 1) sim_fail("execution-count", "a task of very many ran %d times", s); }
    w.destroy();
    sim_probe("very many tasks");
}

static void scenario()
{
    sim_race_detection(0);
    if (rnd(400) == 399) { bulk(); return; }
    WorldConfig wc; wc.crowd = true;
    World w(wc);
    const bool pre = chance(15);
    if (!pre) w.start();
    auto &ctx = oracle<Ctx>();
    { QUIET; ctx.extra.reserve(64); }
    const int clients = rng(1, 3);
    struct Job { Graph *g; oqpi::task_handle h; };
    auto &jobs = oracle<std::vector<Job>>();
    { QUIET; jobs.reserve(16); }
    auto submit = [&](bool mayWait) {
        GraphCfg gc; gc.maxNodes = one_of({1, 1, 3, 6, 10, 14}); gc.rootWaitable = chance(75); gc.handleless = true;
        Graph &g = Graph::make(gc);
        g.onStart = on_start; g.onBody = body; g.user = &ctx;
        g.root = g.gen();
        if (chance(10)) {                    // a handle to nothing: nothing to execute
            sim_probe("empty handle submitted");
            oqpi::task_handle none;
            const auto h = chance(50) ? H::schedule_task(none) : H::schedule_task(oqpi::task_handle());
            if (h.isValid()) sim_fail("empty-handle", "submitting an empty handle returned a valid one");
        }
        if (chance(15)) {                    // created and submitted in one go
            { QUIET; jobs.push_back({&g, oqpi::task_handle()}); }
            auto h = g.submit();
            if (mayWait && h.isValid() && g.n[g.root].waitable && chance(60)) { wait_somehow(h, g.n[g.root], true); QUIET; g.check_once(); }
            return;
        }
        auto h = g.build(g.root);
        const bool wait = mayWait && g.n[g.root].waitable && chance(60);
        const bool copy = chance(50);
        oqpi::task_handle hh = copy ? H::schedule_task(h) : H::schedule_task(oqpi::task_handle(h));
        { QUIET; jobs.push_back({&g, oqpi::task_handle()}); }
        if (chance(25)) { sim_probe("handle submitted again"); H::schedule_task(h); if (chance(30)) H::schedule_task(hh); }
        if (wait) {
            wait_somehow(h, g.n[g.root], true);
            QUIET; g.check_once();
        }
        // the last handle may go away before the task has run
    };
    if (pre) submit(false);
    std::vector<Client> cs;
    if (pre) w.start();
    for (int i = 0; i < clients; ++i)
        cs.push_back(spawn("client", [&] { for (int k = rng(1, 2); k > 0; --k) submit(true); }));
    join_all(cs);
    // everything must run, waited on or not
    auto done = [&] { QUIET; for (auto &j : jobs) if (!j.g->all_done(j.g->root)) return false; for (auto &x : ctx.extra) if (!x.ends) return false; return true; };
    while (!done()) sim_sleep(5000);
    w.stop();
    { QUIET; for (auto &j : jobs) j.g->check_once(); for (auto &x : ctx.extra) if (x.starts != 1) sim_fail("execution-count", "fire and forget task ran %d times", x.starts); }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c01_once", scenario); }
