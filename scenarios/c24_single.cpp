// C24: single threaded execution runs everything once, in order, on the calling thread.
#include "graph.hpp"

struct Race {
    Graph *g; oqpi::task_handle h;
};

static void leaves_in_order(const Graph &g, int id, std::vector<int> &v)
{
    if (g.n[id].kind == LEAF) { v.push_back(id); return; }
    for (int k : g.n[id].kids) leaves_in_order(g, k, v);
}
// The caller of executeSingleThreaded has just come back from it.
static void after(Race &r, bool others)
{
    const int me = sim_self();
    bool mine = false, done = r.h.isDone();
    {
        QUIET;
        std::vector<int> v;
        leaves_in_order(*r.g, r.g->root, v);
        int by_me = 0;
        for (int id : v) if (r.g->n[id].thread == me) ++by_me;
        mine = by_me > 0;
        if (!others && by_me != int(v.size())) sim_fail("not-here", "%d of %zu tasks were executed by the caller although nobody else could", by_me, v.size());
        if (mine) {
            if (by_me != int(v.size())) sim_fail("helped", "%d of %zu tasks were executed by the caller, the others by somebody else", by_me, v.size());
            uint64_t at = 0;
            for (int id : v) {
                Node &x = r.g->n[id];
                if (!x.ends) sim_fail("returned-early", "single threaded execution returned before task %d had finished", id);
                if (x.s < at) sim_fail("out-of-order", "task %d started before the one preceding it had finished", id);
                at = x.e;
            }
        }
        if (mine && !done) sim_fail("not-done", "single threaded execution returned but the task does not say it is done");
        if (done && !r.g->all_done(r.g->root)) sim_fail("done-early", "the task says it is done while another thread is executing it");
    }
    if (mine) { sim_probe("executed single threaded"); r.g->see_completed(r.g->root, "single threaded execution"); }
    else sim_probe("somebody else had taken it");
}

static void typed(bool others)
{
    auto t = H::make_task<WAITABLE>("typed", any_prio(), [](int a, const std::string &s) { sim_point(); return s + std::to_string(a); }, 42, std::string("answer "));
    if (others && chance(60)) H::schedule_task(oqpi::task_handle(t));
    t->executeSingleThreaded();
    if (!others && !t->isDone()) sim_fail("not-done", "single threaded execution returned but the task does not say it is done");
    if (t->waitForResult() != "answer 42") sim_fail("wrong-result", "single threaded execution gave another result");
    t->executeSingleThreaded();          // nothing left to do
}

static void scenario()
{
    WorldConfig wc; wc.maxWorkers = 3;
    World w(wc);
    const bool running = chance(75);
    if (running) w.start();
    std::vector<Client> cs;
    auto client = [&] {
        for (int k = rng(1, 2); k > 0; --k) {
            if (chance(20)) { typed(running); continue; }
            GraphCfg gc; gc.maxNodes = one_of({1, 1, 3, 6, 9}); gc.maxDepth = 3; gc.rootWaitable = true;
            Graph &g = Graph::make(gc);
            g.root = g.gen();
            g.payload = new int[g.n.size()]();
            Race &r = oracle<Race>();
            r.g = &g;
            r.h = g.build(g.root);
            const bool submit = running && chance(75);
            const int rivals = chance(40) ? rng(1, 2) : 0;
            const bool leaf = g.n[g.root].kind == LEAF;
            std::vector<Client> ws;
            for (int i = 0; i < rivals; ++i) {
                const int how = rnd(4);
                ws.push_back(spawn("rival", [&r, how, leaf, submit] {
                    if (how == 0 && leaf) { r.h.activeWait(); r.g->see_completed(r.g->root, "active wait"); }
                    else if (how == 1) { while (!r.h.isDone()) sim_sleep(1000); r.g->see_completed(r.g->root, "the done flag"); }
                    else if (how == 2) { r.h.wait(); r.g->see_completed(r.g->root, "wait"); }
                    else { r.h.executeSingleThreaded(); after(r, true); r.h.wait(); r.g->see_completed(r.g->root, "wait"); }
                }));
            }
            if (submit) { H::schedule_task(r.h); some_work(rnd(8)); if (chance(30)) sim_sleep(rng(0, 4) * 1000); }
            r.h.executeSingleThreaded();
            after(r, submit || rivals);
            if (chance(30)) { r.h.executeSingleThreaded(); }
            if (submit && chance(30)) H::schedule_task(r.h);
            if (chance(50)) { r.h.wait(); g.see_completed(g.root, "wait"); }
            join_all(ws);
            r.h.wait();
            g.see_completed(g.root, "wait");
            { QUIET; g.check_once(); }
            r.h.reset();
            delete[] g.payload;
        }
    };
    const int clients = rng(1, 2);
    if (clients == 1) client(); else { for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client)); join_all(cs); }
    sim_rest();
    if (running) w.stop();
    w.destroy();
    { QUIET; cs.clear(); cs.shrink_to_fit(); }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c24_single", scenario); }
