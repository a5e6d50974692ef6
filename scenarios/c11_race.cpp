// C11: everything the library lets several threads do at once, under the race detector.
#include "graph.hpp"

static void body(Graph &g, Node &x)
{
    switch (x.work % 8) {
    case 5: {
        oqpi::atomic_partitioner p(0, 3, 1, 2);
        H::parallel_for("nested", p, prio_t(x.id % 5), [](int) { sim_point(); });
        break;
    }
    case 6: H::fire_and_forget_task("sub", prio_t(x.id % 5), [] { sim_point(); }); break;
    case 7: (void)H::scheduler_.isIdle(); break;
    case 4: { auto h = H::schedule_task(H::make_task<WAITABLE>("sub", prio_t(x.id % 5), [] { sim_point(); })); h.activeWait(); break; }
    }
}

static void scenario()
{
    WorldConfig wc;
    World w(wc);
    const bool cycles = chance(35);
    w.start();
    auto &graphs = oracle<std::vector<Graph *>>();
    auto watcher = [](oqpi::task_handle h, Graph *g, int id) {
        const Node &x = g->n[id];
        oqpi::task_handle copy = h;
        for (int k = rng(0, 3); k > 0; --k) {
            switch (rnd(7)) {
            case 0: (void)h.isDone(); break;
            case 1: (void)h.isGrabbed(); break;
            case 2: { auto p = h.getParentGroup(); if (p) { (void)p->getPriority(); (void)p->getUID(); (void)p->isDone(); } break; }
            case 3: (void)h.getPriority(); (void)h.getUID(); break;
            case 4: copy = h; break;
            case 5: copy.reset(); break;
            case 6: sim_yield(); break;
            }
        }
        const bool par = x.kind != SEQ, root = id == g->root;
        if (!x.waitable) { while (!h.isDone()) sim_yield(); }
        else if (root && par && chance(60)) h.activeWait();
        else h.wait();
        (void)h.isDone();
    };
    auto client = [&] {
        std::vector<Client> ws;
        for (int k = rng(1, 3); k > 0; --k) {
            switch (rnd(7)) {
            case 0: { oqpi::simple_partitioner p(0, rng(0, 6), rng(1, 3)); H::parallel_for("loop", p, any_prio(), [](int) { sim_point(); }); break; }
            case 1: (void)H::scheduler_.isIdle(); (void)H::scheduler_.workersCount(any_prio()); (void)H::scheduler_.workersTotalCount(); break;
            case 2: H::scheduler_.waitUntilIdle(std::chrono::microseconds(rng(1, 20)), std::chrono::microseconds(rng(0, 200))); break;
            default: {
                GraphCfg gc; gc.maxNodes = one_of({1, 2, 5, 9}); gc.rootWaitable = chance(85);
                Graph &g = Graph::make(gc);
                g.onBody = body;
                g.root = g.gen();
                { QUIET; graphs.push_back(&g); g.handles = new std::vector<oqpi::task_handle>(g.n.size()); }
                auto h = g.submit();
                for (int i = rng(0, 2); i > 0; --i) {
                    int id = chance(50) ? g.root : rnd(int(g.n.size()));
                    ws.push_back(spawn("watcher", [watcher, hh = (*g.handles)[id], gp = &g, id] { watcher(hh, gp, id); }));
                }
                if (chance(20)) H::schedule_task(h);
                if (chance(60)) watcher(h, &g, g.root);
            }
            }
        }
        join_all(ws);
    };
    std::vector<Client> cs;
    const int clients = rng(1, 3);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
    if (cycles) for (int k = rng(1, 2); k > 0; --k) { sim_sleep(100 * rng(0, 60)); w.stop(); some_work(rnd(16)); w.start(); }
    join_all(cs);
    for (Graph *g : graphs) g->park_until_done();
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c11_race", scenario); }
