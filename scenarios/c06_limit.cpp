// C06: a limited parallel group keeps to its limit, and still runs everything.
#include "graph.hpp"

static void on_start(Graph &g, Node &x)
{
    for (int p = x.parent; p >= 0; p = g.n[p].parent) {
        const Node &gr = g.n[p];
        if (gr.kind != PAR || gr.maxsim <= 0) continue;
        int active = 0;
        for (int k : gr.kids) if (g.first_start(k) != UINT64_MAX && !g.all_done(k)) ++active;
        if (active > gr.maxsim) sim_fail("limit-exceeded", "%d members of parallel group %d execute at the same time, its limit is %d", active, p, gr.maxsim);
        if (active == gr.maxsim) sim_probe("limit reached");
    }
}

static void scenario()
{
    sim_race_detection(0);
    WorldConfig wc; wc.maxWorkers = 6; wc.mixedPrio = chance(40);
    World w(wc);
    w.start();
    auto &graphs = oracle<std::vector<Graph *>>();
    auto one = [&] {
        GraphCfg gc;
        gc.maxNodes = one_of({4, 6, 9, 14}); gc.maxKids = one_of({3, 6, 9}); gc.maxDepth = rng(1, 3); gc.rootGroup = true; gc.seqBias = 15; gc.groupBias = one_of({0, 10, 40});
        Graph &g = Graph::make(gc);
        g.onStart = on_start;
        g.root = g.gen();
        for (auto &x : g.n) if (x.kind == PAR && chance(70)) x.maxsim = rng(1, 4);
        { QUIET; graphs.push_back(&g); g.handles = new std::vector<oqpi::task_handle>(g.n.size()); }
        const Node &r = g.n[g.root];
        std::vector<Client> ws;
        auto h = g.submit();
        auto help = [&g](oqpi::task_handle t) { t.activeWait(); QUIET; if (!g.all_done(g.root)) sim_fail("completed-early", "activeWait returned before everything ran"); };
        if (r.kind == PAR) for (int i = rng(0, 3); i > 0; --i) ws.push_back(spawn("helper", [help, h] { help(h); }));
        // helping an inner limited group, also before its turn has come
        for (auto &x : g.n)
            if (x.kind == PAR && x.waitable && x.id != g.root && chance(25)) {
                auto t = (*g.handles)[x.id];
                sim_probe("helper on an inner group");
                const int id = x.id;
                bool seq = false;               // a member of a sequence must not be started by hand before its turn
                for (int p = x.parent; p >= 0; p = g.n[p].parent) seq |= g.n[p].kind == SEQ || g.n[p].maxsim > 0;
                if (seq) continue;
                ws.push_back(spawn("helper", [&g, t, id]() mutable { t.activeWait(); QUIET; if (!g.all_done(id)) sim_fail("completed-early", "activeWait returned before everything ran"); }));
            }
        if (r.kind == PAR && chance(50)) help(h);
        else h.wait();
        join_all(ws);
        QUIET;
        g.check_once();
    };
    std::vector<Client> cs;
    const int clients = rng(1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", one));
    join_all(cs);
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c06_limit", scenario); }
