// C02: no task, and no waiter, is left behind. Nobody polls here, so a lost wake-up leaves every thread blocked and is found exactly.
#include "graph.hpp"

struct Job { Graph *g; oqpi::task_handle h; };

static void nested(Graph &g, Node &x)
{
    if (x.work % 8 == 5) {
        // parallel_for from inside a task: the worker helps, then waits for those who took a batch
        int n = 1 + x.id % 3;
        oqpi::simple_partitioner p(0, n, 2);
        H::parallel_for("nested", p, prio_t((x.id + x.work) % 5), [](int) { sim_point(); });
        sim_probe("parallel_for inside a task");
    } else if (x.work % 8 == 6) {
        auto h = H::schedule_task(H::make_task<WAITABLE>("sub", prio_t(x.id % 5), [] { sim_point(); }));
        h.activeWait();
        sim_probe("task waiting on a task it submitted");
    }
}

static void scenario()
{
    sim_race_detection(0);
    WorldConfig wc; wc.crowd = true;
    World w(wc);
    if (chance(40)) sim_fault_enable(SIM_F_EINTR, one_of({100, 300, 600}), rng(4, 30));
    if (chance(25)) w.refuse_some_threads();
    w.start();
    const int clients = rng(1, 3);
    auto &jobs = oracle<std::vector<Job *>>();
    auto waitOn = [&](Job &j, bool owner) {
        const Node &r = j.g->n[j.g->root];
        if (!r.waitable) { j.g->park_until_done(); return; }
        // limited groups and sequences inside are fine: only the root is helped
        if (owner && chance(50) && r.kind != SEQ) j.h.activeWait(); else j.h.wait();
        QUIET;
        if (!j.g->all_done(j.g->root)) sim_fail("wait-returned-early", "a wait returned although a task of it has not finished");
    };
    auto submit = [&] {
        GraphCfg gc; gc.maxNodes = one_of({1, 1, 2, 4, 8}); gc.rootWaitable = chance(85); gc.handleless = true;
        Graph &g = Graph::make(gc);
        g.onBody = nested;
        g.root = g.gen();
        if (chance(40)) sim_sleep(1000 * rng(1, 200));          // let the workers go to sleep first
        Job *j;
        { QUIET; j = new Job; j->g = &g; jobs.push_back(j); }
        j->h = g.submit();
        return j;
    };
    auto client = [&] {
        for (int k = rng(1, 3); k > 0; --k) {
            Job *j = submit();
            const int extra = chance(40) ? rng(1, 2) : 0;
            std::vector<Client> ws;
            for (int i = 0; i < extra; ++i) ws.push_back(spawn("waiter", [&waitOn, j] { waitOn(*j, true); }));
            if (chance(70)) waitOn(*j, true);
            join_all(ws);
        }
    };
    if (clients == 1) client();
    else {
        std::vector<Client> cs;
        for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
        join_all(cs);
    }
    for (Job *j : jobs) j->g->park_until_done();
    { QUIET; for (Job *j : jobs) j->g->check_once(); }
    for (Job *j : jobs) j->h.reset();
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c02_live", scenario); }
