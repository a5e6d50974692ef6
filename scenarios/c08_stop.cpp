// C08: stop, restart and destruction at any moment.
#include "graph.hpp"

static bool stopped;                  // stop() has returned, start() not been called yet
static bool isWorker[64];
static int  executing;                // task functions running on worker threads
static int  stopping;                 // the thread inside stop(), or -1
static int  inside[64];               // task functions the worker is in
static int  picked[64];               // tasks the worker began while stop() was waiting for the workers to quit

static std::vector<Graph *> *graphs;

struct WCtx : oqpi::worker_context_base {
    WCtx(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void onStart() { QUIET; isWorker[sim_self()] = true; check("a worker started"); }
    void onStop() { QUIET; check("a worker was still running"); isWorker[sim_self()] = false; }
    static void check(const char *what) { if (stopped) sim_fail("worker-after-stop", "%s after stop had returned", what); }
};
using WC = oqpi::worker_context_container<WCtx>;

static void on_start(Graph &, Node &x)
{
    if (x.starts > 1) sim_fail("executed-twice", "task %d was executed a second time", x.id);
    if (!isWorker[sim_self()]) return;
    ++executing;
    const int me = sim_self();
    // A worker may have picked one when it was told to quit, but no more than that
    if (inside[me]++ == 0 && stopping >= 0 && sim_is_joining(stopping) && ++picked[me] > 1) sim_fail("started-while-stopping", "a worker started %d tasks although stop was waiting for it to quit", picked[me]);
    if (stopped) sim_fail("started-after-stop", "a worker started task %d after stop had returned", x.id);
}
static void on_end(Graph &, Node &)
{
    if (!isWorker[sim_self()]) return;
    --executing;
    --inside[sim_self()];
    if (stopped) sim_fail("executing-after-stop", "a worker was still executing a task when stop had returned");
}
static void body(Graph &, Node &x)
{
    if (x.work % 8 == 5) {
        oqpi::simple_partitioner p(0, 2, 2);
        H::parallel_for("nested", p, prio_t(x.id % 5), [](int) { sim_point(); });
    }
}

static void scenario()
{
    sim_race_detection(0);
    stopped = true; executing = 0; stopping = -1; memset(isWorker, 0, sizeof isWorker); memset(inside, 0, sizeof inside);
    { QUIET; graphs = new std::vector<Graph *>; }
    WorldConfig wc;
    World w(wc, true);
    w.setup<WC>(wc);
    if (chance(25)) w.refuse_some_threads();
    auto stop = [&] { memset(picked, 0, sizeof picked); stopping = sim_self(); w.stop(); };
    auto check_stopped = [&] {
        QUIET;
        stopped = true; stopping = -1;
        if (int n = sim_live_threads()) sim_fail("worker-after-stop", "%d worker thread(s) still exist after stop returned", n);
        if (executing) sim_fail("executing-after-stop", "%d task(s) were still executing on workers when stop returned", executing);
    };
    if (chance(5)) { stop(); check_stopped(); }
    if (w.byDefault || chance(75)) { stopped = false; w.start(); }      // workers are not registered while others submit
    bool over = false;
    auto client = [&] {
        std::vector<oqpi::task_handle> keep;
        for (int k = rng(1, 4); k > 0; --k) {
            GraphCfg gc; gc.maxNodes = one_of({1, 1, 2, 4, 7}); gc.rootWaitable = chance(70); gc.handleless = true;
            Graph &g = Graph::make(gc);
            g.onStart = on_start; g.onEnd = on_end; g.onBody = body;
            g.root = g.gen();
            auto h = g.submit();
            { QUIET; graphs->push_back(&g); }
            if (chance(50)) keep.push_back(h);
            if (g.n[g.root].waitable && chance(35)) {
                if (g.n[g.root].kind != SEQ && chance(60)) h.activeWait(); else h.wait();
                QUIET;
                if (!g.all_done(g.root)) sim_fail("completed-early", "a wait returned before the task had run");
            }
            if (chance(20)) sim_sleep(1000 * rng(1, 50));
        }
    };
    auto cycle = [&] {
        some_work(rnd(16));
        if (chance(50)) sim_sleep(100 * rng(1, 60));
        const bool wasRunning = !stopped;
        stop();
        check_stopped();
        // nothing may move on its own now
        if (chance(40)) { sim_sleep(1000 * rng(1, 20)); check_stopped(); }
        if (chance(10)) { w.stop(); check_stopped(); }
        if (wasRunning) sim_probe("stopped while in use");
        { QUIET; for (Graph *g : *graphs) if (!g->all_done(g->root)) { sim_probe("stopped with tasks pending"); break; } }
        some_work(rnd(16));
        stopped = false;
        w.start();
    };
    std::vector<Client> cs;
    const int clients = rng(1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
    for (int k = chance(3) ? rng(4, 10) : rng(1, 3); k > 0; --k) cycle();
    const int ending = rnd(4);
    join_all(cs);
    if (ending == 0) {
        // destroyed while tasks are pending: whatever a worker began is finished, nothing runs twice, nothing hangs
        w.destroy();
        check_stopped();
        sim_probe("destroyed while running");
        QUIET;
        for (Graph *g : *graphs) for (auto &x : g->n) if (x.kind == LEAF && (x.starts > 1 || x.starts != x.ends)) sim_fail("task-cut-off", "task %d was started %d times and finished %d times at destruction", x.id, x.starts, x.ends);
        return;
    }
    for (Graph *g : *graphs) g->park_until_done();
    w.stop();
    check_stopped();
    { QUIET; for (Graph *g : *graphs) g->check_once(); }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c08_stop", scenario); }
