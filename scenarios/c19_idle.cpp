// C19: the scheduler says it is idle only when nothing is queued or running.
#include "graph.hpp"

struct Unit { uint64_t submitted = UINT64_MAX; int started_by = -1; uint64_t s = 0, e = UINT64_MAX; };
static std::vector<Graph *> *graphs;
static std::vector<uint64_t> *submitted;           // of each graph: when submitting it was over
static std::vector<Unit *> *extras;                // tasks submitted by tasks
static bool helpers;                               // waiting threads may execute tasks: then only the end is checked

static Unit &extra(int prio, int depth)
{
    Unit *u;
    { QUIET; u = new Unit; extras->push_back(u); }
    H::schedule_task(H::make_task<FORGET>("extra", prio_t(prio), [u, depth] {
        { QUIET; u->s = sim_stamp(); u->started_by = sim_self(); }
        some_work(depth + 3);
        if (depth) extra(depth % 5, depth - 1);
        { QUIET; u->e = sim_stamp(); }
    }));
    { QUIET; u->submitted = sim_stamp(); }
    return *u;
}
static void body(Graph &g, Node &x)
{
    if (x.work % 4 == 3) { sim_probe("task submits a task"); extra((x.id + x.work) % 5, x.work % 3); }
    if (g.user) sim_point();
}

struct Span { uint64_t sub, s, e; };
static void all_spans(std::vector<Span> &v)
{
    for (size_t i = 0; i < graphs->size(); ++i)
        for (auto &x : (*graphs)[i]->n) if (x.kind == LEAF) v.push_back({(*submitted)[i], x.starts ? x.s : 0, x.ends ? x.e : UINT64_MAX});
    for (Unit *u : *extras) v.push_back({u->submitted, u->s, u->e});
}
// A query between c and r answered idle: there must have been a moment at which nothing submitted was unfinished.
static void check_idle(uint64_t c, uint64_t r, const char *how)
{
    QUIET;
    std::vector<Span> v;
    all_spans(v);
    for (uint64_t m = c; m <= r; ++m) {
        bool ok = true;
        for (auto &x : v) {
            const bool executing = x.s && x.s < m && x.e > m;
            const bool queued = x.sub < m && !(x.s && x.s < m) && x.e > m;
            if (executing || queued) { ok = false; break; }
        }
        if (ok) return;
    }
    int q = 0, e = 0;
    for (auto &x : v) { if (x.s && x.s < c && x.e > r) ++e; else if (x.sub < c && !(x.s && x.s < r)) ++q; }
    sim_fail("idle-but-busy", "%s said idle, but throughout there was something unfinished (%d task(s) executing and %d queued all the time)", how, e, q);
}
static bool query()
{
    uint64_t c = sim_stamp();
    const bool idle = H::scheduler_.isIdle();
    uint64_t r = sim_stamp();
    if (idle) { sim_probe("idle"); if (!helpers) check_idle(c, r, "isIdle"); }
    return idle;
}
static void wait_idle()
{
    using namespace std::chrono;
    const int64_t period = one_of<int64_t>({0, 1000, 50000, 1000000}), limit = one_of<int64_t>({0, 1000, 300000, 5000000, 3600000000000, INT64_MAX});
    const int64_t t0 = sim_now_mono();
    uint64_t c = sim_stamp();
    if (chance(50)) H::scheduler_.waitUntilIdle(nanoseconds(period), nanoseconds(limit));
    else H::scheduler_.waitUntilIdle(microseconds(period / 1000), duration<double>(double(limit) / 1e9));
    uint64_t r = sim_stamp();
    const int64_t spent = sim_now_mono() - t0;
    if (limit != INT64_MAX && spent > limit + period + 2000000) sim_fail("waited-too-long", "waiting until idle for at most %ld ns, looking every %ld ns, took %ld ns", long(limit), long(period), long(spent));
    if (spent >= limit) { sim_probe("waiting until idle hit its limit"); return; }
    sim_probe("waited until idle");
    if (!helpers) check_idle(c, r, "waiting until idle");
}

static void scenario()
{
    sim_race_detection(0);
    { QUIET; graphs = new std::vector<Graph *>; submitted = new std::vector<uint64_t>; extras = new std::vector<Unit *>; }
    WorldConfig wc; wc.crowd = true;
    World w(wc);
    helpers = chance(30);
    if (chance(20)) sim_fault_enable(SIM_F_CLOCK_JUMP, 200, rng(1, 4));
    if (!query()) sim_fail("never-idle", "a scheduler that was never given anything does not say it is idle");
    const bool early = chance(30);
    bool started = false;
    auto start = [&] { if (!started) { started = true; w.start(); } };
    if (!early) start();
    auto client = [&] {
        for (int k = rng(1, 3); k > 0; --k) {
            GraphCfg gc; gc.maxNodes = one_of({1, 1, 3, 7}); gc.rootWaitable = chance(70);
            Graph &g = Graph::make(gc);
            g.onBody = body;
            g.root = g.gen();
            size_t at;
            { QUIET; at = graphs->size(); graphs->push_back(&g); submitted->push_back(UINT64_MAX); }
            auto h = g.submit();
            { QUIET; (*submitted)[at] = sim_stamp(); }
            if (chance(20)) { H::schedule_task(h); sim_probe("submitted twice"); }
            if (chance(60)) query();
            if (g.n[g.root].waitable && chance(40)) {
                if (helpers && g.n[g.root].kind != SEQ) h.activeWait(); else if (started) h.wait();
            }
            if (chance(40)) query();
            if (chance(30)) sim_sleep(1000 * rng(1, 50));
        }
    };
    auto asker = [&] { for (int k = rng(1, 6); k > 0; --k) { if (chance(40)) wait_idle(); else query(); some_work(rnd(8)); } };
    std::vector<Client> cs;
    if (early) {
        // queued before there is anybody to run it
        GraphCfg gc; gc.maxNodes = 3;
        Graph &g = Graph::make(gc);
        g.root = g.gen();
        { QUIET; graphs->push_back(&g); submitted->push_back(UINT64_MAX); }
        g.submit();
        { QUIET; (*submitted)[0] = sim_stamp(); }
        if (query()) sim_fail("idle-but-busy", "idle although a task is queued");
        start();
    }
    for (int i = rng(1, 2); i > 0; --i) cs.push_back(spawn("client", client));
    for (int i = rng(1, 2); i > 0; --i) cs.push_back(spawn("asker", asker));
    join_all(cs);
    for (Graph *g : *graphs) g->park_until_done();
    // everything submitted so far will be executed without anybody's help
    sim_rest();
    { QUIET; std::vector<Span> v; all_spans(v); for (auto &x : v) if (x.e == UINT64_MAX) sim_fail("lost", "at rest a task has not finished"); }
    if (!H::scheduler_.isIdle()) sim_fail("never-idle", "everything was executed and every worker sleeps, but the scheduler does not say it is idle");
    const int64_t t0 = sim_now_mono();
    H::scheduler_.waitUntilIdle(std::chrono::milliseconds(10), std::chrono::hours(1));
    if (sim_now_mono() - t0 > 20000000) sim_fail("waited-too-long", "waiting until an idle scheduler is idle took %ld ns", long(sim_now_mono() - t0));
    w.stop();
    if (chance(40)) {
        // what is queued while the workers are stopped keeps it busy until they have run it
        Unit &u = extra(rnd(5), 0);
        if (H::scheduler_.isIdle()) sim_fail("idle-but-busy", "idle although a task is queued");
        w.start();
        while (!query()) sim_sleep(1000);
        { QUIET; if (u.e == UINT64_MAX) sim_fail("idle-but-busy", "idle although a task submitted earlier has not finished"); }
        w.stop();
    }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c19_idle", scenario); }
