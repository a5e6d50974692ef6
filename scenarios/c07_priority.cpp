// C07: workers take the highest priority they are registered for, oldest first.
#include "graph.hpp"

struct Item {
    int prio = 0;                      // resolved
    bool group = false;
    uint64_t call = 0, ret = UINT64_MAX;     // bounds of the time it entered the queue: not before call, not after ret
    uint64_t idle = 0, pick = 0;       // when the worker that took it began to look, and when it had it
    int worker = -1, mask = 0;
    Graph *g = nullptr; int node = -1;
};
static std::map<uint64_t, Item> *items;
static uint64_t lastIdle[64];
static uint64_t current[64];           // uid of what each worker is executing
static int maskOf[64];                 // what each worker is registered for

static void violation(const char *cls, uint64_t up, const Item &p, uint64_t uq, const Item &q)
{
    sim_fail(cls, "a worker (registered for mask %d) took task %lu (priority %d) although task %lu (priority %d) had been waiting since before it began to look, and was only taken later",
             p.mask, (unsigned long)up, p.prio, (unsigned long)uq, q.prio);
}

struct WCtx : oqpi::worker_context_base {
    WCtx(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void onStart() { QUIET; maskOf[sim_self()] = mask_of(owner()->getConfig()); }
    void onStop() { QUIET; maskOf[sim_self()] = 0; }
    void onIdle() { QUIET; lastIdle[sim_self()] = sim_stamp(); }
    void onPreExecute(const oqpi::task_handle &h)
    {
        QUIET;
        const uint64_t uid = h.getUID();
        auto it = items->find(uid);
        if (it == items->end()) return;
        Item &p = it->second;
        p.worker = sim_self(); p.pick = sim_stamp(); p.idle = lastIdle[sim_self()]; p.mask = maskOf[sim_self()];
        current[sim_self()] = uid;
        if (!(p.mask & (1 << p.prio))) sim_fail("not-registered", "a worker registered for mask %d took task %lu of priority %d", p.mask, (unsigned long)uid, p.prio);
        // p may be one that should have been taken before an earlier pick
        for (auto &e : *items) {
            const Item &o = e.second;
            if (&o == &p || !o.pick || p.idle <= o.pick) continue;           // only when p surely was still queued at that pick
            if (p.ret >= o.idle || !(o.mask & (1 << p.prio))) continue;      // and had been queued before that worker looked
            if (p.prio < o.prio) violation("lower-priority-first", e.first, o, uid, p);
            if (p.prio == o.prio && p.ret < o.call) violation("younger-first", e.first, o, uid, p);
        }
    }
    void onPostExecute(const oqpi::task_handle &) { QUIET; current[sim_self()] = 0; }
};
using WC = oqpi::worker_context_container<WCtx>;

static int resolved(Graph &g, int id)
{
    while (g.n[id].prio == prio_t::inherit) id = g.n[id].parent;
    return int(g.n[id].prio);
}

// The first member of a plain parallel group starts on the worker that took the group: its siblings have just been queued.
static void on_start(Graph &g, Node &x)
{
    if (x.parent < 0) {
        const int mask = maskOf[sim_self()];
        if (mask && x.kind == LEAF && !(mask & (1 << int(x.prio)))) sim_fail("not-registered", "a worker registered for mask %d executes a task of priority %d", mask, int(x.prio));
        return;
    }
    Node &p = g.n[x.parent];
    auto &hs = *g.handles;
    if (p.kind != PAR || p.maxsim || p.kids[0] != x.id) return;
    if (!hs[p.id].isValid()) return;         // still being submitted
    auto it = items->find(hs[p.id].getUID());
    if (it == items->end() || current[sim_self()] != it->first) return;
    for (int k : p.kids) {
        if (k == x.id || hs[k].isGrabbed()) continue;
        Item &i = (*items)[hs[k].getUID()];
        if (i.ret == UINT64_MAX) { i.call = it->second.pick; i.ret = sim_stamp(); sim_probe("member queued"); }
    }
}

// A loop is run by the one who called it and by workers registered for its priority.
static void loop()
{
    const int n = rng(1, 8);
    prio_t prio = any_prio();
    const int how = rnd(7);
    if (how >= 4) prio = prio_t::normal;
    const int caller = sim_self();
    auto f = [prio, caller](int i) {
        {
            QUIET;
            const int mask = maskOf[sim_self()];
            if (mask && !(mask & (1 << int(prio)))) sim_fail("not-registered", "a worker registered for mask %d works on a loop of priority %d", mask, int(prio));
            if (sim_self() != caller) sim_probe("worker in a loop");
        }
        some_work(i * 3);
    };
    std::vector<int> v(n);
    oqpi::simple_partitioner p(n, rng(1, 5));
    using EG = oqpi::empty_group_context; using ET = oqpi::empty_task_context;
    switch (how) {
    case 0: H::parallel_for("loop", p, prio, f); break;
    case 1: { oqpi::atomic_partitioner a(0, n, rng(1, 3), rng(1, 5)); H::parallel_for<EG, ET>("loop", a, prio, f); break; }
    case 2: H::parallel_for_each("loop", v, p, prio, f); break;
    case 3: { auto h = H::schedule_task(oqpi::task_handle(H::make_parallel_for_task_group<WAITABLE>("loop", p, prio, f))); if (h.getPriority() != prio) sim_fail("priority", "a loop of priority %d has %d", int(prio), int(h.getPriority())); h.wait(); break; }
    case 4: H::parallel_for("loop", n, f); break;
    case 5: H::parallel_for("loop", 0, n, f); break;
    default: H::parallel_for_each("loop", v, f);
    }
}

static void scenario()
{
    sim_race_detection(0);
    WorldConfig wc; wc.maxWorkers = one_of({1, 1, 2, 4}); wc.crowd = true;
    World w(wc, true);
    { QUIET; items = new std::map<uint64_t, Item>; memset(lastIdle, 0, sizeof lastIdle); memset(current, 0, sizeof current); memset(maskOf, 0, sizeof maskOf); }
    w.setup<WC>(wc);
    w.check_counts();
    const bool preload = chance(40);
    if (!preload) w.start();
    auto &graphs = oracle<std::vector<Graph *>>();
    auto one = [&] {
        GraphCfg gc;
        gc.maxNodes = one_of({1, 1, 1, 4, 6}); gc.maxDepth = 2; gc.limits = chance(30); gc.seqBias = 30; gc.rootGroup = gc.maxNodes > 1; gc.handleless = true;
        gc.rootWaitable = chance(80);
        if (chance(30)) { int a = rnd(5), b = rnd(5); QUIET; gc.prios = {a, b}; }
        Graph &g = Graph::make(gc);
        g.onStart = on_start;
        g.root = g.gen();
        { QUIET; graphs.push_back(&g); g.handles = new std::vector<oqpi::task_handle>(g.n.size()); }
        const bool atOnce = chance(20);      // created and submitted in one go
        const uint64_t before = sim_stamp();
        auto h = atOnce ? g.submit() : g.build(g.root);
        if (!h.isValid()) return h;
        Item *it;
        {
            QUIET;
            for (auto &x : g.n) {
                Item &i = (*items)[(*g.handles)[x.id].getUID()];
                i.prio = resolved(g, x.id); i.group = x.kind != LEAF; i.g = &g; i.node = x.id;
            }
            it = &(*items)[h.getUID()];
            it->call = before;
        }
        if (!atOnce) H::schedule_task(h);
        { QUIET; it->ret = sim_stamp(); }
        return h;
    };
    auto client = [&] {
        const int k = rng(2, 8);
        std::vector<oqpi::task_handle> hs;
        for (int i = 0; i < k; ++i) {
            hs.push_back(one());
            if (chance(10)) sim_sleep(1000 * rng(1, 40));
            if (!preload && chance(8)) loop();
        }
        if (!preload && chance(20)) {
            auto &h = hs[rnd(k)];
            bool leaf = false; if (h.isValid()) { QUIET; auto &i = (*items)[h.getUID()]; leaf = !i.group; }
            if (leaf && sim_stamp()) { Graph *g; { QUIET; g = (*items)[h.getUID()].g; } if (g->n[g->root].waitable) h.activeWait(); }
        }
    };
    if (preload) { client(); w.start(); }
    std::vector<Client> cs;
    const int clients = rng(preload ? 0 : 1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
    join_all(cs);
    for (Graph *g : graphs) g->park_until_done();
    w.check_counts();
    { QUIET; for (Graph *g : graphs) { g->check_once(); g->handles->clear(); } }
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c07_priority", scenario); }
