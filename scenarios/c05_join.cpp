// C05: a group completes once, after all its members, whoever looks at it in whatever way.
#include "graph.hpp"

struct Job { Graph *g; std::vector<int> posts; int dones = 0; };
static Job *job_of(const std::string &name);
static std::vector<Job *> *g_jobs;

// The post execute hook of a group marks its completion: once, and after everything in it.
struct Ctx : oqpi::group_context_base {
    Job *job = nullptr; int id = -1;
    Ctx(oqpi::task_group_base *o, const std::string &name) : oqpi::group_context_base(o, name)
    {
        QUIET;
        id = Graph::id_of(name); job = g_jobs->back();
    }
    void onPostExecute()
    {
        {
            QUIET;
            if (++job->posts[id] > 1) sim_fail("completed-twice", "group %d completed a second time", id);
        }
        job->g->see_completed(id, "completion");
    }
};
using GC = oqpi::group_context_container<Ctx>;

static void body(Graph &g, Node &x)
{
    // the next member of a sequence starts: the group before it is complete
    for (int c = x.id; g.n[c].parent >= 0; c = g.n[c].parent) {
        const Node &p = g.n[g.n[c].parent];
        if (p.kind != SEQ) continue;
        int prev = -1;
        for (int k : p.kids) { if (k == c) break; prev = k; }
        if (prev >= 0) g.see_completed(prev, "next step of a sequence started");
    }
}

static void done_now(const oqpi::task_handle &h, int id)
{
    if (!h.isDone()) sim_fail("not-done", "a wait on node %d returned but it says that it is not done", id);
}

// A group with more members than fit in sixteen bits.
static void giant()
{
    sim_race_detection(0);
    sim_limits(400000, 60000000);
    sim_heap_reuse(1);
    sim_many_objects();
    World w;
    w.start();
    const int n = one_of({65536, 65537, 66000}), limit = one_of({0, 0, 2, 300});
    auto &starts = oracle<std::vector<unsigned char>>();
    int left = n;
    { QUIET; starts.assign(n, 0); }
    auto sp = H::make_parallel_group<WAITABLE>("g", prio_t::normal, chance(50) ? n : 0, limit);
    for (int i = 0; i < n; ++i)
        sp->addTask(oqpi::task_handle(H::make_task<FORGET>("x", prio_t(i % 5), [&starts, &left, i] { QUIET; if (starts[i]++) sim_fail("executed-twice", "member %d of a very large group was started a second time", i); --left; })));
    auto g = H::schedule_task(oqpi::task_handle(sp));
    if (chance(50)) g.wait(); else g.activeWait();
    { QUIET; if (left) sim_fail("completed-early", "a wait on a group of %d returned while %d of them had not run", n, left); }
    done_now(g, 0);
    w.stop();
    w.destroy();
    sim_probe("group of 65536");
}

static void scenario()
{
    if (rnd(14000) == 13999) { giant(); return; }
    World w;
    w.start();
    { QUIET; g_jobs = new std::vector<Job *>; }
    auto one = [&] {
        GraphCfg gc;
        gc.maxNodes = one_of({3, 5, 8, 13}); gc.maxKids = one_of({2, 4, 6}); gc.maxDepth = rng(1, 3); gc.rootGroup = true; gc.seqBias = 15; gc.groupBias = one_of({15, 35, 60});
        Graph &g = Graph::make(gc);
        Job *j;
        g.onBody = body;
        g.root = g.gen();
        if (g.n[g.root].kind == PAR && chance(50)) g.n[g.root].maxsim = 0;
        g.payload = new int[g.n.size()]();
        { QUIET; j = new Job; j->posts.assign(g.n.size(), 0); j->g = &g; g.handles = new std::vector<oqpi::task_handle>(g.n.size()); }
        // building is one step for the hooks' constructors: they look at the last job
        { QUIET; g_jobs->push_back(j); }
        const bool helpers = g.n[g.root].kind == PAR;
        auto h = g.submit<GC>();
        std::vector<Client> ws;
        // watch the root and inner groups from outside
        const int watchers = rng(0, 3);
        for (int i = 0; i < watchers; ++i) {
            int id = rnd(int(g.n.size()));
            ws.push_back(spawn("watcher", [&g, id] {
                const Node &x = g.n[id];
                auto &hh = (*g.handles)[id];
                if (!x.waitable || chance(40)) { while (!hh.isDone()) sim_yield(); g.see_completed(id, "isDone"); }
                else if (id == g.root && x.kind == PAR && chance(50)) { hh.activeWait(); g.see_completed(id, "activeWait"); done_now(hh, id); }
                else { hh.wait(); g.see_completed(id, "wait"); done_now(hh, id); }
            }));
        }
        if (helpers && chance(60)) { h.activeWait(); g.see_completed(g.root, "activeWait"); done_now(h, g.root); }
        else if (chance(50)) { h.wait(); g.see_completed(g.root, "wait"); done_now(h, g.root); }
        else { while (!h.isDone()) sim_yield(); g.see_completed(g.root, "isDone"); }
        join_all(ws);
        h.wait();
        QUIET;
        g.check_once();
        for (auto &x : g.n)
            if (x.kind != LEAF && j->posts[x.id] != 1) sim_fail("completion-count", "group %d completed %d times", x.id, j->posts[x.id]);
    };
    // graphs are built by one client at a time (the hooks find their job by position), executed concurrently with the last one's tail
    for (int k = rng(1, 2); k > 0; --k) one();
    w.stop();
    { QUIET; for (Job *j : *g_jobs) for (auto &x : j->g->n) if (x.kind != LEAF && j->posts[x.id] != 1) sim_fail("completion-count", "group %d completed %d times", x.id, j->posts[x.id]); }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c05_join", scenario); }
