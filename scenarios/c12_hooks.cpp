// C12: hooks of tasks, groups and workers.
#include "graph.hpp"

static Graph *building;                     // graphs are built one at a time, under a lock of the scenario

static const int N = 3, LAST = N - 1;     // contexts in each container
struct Hooks { int pre[N] = {}, post[N] = {}, added[N] = {}, members[N] = {}; int preThread = -1, postThread = -1; uint64_t preAt = 0, postAt = 0; };
static std::map<std::pair<Graph *, int>, Hooks> *table;
static Hooks &hooks(Graph *g, int id) { return (*table)[{g, id}]; }

static void fail_(const char *what, int id) { sim_fail("hook-order", "%s (node %d)", what, id); }

// Several contexts in one container: their hooks come in the order in which they are listed.
template <int I> struct TaskCtx : oqpi::task_context_base {
    Graph *g; int id;
    TaskCtx(oqpi::task_base *o, const std::string &name) : oqpi::task_context_base(o, name) { QUIET; g = building; id = Graph::id_of(name); }
    Hooks &h() { return hooks(g, id); }
    void onAddedToGroup(const oqpi::task_group_sptr &sp)
    {
        QUIET;
        if (!sp) fail_("a task was added to no group", id);
        if (++h().added[I] > 1) fail_("onAddedToGroup of a task called twice", id);
        if (I && h().added[I ? I - 1 : 0] != 1) fail_("onAddedToGroup of a task's later context comes before that of an earlier one", id);
    }
    void onPreExecute()
    {
        sim_point();
        QUIET;
        Hooks &k = h();
        if (++k.pre[I] > 1) fail_("pre-execute hook of a task called twice", id);
        if (I && k.pre[I ? I - 1 : 0] != 1) fail_("the hooks of a task's later context come before those of an earlier one", id);
        if (g->n[id].starts) fail_("pre-execute hook of a task called after its function began", id);
        k.preThread = sim_self(); k.preAt = sim_stamp();
    }
    void onPostExecute()
    {
        sim_point();
        QUIET;
        Hooks &k = h();
        if (++k.post[I] > 1) fail_("post-execute hook of a task called twice", id);
        if (I && k.post[I ? I - 1 : 0] != 1) fail_("the hooks of a task's later context come before those of an earlier one", id);
        if (k.pre[I] != 1) fail_("post-execute hook of a task called without its pre-execute hook", id);
        if (g->n[id].ends != 1) fail_("post-execute hook of a task called before its function returned", id);
        if (k.preThread != sim_self() || g->n[id].thread != sim_self()) fail_("hooks of a task called on another thread than its function", id);
        k.postThread = sim_self(); k.postAt = sim_stamp();
    }
};
template <int I> struct GroupCtx : oqpi::group_context_base {
    Graph *g; int id;
    GroupCtx(oqpi::task_group_base *o, const std::string &name) : oqpi::group_context_base(o, name) { QUIET; g = building; id = Graph::id_of(name); }
    Hooks &h() { return hooks(g, id); }
    void onAddedToGroup(const oqpi::task_group_sptr &) 
    {
        QUIET;
        if (++h().added[I] > 1) fail_("onAddedToGroup of a group called twice", id);
        if (I && h().added[I ? I - 1 : 0] != 1) fail_("onAddedToGroup of a group's later context comes before that of an earlier one", id);
    }
    void onTaskAdded(const oqpi::task_handle &t) { QUIET; if (!t.isValid()) fail_("an invalid task was added to a group", id); ++h().members[I]; if (I && h().members[I ? I - 1 : 0] != h().members[I]) fail_("onTaskAdded of a group's later context comes before that of an earlier one", id); }
    void onPreExecute()
    {
        sim_point();
        QUIET;
        Hooks &k = h();
        if (++k.pre[I] > 1) fail_("pre-execute hook of a group called twice", id);
        if (I && k.pre[I ? I - 1 : 0] != 1) fail_("the hooks of a group's later context come before those of an earlier one", id);
        if (g->first_start(id) != UINT64_MAX) fail_("pre-execute hook of a group called after one of its tasks began", id);
        if (I == LAST && id == g->root) sim_unpark(g);
    }
    void onPostExecute()
    {
        sim_point();
        QUIET;
        Hooks &k = h();
        if (++k.post[I] > 1) fail_("post-execute hook of a group called twice", id);
        if (I && k.post[I ? I - 1 : 0] != 1) fail_("the hooks of a group's later context come before those of an earlier one", id);
        if (k.pre[I] != 1) fail_("post-execute hook of a group called without its pre-execute hook", id);
        if (!g->all_done(id)) fail_("post-execute hook of a group called before all its tasks have run", id);
    }
};
using TC = oqpi::task_context_container<TaskCtx<0>, TaskCtx<1>, TaskCtx<2>>;
using GC = oqpi::group_context_container<GroupCtx<0>, GroupCtx<1>, GroupCtx<2>>;

// ---- workers
enum WState { W_STOPPED, W_STARTED, W_IDLE, W_ACTIVE, W_PRE, W_POST };
struct Worker { WState st = W_STOPPED; int thread = -1; uint64_t uid = 0; int starts = 0, stops = 0, seq = 0; std::string own; };
static std::map<const void *, Worker> *workers;
static Worker *byThread[64];
static int schedulerStarts, schedulerStops;
static int granted[6];                      // what the system makes of each priority

static bool loopGroup(uint64_t uid);

template <int I> struct WorkCtx : oqpi::worker_context_base {
    WorkCtx(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void go(const char *what, int from, WState to, uint64_t uid = 0)
    {
        sim_point();
        QUIET;
        Worker &w = (*workers)[owner()];
        // all contexts are called for each step, the first one first
        if (I == 0) {
            if (w.seq) sim_fail("hook-order", "%s of a worker's first context called before the last one's last hook", what);
            w.seq = 1;
            if (!(from & (1 << w.st))) sim_fail("hook-order", "%s of a worker called in state %d", what, int(w.st));
            if (to == W_STARTED) { w.thread = sim_self(); byThread[sim_self()] = &w; if (++w.starts > schedulerStarts) sim_fail("hook-order", "start hook of a worker called more often than the scheduler was started"); }
            else if (w.thread != sim_self()) sim_fail("wrong-thread", "%s of a worker called on thread %d, its start hook on %d", what, sim_self(), w.thread);
            if (to == W_STARTED) {
                w.own = owner()->getConfig().threadAttributes.name_;
                // the thread is named after the configuration and the worker's number among those registered with it
                const std::string name = owner()->getConfig().threadAttributes.name_ + (owner()->getId() < 0 ? std::string() : std::to_string(owner()->getId()));
                if (owner()->getName() != name) sim_fail("name", "worker %d of '%s' is called '%s'", owner()->getId(), owner()->getConfig().threadAttributes.name_.c_str(), owner()->getName().c_str());
                if (name.size() <= 15 && name != sim_thread_name(sim_self())) sim_fail("name", "the thread of worker '%s' is called '%s'", name.c_str(), sim_thread_name(sim_self()));
                if (owner()->getId() < 0 && owner()->getConfig().count > 1 || owner()->getId() >= owner()->getConfig().count) sim_fail("name", "worker '%s' has number %d of %d", name.c_str(), owner()->getId(), owner()->getConfig().count);
            }
            if (to == W_POST && w.uid != uid) sim_fail("hook-order", "post-execute hook of a worker got another task than its pre-execute hook");
            w.uid = uid;
            w.st = to;
            if (to == W_STOPPED) { ++w.stops; byThread[sim_self()] = nullptr; }
        } else {
            if (w.seq != I || w.st != to) sim_fail("hook-order", "%s of a worker's context %d not called right after the one before", what, I);
            w.seq = (I + 1) % N;
        }
    }
    void onStart()  { go("start hook", 1 << W_STOPPED, W_STARTED); }
    void onStop()   { go("stop hook", 1 << W_STARTED | 1 << W_ACTIVE | 1 << W_POST, W_STOPPED); }
    void onIdle()   { go("idle hook", 1 << W_STARTED | 1 << W_ACTIVE | 1 << W_POST, W_IDLE); }
    void onActive() { go("active hook", 1 << W_IDLE, W_ACTIVE); }
    void onPreExecute(const oqpi::task_handle &h)
    {
        { QUIET; if (h.isDone() && !loopGroup(h.getUID())) sim_fail("hook-order", "pre-execute hook of a worker got a task that is done"); }
        go("pre-execute hook", 1 << W_ACTIVE, W_PRE, h.getUID());
    }
    void onPostExecute(const oqpi::task_handle &h) { go("post-execute hook", 1 << W_PRE, W_POST, h.getUID()); }
};
using WC = oqpi::worker_context_container<WorkCtx<0>, WorkCtx<1>, WorkCtx<2>>;

static void on_start(Graph &g, Node &x)
{
    Hooks &k = hooks(&g, x.id);
    for (int i = 0; i < N; ++i) if (k.pre[i] != 1) fail_("a task's function was called without its pre-execute hook", x.id);
    if (k.preThread != sim_self()) fail_("a task's pre-execute hook was called on another thread than its function", x.id);
    for (int i = 0; i < N; ++i) if (k.post[i]) fail_("a task's post-execute hook was called before its function", x.id);
    for (int p = x.parent; p >= 0; p = g.n[p].parent) if (hooks(&g, p).pre[LAST] != 1) fail_("a task of a group was run before the group's pre-execute hook", p);
    Worker *w = byThread[sim_self()];
    if (w && w->st != W_PRE) sim_fail("hook-order", "a worker runs a task outside of its pre and post execute hooks");
}
static void on_end(Graph &g, Node &x)
{
    Worker *w = byThread[sim_self()];
    if (w && w->st != W_PRE) sim_fail("hook-order", "a worker runs a task outside of its pre and post execute hooks");
    Hooks &k = hooks(&g, x.id);
    if (k.post[0]) fail_("a task's post-execute hook was called before its function returned", x.id);
}

// ---- parallel loops: the caller helps, possibly before a worker has begun with the group, so that the group's own pre-execute hook is not bound to come first
struct Loop { oqpi::task_group_base *owner = nullptr; uint64_t uid = 0; int groupPre = 0, groupPost = 0, members = 0, added = 0, pre = 0, post = 0; };
static std::vector<Loop *> *loops;
static std::map<const void *, Loop *> *loopOf;
struct LoopGroup : oqpi::group_context_base {
    Loop *l;
    LoopGroup(oqpi::task_group_base *o, const std::string &name) : oqpi::group_context_base(o, name) { QUIET; l = (*loops)[Graph::id_of(name)]; (*loopOf)[o] = l; l->owner = o; }
    void onTaskAdded(const oqpi::task_handle &) { QUIET; ++l->members; l->uid = l->owner->getUID(); }
    void onPreExecute() { QUIET; if (++l->groupPre > 1) sim_fail("hook-order", "pre-execute hook of a loop's group called twice"); }
    void onPostExecute()
    {
        QUIET;
        if (++l->groupPost > 1) sim_fail("hook-order", "post-execute hook of a loop's group called twice");
        if (l->post != l->members) sim_fail("hook-order", "post-execute hook of a loop's group called after %d of its %d tasks", l->post, l->members);
    }
};
struct LoopTask : oqpi::task_context_base {
    Loop *l = nullptr; int at = -1;
    LoopTask(oqpi::task_base *o, const std::string &name) : oqpi::task_context_base(o, name) {}
    void onAddedToGroup(const oqpi::task_group_sptr &sp) { QUIET; l = (*loopOf)[sp.get()]; ++l->added; }
    void onPreExecute() { sim_point(); QUIET; if (!l) sim_fail("hook-missing", "a task of a loop is executed but was not told that it was added to a group"); ++l->pre; at = sim_self(); }
    void onPostExecute() { sim_point(); QUIET; ++l->post; if (at != sim_self()) sim_fail("wrong-thread", "hooks of a task of a loop called on two threads"); }
};
// a caller may have run all tasks of a loop before a worker gets to the loop's group
static bool loopGroup(uint64_t uid) { for (Loop *l : *loops) if (l->uid == uid) return true; return false; }
using LG = oqpi::group_context_container<LoopGroup>;
using LT = oqpi::task_context_container<LoopTask>;

static void loop()
{
    Loop *l;
    std::string name = "loop#";
    { QUIET; l = new Loop; name += std::to_string(loops->size()); loops->push_back(l); }
    int calls = 0;
    const int n = rng(1, 8);
    auto f = [&calls](int) { sim_point(); QUIET; ++calls; };
    std::vector<int> v(n);
    switch (rnd(5)) {
    case 0: H::parallel_for<LG, LT>(name, n, f); break;
    case 1: H::parallel_for<LG, LT>(name, 3, 3 + n, f); break;
    case 2: { oqpi::simple_partitioner p(n, rng(1, 5)); H::parallel_for<LG, LT>(name, p, any_prio(), f); break; }
    case 3: { oqpi::atomic_partitioner p(0, n, rng(1, 3), rng(1, 5)); H::parallel_for<LG, LT>(name, p, any_prio(), f); break; }
    default: { oqpi::simple_partitioner p(n, rng(1, 5)); H::parallel_for_each<LG, LT>(name, v, p, any_prio(), f); }
    }
    QUIET;
    if (calls != n) sim_fail("hook-missing", "a loop over %d made %d calls", n, calls);
    if (l->members < 1 || l->members != l->added) sim_fail("hook-missing", "a loop told its group of %d tasks and %d tasks of their group", l->members, l->added);
    if (l->pre != l->members || l->post != l->members || l->groupPost != 1) sim_fail("hook-missing", "a loop of %d tasks returned after %d pre-execute and %d post-execute hooks of tasks and %d post-execute hooks of its group", l->members, l->pre, l->post, l->groupPost);
    sim_probe("loop with contexts");
}

static void scenario()
{
    sim_race_detection(0);
    { QUIET; table = new std::map<std::pair<Graph *, int>, Hooks>; workers = new std::map<const void *, Worker>; loops = new std::vector<Loop *>; loopOf = new std::map<const void *, Loop *>; }
    memset(byThread, 0, sizeof byThread);
    schedulerStarts = schedulerStops = 0;
    sim_set_rtprio(one_of({0, 99}));
    WorldConfig wc;
    wc.attributes = true;
    World w(wc, true);
    w.setup<WC>(wc);
    auto start = [&] {
        ++schedulerStarts; w.start();
        if (schedulerStarts == 1) {
            // what the system makes of a thread's priority it tells of a thread of our own
            for (int p = 0; p < 6; ++p) {
                bool go = false;
                int me = -1;
                oqpi::thread_interface<> t(oqpi::thread_attributes("reference", 0, oqpi::all_cores, oqpi::thread_priority(p)), [&] { me = sim_self(); sim_unpark(&me); while (!go) sim_park(&go); });
                while (me < 0) sim_park(&me);
                granted[p] = sim_thread_priority(me);
                go = true; sim_unpark(&go);
                t.join();
            }
        }
        for (int i = 0; i < 64; ++i) {
            QUIET;
            const Worker *x = byThread[i];
            if (!x || x->own.empty()) continue;
            bool known = w.cfgs->empty();
            for (auto &c : *w.cfgs) {
                const auto &a = c.threadAttributes;
                if (a.name_ != x->own) continue;
                known = true;
                const uint64_t every = (1u << w.cores) - 1, cores = a.coreAffinityMask_ & every;
                if ((sim_thread_affinity(i) & every) != cores) sim_fail("attributes", "a worker of '%s' was registered for the cores %lx but runs on %lx", a.name_.c_str(), long(cores), long(sim_thread_affinity(i)));
                if (a.stackSize_ && sim_thread_stack(i) < a.stackSize_) sim_fail("attributes", "a worker of '%s' was registered with %u bytes of stack but has %zu", a.name_.c_str(), a.stackSize_, sim_thread_stack(i));
                if (sim_thread_priority(i) != granted[int(a.priority_)]) sim_fail("attributes", "a worker of '%s' was registered with priority %d but has another (%d, not %d)", a.name_.c_str(), int(a.priority_), sim_thread_priority(i), granted[int(a.priority_)]);
                sim_probe("worker with its attributes");
            }
            if (!known) sim_fail("attributes", "a worker is configured as '%s', which nobody registered", x->own.c_str());
        }
    };
    auto stop = [&] {
        w.stop();
        QUIET;
        ++schedulerStops;
        if (int(workers->size()) != w.workers) sim_fail("hook-missing", "%d of %d workers had their start hook called", int(workers->size()), w.workers);
        for (auto &e : *workers) {
            if (e.second.st != W_STOPPED || e.second.seq) sim_fail("hook-missing", "the scheduler has stopped but the last hook of a worker was not its stop hook");
            if (e.second.starts != schedulerStarts || e.second.stops != schedulerStops) sim_fail("hook-missing", "a worker's start hook was called %d times and its stop hook %d times in %d starts", e.second.starts, e.second.stops, schedulerStarts);
        }
    };
    start();
    auto &graphs = oracle<std::vector<Graph *>>();
    bool buildLock = false;
    auto client = [&] {
        for (int k = rng(1, 3); k > 0; --k) {
            if (chance(15)) { loop(); continue; }
            GraphCfg gc; gc.maxNodes = one_of({1, 3, 6, 10}); gc.maxDepth = rng(1, 3); gc.rootWaitable = chance(80); gc.handleless = true;
            Graph &g = Graph::make(gc);
            g.onStart = on_start; g.onEnd = on_end;
            g.root = g.gen();
            auto locked = [&] { QUIET; if (buildLock) return false; return buildLock = true; };
            while (!locked()) sim_yield();
            building = &g;
            const bool atOnce = chance(35);       // created and submitted in one go
            auto h = atOnce ? g.submit<GC, TC>() : g.build<GC, TC>(g.root);
            building = nullptr;
            buildLock = false;
            {
                QUIET;
                for (auto &x : g.n) {
                    Hooks &hk = hooks(&g, x.id);
                    for (int i = 0; i < N; ++i) {
                        if (hk.added[i] != (x.parent >= 0)) fail_("adding a task to a group did not call its onAddedToGroup once", x.id);
                        if (hk.members[i] != int(x.kids.size())) fail_("adding tasks to a group did not call its onTaskAdded once each", x.id);
                    }
                }
                graphs.push_back(&g);
            }
            const Node &r = g.n[g.root];
            if (atOnce) ;
            else if (r.kind == LEAF && chance(15)) h.executeSingleThreaded();
            else if (r.kind != LEAF && chance(10)) { h.executeSingleThreaded(); sim_probe("group executed single threaded"); }
            else H::schedule_task(h);
            if (!r.waitable) continue;
            if (r.kind == LEAF && chance(50)) h.activeWait();
            else if (chance(80)) {
                if (r.kind == PAR && chance(50)) {
                    // a worker has begun with the group, from then on help it
                    auto begun = [&] { QUIET; return hooks(&g, g.root).pre[LAST] != 0; };
                    while (!begun()) sim_park(&g);
                    h.activeWait();
                    sim_probe("helped a group a worker runs");
                } else h.wait();
                QUIET;
                if (r.kind != LEAF && (hooks(&g, g.root).post[0] != 1 || hooks(&g, g.root).post[LAST] != 1)) fail_("a waiter was released before the group's post-execute hook", g.root);
            }
        }
    };
    std::vector<Client> cs;
    const int clients = rng(1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
    if (chance(40)) { sim_sleep(100 * rng(0, 60)); stop(); some_work(rnd(16)); start(); sim_probe("restarted"); }
    join_all(cs);
    for (Graph *g : graphs) g->park_until_done();
    stop();
    {
        QUIET;
        for (Graph *g : graphs) {
            g->check_once();
            for (auto &x : g->n) {
                Hooks &hk = hooks(g, x.id);
                for (int i = 0; i < N; ++i)
                    if (hk.pre[i] != 1 || hk.post[i] != 1) sim_fail("hook-missing", "pre and post execute hooks of node %d were called %d and %d times", x.id, hk.pre[i], hk.post[i]);
            }
        }
    }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c12_hooks", scenario); }
