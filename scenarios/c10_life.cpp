// C10: nothing is freed while it may still be used, and everything is freed once.
#include "graph.hpp"

struct Book { int live = 0, made = 0; };
static std::map<std::pair<Graph *, int>, Book> *book;
static int totalLive;

// A copyable capture that owns memory and notices use after destruction and double destruction.
struct Capture {
    Graph *g; int id; int *cell; unsigned canary = 0xc0ffee11u;
    void add() { QUIET; Book &b = (*book)[{g, id}]; ++b.live; ++b.made; ++totalLive; }
    Capture(Graph &gr, int i) : g(&gr), id(i), cell(new int(i)) { add(); }
    Capture(const Capture &o) : g(o.g), id(o.id) { o.use(); cell = new int(*o.cell); add(); }
    Capture(Capture &&o) : g(o.g), id(o.id), cell(o.cell) { o.check(); o.cell = nullptr; add(); }
    Capture &operator=(const Capture &) = delete;
    ~Capture()
    {
        check();
        canary = 0xdeadu;
        delete cell;
        QUIET;
        --(*book)[{g, id}].live; --totalLive;
    }
    void check() const { if (canary != 0xc0ffee11u) sim_fail("capture-destroyed", "the captures of task %d are used or destroyed after their destruction", id); }
    void use() const { check(); if (!cell || *cell != id) sim_fail("capture-corrupted", "the captures of task %d changed", id); }
};
using EG = oqpi::empty_group_context;
using ET = oqpi::empty_task_context;

static std::vector<Graph *> *graphs;

static void body(Graph &g, Node &x)
{
    if (x.work % 8 == 5) {
        Capture c(g, x.id);
        oqpi::atomic_partitioner p(0, 2, 1, 2);
        H::parallel_for("nested", p, prio_t(x.id % 5), [c](int) { c.use(); sim_point(); });
        sim_probe("parallel_for inside a task");
    }
}

static void typed(int i)
{
    // results that own memory
    auto t = H::make_task<WAITABLE>("typed", any_prio(), [i](const std::string &s, std::shared_ptr<int> p) { sim_point(); return s + std::to_string(*p + i); },
                                    std::string("a string that does not fit inline at all"), std::make_shared<int>(7));
    if (chance(20)) return;                              // never submitted
    if (chance(50)) H::schedule_task(t); else H::schedule_task(oqpi::task_handle(t));
    if (chance(30)) return;                              // result never read
    auto r = chance(50) ? t->waitForResult() : (t->activeWait(), t->getResult());
    if (r != "a string that does not fit inline at all" + std::to_string(7 + i)) sim_fail("wrong-result", "the result of a task changed");
}

// A parallel_for whose caller does not wait: the group keeps what it needs.
static void loop_group(int k)
{
    Graph *g;
    { QUIET; g = new Graph; }
    oqpi::task_handle h;
    {
        Capture c(*g, k);
        auto f = [c](int) { c.use(); sim_point(); c.use(); };
        auto *function = new decltype(f)(f);
        const int count = rng(1, 5), batches = rng(1, 3);
        std::shared_ptr<oqpi::task_group_base> sp;
        if (chance(50)) sp = H::make_parallel_for_task_group<WAITABLE>("loop", oqpi::atomic_partitioner(0, count, 1, batches), any_prio(), *function);
        else sp = H::make_parallel_for_task_group<WAITABLE>("loop", oqpi::simple_partitioner(0, count, batches), any_prio(), *function);
        delete function;
        h = H::schedule_task(oqpi::task_handle(sp));
    }
    sim_probe("parallel_for group not waited for");
    if (chance(40)) { if (chance(50)) h.activeWait(); else h.wait(); }
}

static void scenario()
{
    { QUIET; book = new std::map<std::pair<Graph *, int>, Book>; graphs = new std::vector<Graph *>; }
    totalLive = 0;
    WorldConfig wc; wc.maxWorkers = 3;
    World w(wc);
    w.start();
    auto watch = [](oqpi::task_handle h, bool par) {       // a waiter with a handle of its own, which may be the last one
        int k = rnd(3);
        if (k == 0 && par) h.activeWait();
        else if (k == 1) { while (!h.isDone()) sim_yield(); }
        else h.wait();
    };
    auto &waiters = oracle<std::vector<Client>>();
    auto client = [&] {
        for (int k = rng(1, 3); k > 0; --k) {
            if (chance(25)) { typed(k); continue; }
            if (chance(15)) { loop_group(k); continue; }
            GraphCfg gc; gc.maxNodes = one_of({1, 1, 3, 5, 8}); gc.rootWaitable = chance(75);
            Graph &g = Graph::make(gc);
            g.onBody = body;
            g.root = g.gen();
            { QUIET; graphs->push_back(&g); }
            const Node &r = g.n[g.root];
            auto h = g.submit<EG, ET, Capture>();
            if (chance(20)) H::schedule_task(h);                                  // a second entry in the queue
            if (r.waitable)
                for (int i = rng(0, 2); i > 0; --i) {
                    Client c = spawn("waiter", [watch, hh = h, par = r.kind != SEQ]() mutable { watch(hh, par); hh.reset(); });
                    QUIET;
                    waiters.push_back(c);
                }
            if (chance(30)) { h.reset(); continue; }
            if (r.waitable && chance(60)) { if (r.kind != SEQ && chance(50)) h.activeWait(); else h.wait(); }
        }
    };
    std::vector<Client> cs;
    const int clients = rng(1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", client));
    join_all(cs);
    for (size_t i = 0; i < waiters.size(); ++i) join(waiters[i]);
    for (Graph *g : *graphs) g->park_until_done();
    sim_rest();
    {
        QUIET;
        for (auto &e : *book)
            if (e.second.live) sim_fail("not-destroyed", "%d copies of the captures of task %d are alive although it completed and no handle to it is left", e.second.live, e.first.second);
    }
    w.stop();
    w.destroy();
    cs.clear(); cs.shrink_to_fit();
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c10_life", scenario); }
