// C09: parallel_for calls its function exactly once per index, and is over when it returns.
#include "common.hpp"

struct Loop {
    int first, last, batches;            // batches < 0: no batch index is passed
    std::map<int, int> begun, ended;     // oracle memory
    std::map<int, int> inBatch;
    int *data;                           // one plain cell per index
    int depth = 0;
    bool returned = false;
    int active = 0;
};

static Loop &make_loop(int first, int last, int batches)
{
    int *d = last > first ? new int[last - first]() : nullptr;
    QUIET;
    Loop &l = *new Loop;
    l.first = first; l.last = last; l.batches = batches; l.data = d;
    return l;
}
static void enter(Loop &l, int batch, int i)
{
    QUIET;
    if (l.returned) sim_fail("called-after-return", "parallel_for had returned when its function was called for index %d", i);
    if (i < l.first || i >= l.last) sim_fail("index-outside", "function called for index %d outside [%d, %d)", i, l.first, l.last);
    if (++l.begun[i] > 1) sim_fail("index-repeated", "function called twice for index %d of [%d, %d)", i, l.first, l.last);
    if (batch >= 0) {
        if (batch >= l.batches) sim_fail("batch-outside", "batch index %d, but there are only %d batches", batch, l.batches);
        if (l.inBatch[batch]++) sim_fail("batch-shared", "two calls with batch index %d overlap", batch);
    }
    if (++l.active > 1) sim_probe("calls overlapped");
}
static void leave(Loop &l, int batch, int i)
{
    QUIET;
    --l.active;
    if (batch >= 0) --l.inBatch[batch];
    ++l.ended[i];
}
static void finished(Loop &l)
{
    {
        QUIET;
        l.returned = true;
        for (int i = l.first; i < l.last; ++i) {
            if (l.begun[i] != 1) sim_fail("index-missed", "parallel_for over [%d, %d) returned but index %d was called %d times", l.first, l.last, i, l.begun[i]);
            if (l.ended[i] != 1) sim_fail("returned-early", "parallel_for returned while the call for index %d was still running", i);
        }
    }
    for (int i = l.first; i < l.last; ++i)
        if (l.data[i - l.first] != i * 2 + 1) sim_fail("effects-not-visible", "the write of the call for index %d is not visible after parallel_for", i);
}

static void one_loop(int depth);

struct Range { int first, count; };
static Range any_range()
{
    switch (rnd(8)) {
    case 0: return {rng(-3, 3), 0};
    case 1: return {0, 1};
    case 2: return {-rng(1, 9), rng(1, 12)};
    case 3: return {rng(1, 1000), rng(1, 10)};
    case 4: return {2147483647 - 8, rng(1, 8)};
    case 5: return {-2147483647 - 1, rng(1, 8)};
    default: return {0, rng(1, 16)};
    }
}

static void one_loop(int depth)
{
    const int inner = depth < 2 && chance(25) ? rnd(4) : -1;       // at which call a nested loop is run
    const int workers = H::scheduler_.workersCount(prio_t::normal);
    const prio_t prio = any_prio();
    const std::string name = "loop";
    Range r = any_range();
    const int kind = rnd(8);
    using EG = oqpi::empty_group_context; using ET = oqpi::empty_task_context;
    const bool plain = chance(60);        // else the contexts are given
    auto act = [depth, inner](Loop &l, int batch, int i) {
        enter(l, batch, i);
        if (l.data) l.data[i - l.first] = i * 2;
        if (inner >= 0 && i - l.first == inner) { sim_probe("nested parallel_for"); one_loop(depth + 1); }
        else some_work((i - l.first) * 5 + l.batches);
        if (l.data) l.data[i - l.first] = i * 2 + 1;
        leave(l, batch, i);
    };
    switch (kind) {
    case 0: { Loop &l = make_loop(0, r.count, workers); auto f = [&l, act](int i) { act(l, -1, i); }; if (plain) H::parallel_for(name, r.count, f); else H::parallel_for<EG, ET>(name, r.count, f); finished(l); break; }
    case 1: { Loop &l = make_loop(r.first, r.first + r.count, workers); auto f = [&l, act](int b, int i) { act(l, b, i); }; if (plain) H::parallel_for(name, l.first, l.last, f); else H::parallel_for<EG, ET>(name, l.first, l.last, f); finished(l); break; }
    case 2: case 3: {
        const int batches = rng(1, 9);
        oqpi::simple_partitioner p(r.first, r.first + r.count, batches);
        Loop &l = make_loop(r.first, r.first + r.count, batches);
        if (chance(50)) H::parallel_for(name, p, prio, [&l, act](int b, int i) { act(l, b, i); }); else H::parallel_for(name, p, prio, [&l, act](int i) { act(l, -1, i); });
        finished(l);
        break;
    }
    case 4: case 5: {
        const int batches = rng(1, 6);
        oqpi::atomic_partitioner p(r.first, r.first + r.count, rng(1, 5), batches);
        Loop &l = make_loop(r.first, r.first + r.count, batches);
        H::parallel_for(name, p, prio, [&l, act](int b, int i) { act(l, b, i); });
        finished(l);
        // the partitioner given is copied: using it again is a new loop over everything
        if (chance(20)) { Loop &m = make_loop(l.first, l.last, batches); H::parallel_for(name, p, prio, [&m, act](int i) { act(m, -1, i); }); finished(m); }
        break;
    }
    case 6: {
        struct Cell { int index; };
        std::vector<Cell> v(r.count);
        for (int i = 0; i < r.count; ++i) v[i].index = i;
        Loop &l = make_loop(0, r.count, workers);
        auto f = [&l, act](Cell &c) { act(l, -1, c.index); };
        if (chance(50)) H::parallel_for_each(name, v, f);
        else { oqpi::simple_partitioner p(0, r.count, rng(1, 4)); if (plain) H::parallel_for_each(name, v, p, prio, f); else H::parallel_for_each<EG, ET>(name, v, p, prio, f); }
        finished(l);
        break;
    }
    default: {
        // the same as a task group, submitted and waited on by hand
        const int batches = rng(1, 5);
        Loop &l = make_loop(r.first, r.first + r.count, batches);
        auto run = [&](auto &&p) {
            // what the group was made from does not need to outlive it being made
            auto f = [&l, act](int b, int i) { act(l, b, i); };
            auto *function = new decltype(f)(f);
            auto *partitioner = new std::decay_t<decltype(p)>(p);
            decltype(H::make_parallel_for_task_group<WAITABLE>(name, *partitioner, prio, *function)) g;
            if (plain) g = H::make_parallel_for_task_group<WAITABLE>(name, *partitioner, prio, *function);
            else g = H::make_parallel_for_task_group<WAITABLE, EG, ET>(name, *partitioner, prio, *function);
            delete partitioner;
            delete function;
            if (!g) { if (r.count > 0) sim_fail("index-missed", "no group was made for a range that is not empty"); return; }
            auto h = H::schedule_task(oqpi::task_handle(g));
            // blocking a worker without helping could starve the batches
            if (depth == 0 && chance(50)) h.wait(); else h.activeWait();
        };
        if (chance(50)) run(oqpi::simple_partitioner(l.first, l.last, batches)); else run(oqpi::atomic_partitioner(l.first, l.last, rng(1, 4), batches));
        finished(l);
        break;
    }
    }
}

// many batches, many indices
static void bulk(bool giant)
{
    const bool wide = !giant && chance(3);
    if (giant || wide) sim_limits(400000, 60000000);
    else sim_limits(100000, 4000000);
    sim_heap_reuse(1);
    const int n = giant || wide ? one_of({65536, 65537, 66000}) : one_of({50, 400, 3000}), batches = giant ? one_of({65536, 65537, 66000}) : one_of({20, 100, 300}), first = one_of({0, -n / 2, 2147483647 - n});
    Loop &l = make_loop(first, first + n, batches);
    auto act = [&l](int b, int i) { enter(l, b, i); if (i % 16 == 3) sim_point(); l.data[i - l.first] = i * 2 + 1; leave(l, b, i); };
    if (first == 0 && chance(50)) {
        std::vector<int> v(n);
        for (int i = 0; i < n; ++i) v[i] = i;
        H::parallel_for_each("loop", v, [&act](int i) { act(-1, i); });
    }
    else if (chance(50)) H::parallel_for("loop", oqpi::simple_partitioner(l.first, l.last, batches), any_prio(), act);
    else H::parallel_for("loop", oqpi::atomic_partitioner(l.first, l.last, one_of({1, 7, n / 20, n}), batches), any_prio(), act);
    finished(l);
    sim_probe(giant ? "batches beyond 16 bits" : wide ? "indices beyond 16 bits" : "many batches");
}

static void scenario()
{
    const bool giant = rnd(20000) == 19999;
    if (giant) { sim_many_objects(); sim_race_detection(0); }
    WorldConfig wc;
    World w(wc);
    w.start();
    if (giant || rnd(400) == 399) { bulk(giant); w.stop(); w.destroy(); return; }
    std::vector<Client> cs;
    const int clients = rng(1, 3);
    for (int i = 0; i < clients; ++i)
        cs.push_back(spawn("client", [] {
            if (chance(25)) {
                auto h = H::schedule_task(H::make_task<WAITABLE>("outer", any_prio(), [] { one_loop(1); }));
                if (chance(50)) h.wait(); else h.activeWait();
                sim_probe("parallel_for inside a task");
            }
            else for (int k = rng(1, 2); k > 0; --k) one_loop(0);
        }));
    join_all(cs);
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c09_parfor", scenario); }
