// C04: the members of a sequence run one after the other, each after everything of the previous one.
#include "graph.hpp"

// Runs at the beginning of every task, as part of the task: everything of the preceding members must be over and visible.
static void body(Graph &g, Node &x)
{
    for (int c = x.id; g.n[c].parent >= 0; c = g.n[c].parent) {
        const Node &p = g.n[g.n[c].parent];
        if (p.kind != SEQ) continue;
        int prev = -1;
        for (int k : p.kids) { if (k == c) break; prev = k; }
        for (int k : p.kids) {
            if (k == c) break;
            QUIET;
            if (!g.all_done(k)) sim_fail("out-of-order", "task %d of member %d of sequence %d started before member %d had finished", x.id, c, p.id, k);
        }
        bool after = false;
        for (int k : p.kids) {
            QUIET;
            if (after && g.first_start(k) != UINT64_MAX) sim_fail("out-of-order", "a task of member %d of sequence %d started before task %d of the earlier member %d", k, p.id, x.id, c);
            if (k == c) after = true;
        }
        if (prev >= 0) g.read_payload(prev, "the start of the next member");
    }
}

// A sequence with more steps than fit in sixteen bits.
static void giant()
{
    sim_race_detection(0);
    sim_limits(400000, 60000000);
    sim_heap_reuse(1);
    sim_many_objects();
    World w;
    w.start();
    const int n = one_of({65536, 65537, 66000});
    int next = 0, inside = 0;
    auto sp = H::make_sequence_group<WAITABLE>("s", any_prio());
    for (int i = 0; i < n; ++i)
        sp->addTask(oqpi::task_handle(H::make_task<FORGET>("x", prio_t(i % 5), [&next, &inside, i] {
            QUIET;
            if (next++ != i || inside++) sim_fail("out-of-order", "step %d of a very long sequence was started as number %d", i, next - 1);
            --inside;
        })));
    auto h = H::schedule_task(oqpi::task_handle(sp));
    h.wait();
    if (next != n) sim_fail("completed-early", "a wait on a sequence of %d returned after %d steps", n, next);
    w.stop();
    w.destroy();
    sim_probe("sequence of 65536");
}

static void scenario()
{
    if (rnd(14000) == 13999) { giant(); return; }
    World w;
    w.start();
    auto &graphs = oracle<std::vector<Graph *>>();
    auto one = [&] {
        GraphCfg gc;
        gc.maxNodes = one_of({4, 7, 11, 15}); gc.maxDepth = rng(1, 3); gc.rootGroup = true; gc.seqBias = 65; gc.groupBias = one_of({20, 45, 70}); gc.rootWaitable = chance(80);
        Graph &g = Graph::make(gc);
        g.onBody = body;
        g.root = g.gen();
        g.payload = new int[g.n.size()]();
        { QUIET; graphs.push_back(&g); }
        auto h = g.submit();
        if (!g.n[g.root].waitable || chance(20)) g.park_until_done();
        else {
            if (g.n[g.root].kind == PAR && chance(50)) h.activeWait(); else h.wait();
            g.see_completed(g.root, "a wait returned");
        }
    };
    std::vector<Client> cs;
    const int clients = rng(1, 2);
    for (int i = 0; i < clients; ++i) cs.push_back(spawn("client", [&] { for (int k = rng(1, 2); k > 0; --k) one(); }));
    join_all(cs);
    { QUIET; for (Graph *g : graphs) g->check_once(); }
    w.stop();
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c04_sequence", scenario); }
