// C22: the concurrent queue is a linearizable first in first out queue.
#include "linear.hpp"

enum { PUSH, POP, EMPTY };
static History *hist;
static int live;

// An element with memory of its own, written before the push and read after the pop by ordinary code.
struct Item {
    int v = -1; int *mem = nullptr;
    Item() { QUIET; ++live; }
    explicit Item(int x) : v(x), mem(new int(x * 3)) { QUIET; ++live; }
    Item(const Item &o) : v(o.v), mem(o.mem ? new int(*o.mem) : nullptr) { QUIET; ++live; }
    Item(Item &&o) noexcept : v(o.v), mem(o.mem) { o.mem = nullptr; o.v = -2; QUIET; ++live; }
    Item &operator=(const Item &o) { Item c(o); std::swap(v, c.v); std::swap(mem, c.mem); return *this; }
    Item &operator=(Item &&o) noexcept { delete mem; v = o.v; mem = o.mem; o.mem = nullptr; o.v = -2; return *this; }
    ~Item() { delete mem; QUIET; --live; }
    int get() const
    {
        if (!mem) sim_fail("element-damaged", "an element came out of the queue without its contents");
        if (*mem != v * 3) sim_fail("element-damaged", "element %d came out of the queue with other contents than went in", v);
        return v;
    }
};

struct Fifo {
    std::vector<int> q;
    std::string key() const { return std::string((const char *)q.data(), q.size() * sizeof(int)); }
};
static bool step(Fifo &f, const Op &o)
{
    switch (o.kind) {
    case PUSH: f.q.push_back(o.arg); return true;
    case EMPTY: return o.res == int(f.q.empty());
    default:
        if (o.res < 0) return f.q.empty();
        if (f.q.empty() || f.q.front() != o.res) return false;
        f.q.erase(f.q.begin());
        return true;
    }
}

static int next_value;
template <typename Q> static void script(Q &q, int pushes, int pops)
{
    for (int k = rng(1, 6); k > 0; --k) {
        int what = rnd(pushes + pops + 1);
        if (what < pushes) {
            int v;
            { QUIET; v = ++next_value; }
            Item it(v);
            const bool copy = chance(50);
            int o = hist->begin("push", PUSH, v);
            if (copy) q.push(it); else q.push(std::move(it));
            hist->end(o, 0);
            if (copy && it.get() != v) sim_fail("element-damaged", "pushing a copy changed the original");
        } else if (what < pushes + pops) {
            Item it;
            if (chance(30)) it = Item(7);
            int o = hist->begin("tryPop", POP);
            const bool r = q.tryPop(it);
            hist->end(o, r ? it.get() : -1);
        } else {
            int o = hist->begin("empty", EMPTY);
            const bool r = q.empty();
            hist->end(o, r);
        }
        if (chance(20)) sim_point();
    }
}

// very many elements: producers number theirs, each consumer sees those of a producer in order, and a lone consumer finds all there are
static void bulk()
{
    sim_limits(60000, 3000000);
    sim_heap_reuse(1);
    struct State { int pushed[3] = {}, popped[3] = {}, last[3][3], total = 0, gone = 0; State() { memset(last, -1, sizeof last); } };
    State &st = oracle<State>();
    const int producers = rng(1, 2), consumers = rng(1, 2);
    const int each = one_of({40, 300, 1500}) + (chance(3) ? 35000 : 0);
    const int backlog = chance(50) ? each : rnd(each);
    {
        concurrent_queue<Item> q;
        auto produce = [&](int p, int n) {
            for (int i = 0; i < n; ++i) {
                int v;
                { QUIET; v = p * 1000000 + st.pushed[p]; }
                q.push(Item(v));
                QUIET; ++st.pushed[p]; ++st.total;
            }
        };
        auto consume = [&](int c) {
            for (;;) {
                int there;
                { QUIET; there = st.total - st.gone; if (st.gone == producers * each) return; }
                Item it;
                const bool r = q.tryPop(it);
                if (!r) { if (consumers == 1 && there > 0) sim_fail("not-linearizable", "tryPop found nothing among %d elements", there); sim_yield(); continue; }
                const int v = it.get();
                QUIET;
                const int p = v / 1000000, i = v % 1000000;
                if (i <= st.last[c][p]) sim_fail("not-linearizable", "element %d of a producer came out after element %d", i, st.last[c][p]);
                if (producers == 1 && consumers == 1 && i != st.popped[p]) sim_fail("not-linearizable", "element %d came out instead of element %d", i, st.popped[p]);
                st.last[c][p] = i;
                ++st.popped[p];
                ++st.gone;
            }
        };
        produce(0, backlog);
        std::vector<Client> cs;
        for (int p = 0; p < producers; ++p) cs.push_back(spawn("producer", [&, p] { produce(p, p ? each : each - backlog); }));
        for (int c = 0; c < consumers; ++c) cs.push_back(spawn("consumer", [&, c] { consume(c); }));
        join_all(cs);
        if (!q.empty()) sim_fail("not-linearizable", "all elements were popped but the queue is not empty");
        sim_probe("very many elements");
    }
    if (live) sim_fail("element-count", "%d elements are alive after the queue is gone", live);
    check_no_leak();
}

static void scenario()
{
    live = next_value = 0;
    if (rnd(400) == 399) { bulk(); return; }
    hist = &History::make(160);
    live = next_value = 0;
    {
        concurrent_queue<Item> q;
        if (!q.empty()) sim_fail("not-linearizable", "a new queue is not empty");
        const int before = chance(50) ? rnd(5) : 0;
        for (int i = 0; i < before; ++i) { int v; { QUIET; v = ++next_value; } int o = hist->begin("push", PUSH, v); q.push(Item(v)); hist->end(o, 0); }
        std::vector<Client> cs;
        for (int i = rng(2, 4); i > 0; --i) { const int a = rnd(4), b = rnd(4) + (a == 0); cs.push_back(spawn("client", [&q, a, b] { script(q, a, b); })); }
        join_all(cs);
        if (chance(70)) {
            // drain, and it must say so
            for (;;) {
                const bool e = q.empty();
                Item it;
                int o = hist->begin("tryPop", POP);
                const bool r = q.tryPop(it);
                hist->end(o, r ? it.get() : -1);
                if (e == r) sim_fail("not-linearizable", "with nobody else around empty says %d and then tryPop says %d", e, r);
                if (!r) break;
            }
        }
        if (!linearizable(hist->ops, Fifo(), step, [](const Fifo &, const Op &) { return false; }))
            sim_fail("not-linearizable", "no order of these operations on a queue explains them:%s", hist->text().c_str());
    }
    if (live) sim_fail("element-count", "%d elements are alive after the queue is gone", live);
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c22_queue", scenario); }
