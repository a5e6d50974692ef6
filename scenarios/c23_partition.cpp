// C23: the ranges a partitioner hands out are disjoint and cover the whole.
#include "common.hpp"
#include "oqpi/parallel_algorithms.hpp"

struct Part { int64_t first, last; };
struct Cover { std::vector<Part> v; int64_t first, last; bool ended = false; };

// Takes ranges until told there is nothing left.
template <typename P> static void take(P &p, Cover &c, int most)
{
    for (int k = 0; k < most; ++k) {
        int32_t a = 12345, b = 54321;
        const bool r = p.getNextValidRange(a, b);
        if (!r) {
            if (chance(50) && p.getNextValidRange(a, b)) sim_fail("came-back", "a range was handed out after a caller had been told there is nothing left");
            return;
        }
        QUIET;
        if (a >= b) sim_fail("empty-range", "the range [%d, %d) was handed out", a, b);
        if (a < c.first || b > c.last) sim_fail("outside", "the range [%d, %d) is not within [%ld, %ld)", a, b, long(c.first), long(c.last));
        for (auto &x : c.v) if (a < x.last && x.first < b) sim_fail("overlap", "the ranges [%d, %d) and [%ld, %ld) overlap", a, b, long(x.first), long(x.last));
        c.v.push_back({a, b});
    }
}
static void covered(const Cover &c, const char *what)
{
    QUIET;
    int64_t n = 0;
    for (auto &x : c.v) n += x.last - x.first;
    if (n != std::max<int64_t>(c.last - c.first, 0)) sim_fail("not-covered", "%s: %ld of the %ld indices of [%ld, %ld) were handed out", what, long(n), long(c.last - c.first), long(c.first), long(c.last));
}
template <typename P> static void run(P &p, int64_t first, int64_t last, int batches, int chunk)
{
    Cover &c = oracle<Cover>();
    c.first = first; c.last = last;
    const bool any = last > first;
    if (bool(p.isValid()) != any) sim_fail("counts", "a partitioner of [%ld, %ld) says it is %svalid", long(first), long(last), p.isValid() ? "" : "not ");
    if (any && p.elementCount() != last - first) sim_fail("counts", "a partitioner of [%ld, %ld) counts %d elements", long(first), long(last), p.elementCount());
    if (any && p.batchCount() != std::min<int64_t>(last - first, batches)) sim_fail("counts", "a partitioner of [%ld, %ld) with at most %d batches counts %d", long(first), long(last), batches, p.batchCount());
    const int threads = rng(1, 4);
    std::vector<Client> cs;
    for (int i = 0; i < threads; ++i) { const int most = chance(30) ? rnd(4) : 1000; cs.push_back(spawn("client", [&p, &c, most] { take(p, c, most); })); }
    // a copy taken when nobody else is around goes on from there, on its own
    if (chance(40)) {
        join_all(cs);
        cs.clear();
        P copy(p);
        if (copy.elementCount() != p.elementCount() || copy.batchCount() != p.batchCount()) sim_fail("copy", "the copy of a partitioner has other counts");
        Cover &d = oracle<Cover>();
        { QUIET; d = c; }
        Client x = spawn("client", [&copy, &d] { take(copy, d, 1000); });
        take(p, c, chance(50) ? 1 : 1000);
        join(x);
        take(copy, d, 1000);
        covered(d, "the copy");
        sim_probe("copied while in use");
    }
    take(p, c, 1000);
    join_all(cs);
    if (chance(5)) { for (int i = rng(200, 800); i > 0; --i) take(p, c, 1); sim_probe("asked long after the end"); }
    covered(c, "the partitioner");
    // an atomic one hands out the size it was told, save for the last
    if (chunk) {
        QUIET;
        for (auto &x : c.v) if (x.last - x.first > chunk) sim_fail("chunk", "a range of %ld indices was handed out, asked for %d at a time", long(x.last - x.first), chunk);
    } else {
        QUIET;
        if (any && int64_t(c.v.size()) != p.batchCount()) sim_fail("counts", "%zu ranges were handed out, %d batches announced", c.v.size(), p.batchCount());
    }
    if (c.v.size() > 1) sim_probe("several ranges");
}

static void scenario()
{
    sim_race_detection(0);
    int64_t count;
    switch (rnd(8)) {
    case 0: count = 0; break;
    case 1: count = one_of<int64_t>({-1, -5, -1000000}); break;
    case 2: count = 1; break;
    case 3: count = one_of<int64_t>({INT32_MAX, INT32_MAX - 1, 1 << 30, 1000003}); break;
    default: count = rng(1, 40);
    }
    int64_t first;
    switch (rnd(6)) {
    case 0: first = 0; break;
    case 1: first = count > 0 ? int64_t(INT32_MAX) - count : 17; break;
    case 2: first = INT32_MIN + std::max<int64_t>(0, -count); break;
    case 3: first = -count / 2; break;
    default: first = rng(-50, 50);
    }
    if (first + count > INT32_MAX) first = INT32_MAX - count;
    const int64_t last = first + count;
    const int batches = one_of({1, 2, 3, 4, 7, 16, 40, 1000});
    if (chance(50)) {
        if (batches == 1000 && count > 1000) return;
        if (first == 0 && chance(50)) { oqpi::simple_partitioner p(int32_t(count), batches); run(p, 0, last, batches, 0); }
        else { oqpi::simple_partitioner p(int32_t(first), int32_t(last), batches); run(p, first, last, batches, 0); }
    } else {
        const int chunk = count > 1000 ? int(one_of<int64_t>({count / 3, count / 7, count - 1, INT32_MAX, count / 30})) : one_of({1, 1, 2, 3, 8, 100, INT32_MAX});
        if (first == 0 && chance(50)) { oqpi::atomic_partitioner p(int32_t(count), chunk, batches); run(p, 0, last, batches, chunk); }
        else { oqpi::atomic_partitioner p(int32_t(first), int32_t(last), chunk, batches); run(p, first, last, batches, chunk); }
    }
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c23_partition", scenario); }
