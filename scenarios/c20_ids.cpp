// C20: identifiers are unique, valid and do not change.
#include "graph.hpp"

static std::map<oqpi::task_uid, int> *seen;     // identifier and who made it

static void record(const oqpi::task_handle &h)
{
    const oqpi::task_uid id = h.getUID();
    if (id == oqpi::task_uid(oqpi::invalid_task_uid)) sim_fail("invalid-id", "a task has the invalid identifier");
    QUIET;
    auto r = seen->insert({id, sim_self()});
    if (!r.second) sim_fail("duplicate-id", "tasks made by T%d and T%d have the same identifier %lu", r.first->second, sim_self(), (unsigned long)id);
}
static void same(const oqpi::task_handle &h, oqpi::task_uid id, const char *when)
{
    if (h.getUID() != id) sim_fail("id-changed", "the identifier of a task was %lu and %s it is %lu", (unsigned long)id, when, (unsigned long)h.getUID());
}

// A task that was moved goes on as itself, what it was moved from is not the same task any more.
struct Nothing { void operator()() {} };
using plain_task = oqpi::task<WAITABLE, oqpi::manual_reset_event_interface<>, oqpi::empty_task_context, Nothing>;
template <typename T> static oqpi::task_handle moved(std::shared_ptr<T> sp)
{
    const oqpi::task_uid id = sp->getUID();
    record(oqpi::task_handle(sp));
    auto check = [&](const T &to, const T &from) {
        if (to.getUID() != id) sim_fail("id-changed", "the identifier of a task was %lu and once moved it is %lu", (unsigned long)id, (unsigned long)to.getUID());
        if (from.getUID() == id) sim_fail("duplicate-id", "a task and what it was moved from have the same identifier %lu", (unsigned long)id);
    };
    sim_probe("task moved");
    if constexpr (std::is_same<T, plain_task>::value)
        if (chance(50)) {
            auto to = std::make_shared<T>("other", any_prio(), Nothing());
            *to = std::move(*sp);
            check(*to, *sp);
            if (chance(30)) { *sp = std::move(*to); check(*sp, *to); return oqpi::task_handle(sp); }
            return oqpi::task_handle(to);
        }
    auto to = std::make_shared<T>(std::move(*sp));
    check(*to, *sp);
    return oqpi::task_handle(to);
}

static void make_many(int n)
{
    sim_probe("very many tasks");
    for (int i = 0; i < n; ++i) {
        if (i % 16 == 3) record(oqpi::task_handle(H::make_parallel_group<FORGET>("g")));
        else record(oqpi::task_handle(H::make_task<FORGET>("t", prio_t::low, [] {})));
    }
}

static void make_some(int depth, bool run)
{
    for (int k = rng(1, 3); k > 0; --k) {
        oqpi::task_handle h;
        std::vector<oqpi::task_handle> members;
        auto leaf = [&]() -> oqpi::task_handle {
            if (depth && chance(30)) return H::make_task<WAITABLE>("maker", any_prio(), [depth, run] { make_some(depth - 1, run && depth > 5); });
            if (chance(30)) return oqpi::task_handle(H::make_task<FORGET>("t", any_prio(), [] {}));
            if (chance(20)) return std::make_shared<plain_task>("t", any_prio(), Nothing());
            return oqpi::task_handle(H::make_task<WAITABLE>("t", [] { sim_point(); }));
        };
        const int kind = rnd(4);
        if (kind <= 1) {
            auto sp = kind == 0 ? oqpi::task_group_sptr(H::make_parallel_group<WAITABLE>("g", any_prio(), rnd(3), rnd(3))) : oqpi::task_group_sptr(H::make_sequence_group<WAITABLE>("g", any_prio()));
            h = oqpi::task_handle(sp);
            record(h);
            for (int i = rng(1, 3); i > 0; --i) { auto m = leaf(); record(m); members.push_back(m); sp->addTask(m); }
        } else {
            const int how = rnd(6);
            if (how == 0) h = moved(H::make_task<WAITABLE>("t", any_prio(), [] { sim_point(); }));
            else if (how == 1) h = moved(std::make_shared<plain_task>("t", any_prio(), Nothing()));
            else { h = leaf(); record(h); }
        }
        const oqpi::task_uid id = h.getUID();
        std::vector<oqpi::task_uid> ids;
        for (auto &m : members) ids.push_back(m.getUID());
        if (chance(15)) { const auto gone = H::make_task<WAITABLE>("gone", [] {}); record(oqpi::task_handle(gone)); }
        oqpi::task_handle copy = h, moved = std::move(copy);
        same(moved, id, "through another handle");
        if (!run) continue;
        const auto sub = H::schedule_task(h);
        same(sub, id, "once submitted");
        if (chance(60)) {
            while (!h.isDone()) sim_sleep(2000);
            same(h, id, "once done");
            for (size_t i = 0; i < members.size(); ++i) same(members[i], ids[i], "once done");
        }
    }
}

static void scenario()
{
    sim_race_detection(0);
    { QUIET; seen = new std::map<oqpi::task_uid, int>; }
    WorldConfig wc; wc.maxWorkers = 3;
    World w(wc);
    const bool run = chance(70);
    if (run) w.start();
    std::vector<Client> cs;
    const int size = rnd(2000);
    const int many = size == 1999 ? 70000 : size >= 1980 ? rng(100, 3000) : 0;
    if (many) { sim_limits(20000, 10000000); sim_heap_reuse(1); for (int i = rng(1, 3); i > 0; --i) cs.push_back(spawn("client", [=] { make_many(many); })); }
    for (int i = rng(2, 4); i > 0; --i) cs.push_back(spawn("client", [=] { make_some(run ? 1 : 0, run); }));
    join_all(cs);
    if (run) { sim_rest(); w.stop(); }
    w.destroy();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c20_ids", scenario); }
