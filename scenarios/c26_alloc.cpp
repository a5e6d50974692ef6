// C26: a submission that runs out of memory leaves the scheduler intact.
#include "graph.hpp"
#include <new>

struct Unit { bool submitted = false; int runs = 0; const char *how = ""; };
static std::vector<Unit *> *units;
static bool abandoned;                 // a group that already had members was dropped because memory ran out
static bool parfors;                   // this run may do so
static int only_prio;                  // every task has this priority, or -1
static int pick_prio() { const int p = rnd(5); return only_prio < 0 ? p : only_prio; }

static prio_t any_member_prio() { return only_prio < 0 && chance(50) ? prio_t::inherit : prio_t(pick_prio()); }
static Unit *unit(const char *how) { QUIET; auto *u = new Unit; u->how = how; units->push_back(u); return u; }

// Runs f with allocations failing; says whether it got through.
template <typename F> static bool attempt(F f)
{
    sim_alloc_window(1);
    try { f(); }
    catch (const std::bad_alloc &) { sim_alloc_window(0); sim_probe("out of memory"); return false; }
    sim_alloc_window(0);
    return true;
}
// What a task does, holding memory of its own.
struct Body {
    Unit *u; int work; std::string text; std::shared_ptr<int> own;
    Body(Unit *u, int w) : u(u), work(w), text(size_t(w * 3), 'x'), own(std::make_shared<int>(w)) {}
    void operator()() const
    {
        { QUIET; if (++u->runs > 1) sim_fail("executed-twice", "a task of %s was executed %d times", u->how, u->runs); }
        if (*own != work || text.size() != size_t(work * 3)) sim_fail("capture", "a task finds its captures changed");
        some_work(work);
    }
};
static void note(Unit *u, bool ok) { QUIET; u->submitted = ok; }

static void one(int depth);
static void single(int depth)
{
    Unit *u = unit("schedule_task");
    const int work = rnd(10), prio = pick_prio(), how = rnd(3);
    const bool nest = depth > 0 && chance(40), wait = chance(50), once_more = chance(50);
    oqpi::task_handle h;
    bool ok;
    auto body = [u, work, nest, depth, b = Body(u, work)] { b(); if (nest) one(depth - 1); };
    if (how == 0) ok = attempt([&] { H::fire_and_forget_task("some task with quite a long name", prio_t(prio), body); });
    else if (how == 1) ok = attempt([&] { h = H::schedule_task("some task with quite a long name", prio_t(prio), body); });
    else {
        oqpi::task_handle made;
        ok = attempt([&] { made = H::make_task<WAITABLE>("t", prio_t(prio), body); });
        if (ok) {
            ok = attempt([&] { h = H::schedule_task(made); });
            if (!ok && once_more) {                    // the task is as it was: it can be submitted again
                sim_probe("submitted again");
                if (made.isGrabbed() || made.isDone()) sim_fail("half-submitted", "a task whose submission failed is %s", made.isDone() ? "done" : "grabbed");
                h = H::schedule_task(made);
                ok = true;
            }
        }
    }
    note(u, ok);
    if (ok && wait && h.isValid()) { if (depth < 2 || chance(50)) h.activeWait(); else h.wait(); }      // a task must not block its worker
}
static void group(int depth)
{
    const bool seq = chance(50), limited = chance(40);
    const int prio = pick_prio(), hint = rnd(3);
    oqpi::task_group_sptr sp;
    if (!attempt([&] {
            if (seq) sp = H::make_sequence_group<WAITABLE>("group", prio_t(prio));
            else sp = H::make_parallel_group<WAITABLE>("group", prio_t(prio), hint * 3, limited ? 2 : 0);
        })) return;
    std::vector<Unit *> &mine = oracle<std::vector<Unit *>>();
    for (int i = rng(1, 4); i > 0; --i) {
        Unit *u = unit("a group");
        const int work = rnd(10);
        const bool nest = depth > 0 && chance(20);
        oqpi::task_handle t;
        if (!attempt([&] { t = oqpi::task_handle(H::make_task<FORGET>("member", any_member_prio(), [nest, depth, b = Body(u, work)] { b(); if (nest) one(depth - 1); })); })) continue;
        bool member = attempt([&] { sp->addTask(t); });
        if (!member) {
            // it is as it was before: on its own
            if (t.getParentGroup()) sim_fail("half-added", "a task that could not be added to a group belongs to it");
            const int then = t.getPriority() == prio_t::inherit ? 2 * rnd(2) : rnd(3);      // on its own it has no priority to inherit
            if (then != 1 && (then == 0 || chance(50))) { sim_probe("added again"); sp->addTask(t); member = true; }
            else if (then == 1) { sim_probe("submitted on its own"); H::schedule_task(t); note(u, true); }
        }
        if (member) { QUIET; mine.push_back(u); }
    }
    if (sp->empty()) { if (!mine.empty()) sim_fail("member-lost", "a group is empty although members were added to it"); return; }
    const bool wait = depth == 2 && chance(50), help = !seq && chance(50);
    oqpi::task_handle h(sp);
    sp.reset();
    if (!attempt([&] { H::schedule_task(h); })) H::schedule_task(h);
    for (Unit *u : mine) note(u, true);
    if (wait) { if (help) h.activeWait(); else h.wait(); }
}
static void loops()
{
    const int count = rng(1, 6), batches = rng(1, 4);
    std::vector<Unit *> &mine = oracle<std::vector<Unit *>>();
    for (int i = 0; i < count; ++i) { Unit *u = unit("parallel_for"); QUIET; mine.push_back(u); }
    std::string pad(40, 'p');
    const bool ok = attempt([&] {
        H::parallel_for("loop", oqpi::simple_partitioner(0, count, batches), prio_t::normal, [&mine, pad](int i) {
            sim_alloc_window(0);        // may be called by the caller itself
            { QUIET; ++mine[i]->runs; }
            some_work(int(pad.size()) + i);
        });
    });
    for (Unit *u : mine) note(u, ok);
    if (!ok) { QUIET; abandoned = true; }
}
static void forks(int depth)
{
    Unit *a = unit("fork or sequence"), *b = unit("fork or sequence");
    const int wa = rnd(10), wb = rnd(10);
    const bool seq = chance(50);
    oqpi::task_handle h;
    const bool ok = attempt([&] {
        auto ta = H::make_task_item("a", prio_t::normal, Body(a, wa));
        auto tb = H::make_task_item("b", prio_t::normal, Body(b, wb));
        if (seq) h = H::sequence_tasks<WAITABLE>("both", prio_t::high, oqpi::task_handle(ta), oqpi::task_handle(tb));
        else h = H::fork_tasks<WAITABLE>("both", prio_t::high, oqpi::task_handle(ta), oqpi::task_handle(tb));
    });
    note(a, ok); note(b, ok);
    if (!ok) { QUIET; abandoned = true; }
    else if (depth == 2) h.wait();
}
static void one(int depth)
{
    switch (rnd(parfors ? 8 : 5)) {
    case 0: case 1: case 2: single(depth); break;
    case 3: case 4: group(depth); break;
    case 5: case 6: if (depth == 2) loops(); else forks(depth); break;
    default: forks(depth);
    }
}
// Somebody whose memory never runs out must not notice anything.
static void bystander()
{
    for (int k = rng(1, 3); k > 0; --k) {
        GraphCfg gc; gc.maxNodes = 4; gc.maxDepth = 1;
        Graph &g = Graph::make(gc);
        g.root = g.gen();
        g.payload = new int[g.n.size()]();
        { auto h = g.submit(); h.wait(); g.see_completed(g.root, "a wait"); }
        g.check_once();
        delete[] g.payload;
    }
}

static void scenario()
{
    { QUIET; units = new std::vector<Unit *>; abandoned = false; }
    parfors = chance(30);
    only_prio = chance(50) ? rnd(5) : -1;
    {
        WorldConfig wc; wc.maxWorkers = 3; wc.faults = false;
        World w(wc);
        sim_fault_enable(SIM_F_ALLOC, one_of({30, 100, 300}), rng(1, 8));
        const bool early = w.byDefault || chance(30);
        if (early) w.start();
        // The queue allocates once in a while only: bring it close to that.
        if (only_prio >= 0) for (int i = rng(26, 32); i > 0; --i) { Unit *u = unit("fire_and_forget_task"); note(u, true); H::fire_and_forget_task("early", prio_t(only_prio), [u] { QUIET; ++u->runs; }); }
        std::vector<Client> cs;
        for (int i = rng(1, 2); i > 0; --i) cs.push_back(spawn("client", [=] { for (int k = rng(1, 4); k > 0; --k) one(2); }));
        if (chance(60)) cs.push_back(spawn("bystander", [] { bystander(); }));
        if (!early) w.start();
        join_all(cs);
        sim_rest();
        for (Unit *u : *units) {
            if (u->submitted && u->runs != 1) sim_fail("execution-count", "a task of %s was submitted successfully and executed %d time(s)", u->how, u->runs);
            if (!u->submitted && u->runs) sim_fail("executed-anyway", "a task of %s was executed although its submission failed", u->how);
        }
        if (!H::scheduler_.isIdle()) sim_fail("never-idle", "everything was executed and every worker sleeps, but the scheduler does not say it is idle");
        w.stop();
        w.destroy();
    }
    if (abandoned && sim_live_allocs()) sim_fail("abandoned-group-leak", "a group that has members but is never submitted and its members keep each other alive");
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c26_alloc", scenario); }
