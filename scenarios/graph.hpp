// Random task graphs: leaves, sequences and parallel groups, nested, with a record of what happened to each leaf.
#pragma once
#include "common.hpp"

enum Kind { LEAF, SEQ, PAR };

struct Node {
    int  id = 0, parent = -1;
    Kind kind = LEAF;
    prio_t prio = prio_t::normal;
    bool waitable = true;
    int  maxsim = 0;
    int  work = 0;
    bool slow = false;               // sleeps, so that a whole group piles up behind it
    std::vector<int> kids;
    // record
    int  starts = 0, ends = 0, thread = -1;
    uint64_t s = 0, e = 0;
    int  value = 0;
};

struct GraphCfg {
    int maxNodes = 12, maxKids = 4, maxDepth = 2;
    bool groups = true, inherit = true, limits = true;
    int seqBias = 50;                // percent of groups that are sequences
    int groupBias = 45;              // percent of inner nodes that are groups
    bool rootGroup = false;
    bool rootWaitable = true;
    bool handleless = false;         // submit() may return an invalid handle
    std::vector<int> prios;          // allowed priorities, default all five
};

struct Graph;
// What the function of a leaf captures besides the graph; C10 uses one that counts its copies.
struct NoCapture { NoCapture(Graph &, int) {} void use() const {} };
using hook_t = void (*)(Graph &, Node &);

struct Graph {
    std::vector<Node> n;             // oracle memory, reserved once so that references stay valid
    int root = 0;
    GraphCfg cfg;
    hook_t onStart = nullptr, onBody = nullptr, onEnd = nullptr;
    int running = 0;
    bool large = false;              // much more than usual of something
    int *payload = nullptr;          // one cell per node in ordinary memory, written by the leaf
    void *user = nullptr;
    std::vector<oqpi::task_handle> *handles = nullptr;   // of every node, when a scenario wants to watch inner ones

    static Graph &make(const GraphCfg &c)
    {
        QUIET;
        Graph &g = *new Graph;
        g.cfg = c;
        // now and then a group with many direct members, very many, or with groups in groups in groups
        const int shape = c.groups && c.maxNodes >= 4 ? rnd(100) : 0;
        if (shape == 99) { g.cfg.maxNodes = rng(60, 300); g.cfg.maxKids = 1000; g.cfg.maxDepth = 2; g.cfg.groupBias = 1; g.cfg.rootGroup = true; g.large = true; sim_probe("group of very many"); }
        else if (shape >= 96) { g.cfg.maxNodes = rng(14, 40); g.cfg.maxKids = 2; g.cfg.maxDepth = rng(5, 14); g.cfg.groupBias = 90; g.cfg.rootGroup = true; g.large = true; sim_probe("groups nested deeply"); }
        else if (shape >= 86) { g.cfg.maxNodes = std::max(c.maxNodes, 14); g.cfg.maxKids = 12; g.cfg.groupBias = std::min(c.groupBias, 15); g.cfg.rootGroup = true; }
        if (g.large) sim_limits(8000, 2000000 + g.cfg.maxNodes * 20000);
        g.n.reserve(g.cfg.maxNodes + 8);
        return g;
    }
    bool is_anc(int a, int b) const { for (; b >= 0; b = n[b].parent) if (a == b) return true; return false; }
    bool under(int a, int b) const { return is_anc(a, b); }

    int gen(int depth = 0, int parent = -1)
    {
        int id;
        {
            QUIET;
            id = int(n.size());
            n.emplace_back();
        }
        Node &x = n[id];
        x.id = id; x.parent = parent;
        const int left = cfg.maxNodes - int(n.size());
        bool group = cfg.groups && depth < cfg.maxDepth && left >= 1 && ((depth == 0 && cfg.rootGroup) || chance(cfg.groupBias));
        if (parent >= 0 && cfg.inherit && chance(25)) x.prio = prio_t::inherit;
        else if (cfg.prios.empty()) x.prio = prio_t(rnd(5));
        else x.prio = prio_t(cfg.prios[rnd(int(cfg.prios.size()))]);
        x.waitable = depth == 0 ? cfg.rootWaitable : chance(40);
        x.work = rnd(large && n.size() > 50 ? 4 : 16);
        x.value = 1000 + id * 7;
        if (!group) return id;
        x.kind = chance(cfg.seqBias) ? SEQ : PAR;
        int k = large && depth == 0 && cfg.maxKids > 100 ? left : 1 + rnd(std::min(left, cfg.maxKids));
        if (x.kind == PAR && cfg.limits && chance(50)) x.maxsim = 1 + rnd(3);
        for (int i = 0; i < k && int(n.size()) < cfg.maxNodes; ++i) {
            int c = gen(depth + 1, id);
            QUIET;
            n[id].kids.push_back(c);
        }
        return id;
    }
    int leaves() const { int k = 0; for (auto &x : n) k += x.kind == LEAF; return k; }

    void run_leaf(int id)
    {
        Node &x = n[id];
        {
            QUIET;
            x.starts++; x.s = sim_stamp(); x.thread = sim_self(); ++running;
            if (onStart) onStart(*this, x);
        }
        if (onBody) onBody(*this, x);
        if (payload) payload[id] = x.value;
        some_work(x.work);
        {
            QUIET;
            if (onEnd) onEnd(*this, x);
            x.ends++; x.e = sim_stamp(); --running;
        }
        sim_unpark(this);
    }

    // Builds the library objects. Contexts of tasks and groups get "<prefix>#<node id>" as their name.
    template <typename GC = oqpi::empty_group_context, typename TC = oqpi::empty_task_context, typename Cap = NoCapture>
    oqpi::task_handle build(int id)
    {
        Node &x = n[id];
        const std::string name = node_name(id);
        if (x.kind == LEAF) {
            oqpi::task_handle h;
            const bool normal = x.prio == prio_t::normal;
            leaf<Cap>(id, name, [&](auto &given, auto &&...args) {
                const int how = rnd(6);
                if (x.waitable) {
                    if (how == 0 && normal) h = H::make_task<WAITABLE, TC>(name, given, args...);
                    else if (how == 1) h = H::make_task<TC>(name, x.prio, given, args...);
                    else if (how == 2 && normal) h = H::make_task<TC>(name, given, args...);
                    else if (!std::is_same<TC, oqpi::empty_task_context>::value || how < 3) h = H::make_task<WAITABLE, TC>(name, x.prio, given, args...);
                    else if (how == 3 && normal) h = H::make_task(name, given, args...);
                    else if (how == 4) h = H::make_task<WAITABLE>(name, x.prio, given, args...);
                    else h = H::make_task(name, x.prio, given, args...);
                } else {
                    if (how == 0 && normal) h = H::make_task<FORGET, TC>(name, given, args...);
                    else if (how == 1) h = H::make_task_item<TC>(name, x.prio, given, args...);
                    else if (how == 2 && normal) h = H::make_task_item<TC>(name, given, args...);
                    else if (!std::is_same<TC, oqpi::empty_task_context>::value || how < 3) h = H::make_task<FORGET, TC>(name, x.prio, given, args...);
                    else if (how == 3 && normal) h = H::make_task_item(name, given, args...);
                    else if (how == 4) h = H::make_task<FORGET>(name, x.prio, given, args...);
                    else h = H::make_task_item(name, x.prio, given, args...);
                }
            });
            if (h.getPriority() != x.prio) sim_fail("priority", "task %d has priority %d instead of %d", id, int(h.getPriority()), int(x.prio));
            if (handles) (*handles)[id] = h;
            return h;
        }
        oqpi::task_group_sptr sp;
        if (x.kind == SEQ) {
            if (std::is_same<GC, oqpi::empty_group_context>::value && chance(50)) {
                if (x.prio == prio_t::normal && chance(30)) { if (x.waitable) sp = H::make_sequence_group<WAITABLE>(name); else sp = H::make_sequence_group<FORGET>(name); }
                else if (x.waitable) sp = H::make_sequence_group<WAITABLE>(name, x.prio); else sp = H::make_sequence_group<FORGET>(name, x.prio);
            }
            else if (x.prio == prio_t::normal && chance(30)) { if (x.waitable) sp = H::make_sequence_group<WAITABLE, GC>(name); else sp = H::make_sequence_group<FORGET, GC>(name); }
            else if (x.waitable) sp = H::make_sequence_group<WAITABLE, GC>(name, x.prio); else sp = H::make_sequence_group<FORGET, GC>(name, x.prio);
        } else {
            const int members = int(x.kids.size());
            int hint = one_of({0, 0, members, members, 1, members + 3});
            if (std::is_same<GC, oqpi::empty_group_context>::value && chance(50)) {
                if (x.waitable) sp = H::make_parallel_group<WAITABLE>(name, x.prio, hint, x.maxsim); else sp = H::make_parallel_group<FORGET>(name, x.prio, hint, x.maxsim);
            }
            else if (x.waitable) sp = H::make_parallel_group<WAITABLE, GC>(name, x.prio, hint, x.maxsim); else sp = H::make_parallel_group<FORGET, GC>(name, x.prio, hint, x.maxsim);
        }
        if (sp->getPriority() != x.prio) sim_fail("priority", "group %d has priority %d instead of %d", id, int(sp->getPriority()), int(x.prio));
        const bool empty = chance(5);                      // empty handles are no members
        for (size_t i = 0; i < x.kids.size(); ++i) { if (empty && chance(50)) sp->addTask(oqpi::task_handle()); sp->addTask(build<GC, TC, Cap>(x.kids[i])); }
        if (empty) { sim_probe("empty handle added to a group"); sp->addTask(oqpi::task_handle()); }
        if (handles) (*handles)[id] = oqpi::task_handle(sp);
        return oqpi::task_handle(sp);
    }
    // Calls make with the function of a leaf, and sometimes arguments for it. Neither outlives the call: the task keeps copies of its own.
    template <typename Cap, typename Make> void leaf(int id, const std::string &name, Make make)
    {
        if (chance(70)) {
            auto f = [this, id, cap = Cap(*this, id)] { cap.use(); run_leaf(id); cap.use(); };
            auto *given = new decltype(f)(std::move(f));
            make(*given);
            delete given;
            return;
        }
        auto f = [this, cap = Cap(*this, id)](int id, const std::string &name, const Cap &more) {
            if (node_name(id) != name) sim_fail("wrong-argument", "task %d was called with other arguments than it was created with", id);
            cap.use(); more.use(); run_leaf(id); more.use(); cap.use();
        };
        auto *given = new decltype(f)(std::move(f));
        auto *text = new std::string(name);
        auto *more = new Cap(*this, id);
        make(*given, id, *text, *more);
        delete more;
        delete text;
        delete given;
    }
    // Created and submitted in one step.
    template <typename TC, typename Cap> oqpi::task_handle schedule_leaf(int id)
    {
        Node &x = n[id];
        const std::string name = node_name(id);
        oqpi::task_handle h;
        const bool normal = x.prio == prio_t::normal;
        leaf<Cap>(id, name, [&](auto &given, auto &&...args) {
            const int how = rnd(5);
            if (how == 0 && normal) h = H::schedule_task<TC>(name, given, args...);
            else if (how == 1) h = H::schedule_task<TC>(name, x.prio, given, args...);
            else if (!std::is_same<TC, oqpi::empty_task_context>::value || how == 2) h = H::schedule_task<WAITABLE, TC>(name, x.prio, given, args...);
            else if (how == 3 && normal) h = H::schedule_task(name, given, args...);
            else h = H::schedule_task(name, x.prio, given, args...);
        });
        if (h.getPriority() != x.prio) sim_fail("priority", "task %d has priority %d instead of %d", id, int(h.getPriority()), int(x.prio));
        if (handles) (*handles)[id] = h;
        return h;
    }
    // The same, and nobody gets a handle.
    template <typename TC, typename Cap> void fire_leaf(int id)
    {
        Node &x = n[id];
        const std::string name = node_name(id);
        const bool normal = x.prio == prio_t::normal;
        leaf<Cap>(id, name, [&](auto &given, auto &&...args) {
            const int how = rnd(4);
            if (how == 0 && normal) H::fire_and_forget_task<TC>(name, given, args...);
            else if (!std::is_same<TC, oqpi::empty_task_context>::value || how == 1) H::fire_and_forget_task<TC>(name, x.prio, given, args...);
            else if (how == 2 && normal) H::fire_and_forget_task(name, given, args...);
            else H::fire_and_forget_task(name, x.prio, given, args...);
        });
    }
    static std::string node_name(int id) { return "n#" + std::to_string(id) + (id % 4 == 3 ? " whose name is too long to be kept in the string" : ""); }
    static int id_of(const std::string &name) { return atoi(name.c_str() + name.find('#') + 1); }

    // Submits the whole graph in one of the ways the library offers and returns the root's handle.
    template <typename GC = oqpi::empty_group_context, typename TC = oqpi::empty_task_context, typename Cap = NoCapture>
    oqpi::task_handle submit()
    {
        Node &x = n[root];
        if (x.kind == LEAF && x.waitable && chance(40)) return schedule_leaf<TC, Cap>(root);
        if (x.kind != LEAF && !x.maxsim && x.kids.size() <= 3 && chance(40)) {
            oqpi::task_handle k[3];
            for (size_t i = 0; i < x.kids.size(); ++i) k[i] = build<GC, TC, Cap>(x.kids[i]);
            const std::string nm = node_name(root);
            auto with = [&](auto &&...h) {
                const bool normal = x.prio == prio_t::normal && chance(50);
                if constexpr (std::is_same<GC, oqpi::empty_group_context>::value) {
                    if (!normal && chance(50)) {
                        if (x.kind == PAR) return x.waitable ? H::fork_tasks<WAITABLE>(nm, x.prio, std::move(h)...) : H::fork_tasks<FORGET>(nm, x.prio, std::move(h)...);
                        return x.waitable ? H::sequence_tasks<WAITABLE>(nm, x.prio, std::move(h)...) : H::sequence_tasks<FORGET>(nm, x.prio, std::move(h)...);
                    }
                    if (normal) {
                        if (x.kind == PAR) return x.waitable ? H::fork_tasks<WAITABLE>(nm, std::move(h)...) : H::fork_tasks<FORGET>(nm, std::move(h)...);
                        return x.waitable ? H::sequence_tasks<WAITABLE>(nm, std::move(h)...) : H::sequence_tasks<FORGET>(nm, std::move(h)...);
                    }
                } else if (normal && x.kind == SEQ) return x.waitable ? H::sequence_tasks<WAITABLE, GC>(nm, std::move(h)...) : H::sequence_tasks<FORGET, GC>(nm, std::move(h)...);
                if (x.kind == PAR) return x.waitable ? H::fork_tasks<WAITABLE, GC>(nm, x.prio, std::move(h)...) : H::fork_tasks<FORGET, GC>(nm, x.prio, std::move(h)...);
                return x.waitable ? H::sequence_tasks<WAITABLE, GC>(nm, x.prio, std::move(h)...) : H::sequence_tasks<FORGET, GC>(nm, x.prio, std::move(h)...);
            };
            auto h = x.kids.size() == 1 ? with(k[0]) : x.kids.size() == 2 ? with(k[0], k[1]) : with(k[0], k[1], k[2]);
            if (h.getPriority() != x.prio) sim_fail("priority", "group %d has priority %d instead of %d", root, int(h.getPriority()), int(x.prio));
            if (handles) (*handles)[root] = h;
            return h;
        }
        if (x.kind == LEAF && !x.waitable && cfg.handleless && chance(40)) { fire_leaf<TC, Cap>(root); return {}; }
        auto h = build<GC, TC, Cap>(root);
        return chance(50) ? H::schedule_task(h) : H::schedule_task(oqpi::task_handle(h));
    }
    // For one who has no handle to wait on, or does not want to: blocks (in the simulator) until the whole graph has run.
    void park_until_done()
    {
        auto done = [this] { QUIET; return all_done(root); };
        while (!done()) sim_park(this);
    }

    uint64_t first_start(int id) const
    {
        const Node &x = n[id];
        if (x.kind == LEAF) return x.starts ? x.s : UINT64_MAX;
        uint64_t m = UINT64_MAX;
        for (int k : x.kids) m = std::min(m, first_start(k));
        return m;
    }
    uint64_t last_end(int id) const       // UINT64_MAX when some leaf has not ended
    {
        const Node &x = n[id];
        if (x.kind == LEAF) return x.ends ? x.e : UINT64_MAX;
        uint64_t m = 0;
        for (int k : x.kids) m = std::max(m, last_end(k));
        return m;
    }
    // Called by the observer of a completion: every leaf below must have ended, and its write must be visible.
    void see_completed(int id, const char *how)
    {
        {
            QUIET;
            if (!all_done(id)) sim_fail("completed-early", "%s of node %d (%s) although a task in it has not finished", how, id, n[id].kind == SEQ ? "sequence" : n[id].kind == PAR ? "parallel group" : "task");
        }
        read_payload(id, how);
    }
    void read_payload(int id, const char *how)
    {
        if (!payload) return;
        const Node &x = n[id];
        if (x.kind == LEAF) {
            if (payload[id] != x.value) sim_fail("effects-not-visible", "after %s the write of task %d is not there", how, id);
            return;
        }
        for (int k : x.kids) read_payload(k, how);
    }
    bool all_done(int id) const { return last_end(id) != UINT64_MAX; }
    void check_once() const
    {
        for (auto &x : n)
            if (x.kind == LEAF && (x.starts != 1 || x.ends != 1))
                sim_fail("execution-count", "task %d was started %d time(s) and finished %d time(s), expected exactly one", x.id, x.starts, x.ends);
    }
};

// Waits on a submitted root in one of the ways the library offers.
inline void wait_somehow(oqpi::task_handle &h, const Node &root, bool activeOk, bool poll = true)
{
    int k = rnd(4);
    if (k == 0 && activeOk && root.kind != SEQ) h.activeWait();
    else if (k == 1 && poll) { while (!h.isDone()) sim_yield(); }
    else h.wait();
}
