// C21: a thread runs its function once, and failing to start one is clean.
#include "common.hpp"

using oqpi::thread_attributes;
using T = oqpi::thread_interface<>;

struct Job {
    int id = 0, starts = 0, ends = 0, tid = -1, made_by = -1;
    bool created = false, detached = false, joined = false, terminated = false;
    // what it was created with
    std::string name; bool named = false;
    uint32_t stack = 0; uint64_t cores = 0; int prio = -1;
    bool changed = false;                // it changed its own affinity or priority
    T::id self{};                        // what it says its own id is
    int *cell = nullptr;                 // two cells of plain memory written by the thread and read after the join
    std::atomic<int> over{0};            // what is left to synchronise with once a thread is detached
};
static std::vector<Job *> *jobs;
#ifdef SIM_WINDOWS
static bool is_of(const T &t, T::id) { return t.getNativeHandle() != nullptr; }
#else
static bool is_of(const T &t, T::id id) { return t.getNativeHandle() == id; }
#endif
static int captures;                     // live copies of arguments
static int cores, rtprio;                // of the machine; what priority the system grants
static uint64_t every_core() { return cores >= 64 ? ~0ull : (1ull << cores) - 1; }
static bool refusing;                    // attribute calls may fail

struct Tracked {                         // an argument which knows how many of it live
    int v; int *mem;
    explicit Tracked(int x) : v(x), mem(new int(x)) { QUIET; ++captures; }
    Tracked(const Tracked &o) : v(o.v), mem(new int(*o.mem)) { QUIET; ++captures; }
    Tracked(Tracked &&o) : v(o.v), mem(o.mem) { o.mem = nullptr; QUIET; ++captures; }
    Tracked &operator=(const Tracked &) = delete;
    ~Tracked() { delete mem; QUIET; --captures; }
};

static void enter(Job &j)
{
    QUIET;
    ++j.starts; j.tid = sim_self();
    if (j.tid == j.made_by) sim_fail("wrong-thread", "the function ran on the thread that created the thread object");
    if (j.starts > 1) sim_fail("run-twice", "the function of thread %d was called %d times", j.id, j.starts);
    if (refusing) return;
    if (j.named && j.name.size() <= 15 && j.name != sim_thread_name(j.tid)) sim_fail("name", "thread %d was created with the name '%s' but runs as '%s'", j.id, j.name.c_str(), sim_thread_name(j.tid));
    if (j.stack >= 65536 && sim_thread_stack(j.tid) < j.stack) sim_fail("stack", "thread %d was created with %u bytes of stack but has %zu", j.id, j.stack, sim_thread_stack(j.tid));
}
static void leave(Job &j) { *j.cell = 1000 + j.id; j.over.store(1); QUIET; ++j.ends; }

static void self_service(Job *j)
{
    j->self = oqpi::this_thread::get_id();
    if (chance(30)) oqpi::this_thread::sleep_for(std::chrono::microseconds(rng(1, 30)));
    if (chance(50)) return;
    j->changed = true;
    if (chance(30)) {
        const bool fits = chance(50);
        oqpi::this_thread::set_name(fits ? "short" : "a name that is far too long");
        QUIET;
        if (fits && !refusing && strcmp(sim_thread_name(sim_self()), "short")) sim_fail("name", "a thread named itself 'short' but runs as '%s'", sim_thread_name(sim_self()));
    }
    if (chance(20) && int(oqpi::this_thread::get_current_core()) >= cores) sim_fail("core", "a thread runs on core %d of %d", int(oqpi::this_thread::get_current_core()), cores);
    if (chance(20)) oqpi::this_thread::set_priority(oqpi::thread_priority(rnd(6)));
    if (chance(20)) oqpi::this_thread::set_affinity_mask(oqpi::core_affinity(1u << rnd(2)));
    if (chance(20)) oqpi::this_thread::set_affinity(rnd(2));
    if (chance(20)) oqpi::this_thread::yield();
}
static void plain(Job *j)
{
    enter(*j);
    some_work(j->id + rnd(8));
    if (chance(4)) { sim_probe("runs for long"); oqpi::this_thread::sleep_for(std::chrono::seconds(one_of<int64_t>({90, 5000, 100000}))); }
    self_service(j);
    leave(*j);
}
static void with_args(Job *j, int a, std::string s, std::unique_ptr<int> p, Tracked t, int &ref)
{
    enter(*j);
    some_work(rnd(8));
    if (a != j->id || s != "argument number " + std::to_string(j->id) || !p || *p != j->id + 1 || t.v != j->id + 2 || !t.mem || *t.mem != t.v) sim_fail("wrong-arguments", "thread %d got other arguments than it was given", j->id);
    ref = 77;
    leave(*j);
}
struct Object { Job *j; void run(int x) { enter(*j); if (x != 5) sim_fail("wrong-arguments", "a member function got another argument"); some_work(rnd(8)); leave(*j); } };

static thread_attributes attributes(Job &j)
{
    static const char *const names[] = {"t", "", "exactly15chars.", "a name that is far too long for a thread"};
    const char *name = names[rnd(4)];
    j.stack = one_of<uint32_t>({0, 0, 1, 65536, 1u << 20});
    const auto mask = chance(50) ? oqpi::all_cores : oqpi::core_affinity(rng(1, 3));
    j.cores = mask == oqpi::all_cores ? every_core() : mask & every_core();
    j.prio = rnd(6);
    { QUIET; j.name = name; j.named = true; }
    return thread_attributes(name, j.stack, mask, oqpi::thread_priority(j.prio));
}
static T make(Job &j)
{
    switch (rnd(5)) {
    case 0: { QUIET; j.name = "named"; j.named = true; j.cores = every_core(); j.prio = 2; } return T("named", plain, &j);
    case 1: { Tracked cap(j.id); return T(attributes(j), [&j, cap] { enter(j); if (cap.v != j.id || *cap.mem != j.id) sim_fail("wrong-arguments", "a capture changed"); some_work(rnd(8)); j.self = oqpi::this_thread::get_id(); leave(j); }); }
    case 2: { Object o{&j}; return T(attributes(j), &Object::run, o, 5); }
    case 3: { std::string s = "argument number " + std::to_string(j.id); return T(attributes(j), with_args, &j, j.id, s, std::make_unique<int>(j.id + 1), Tracked(j.id + 2), std::ref(j.cell[1])); }
    default: return T(attributes(j), plain, &j);
    }
}
static void after_join(Job &j)
{
    { QUIET; j.joined = true; if (j.starts != 1 || j.ends != 1) sim_fail("join-early", "join returned but the function of thread %d was started %d and finished %d time(s)", j.id, j.starts, j.ends); }
    if (*j.cell != 1000 + j.id) sim_fail("effects-not-visible", "after join the write of thread %d is not there", j.id);
}

static void client()
{
    struct Held { T t; Job *j; };
    std::vector<Held> held;
    auto finish = [&](Held &h) {
        if (!h.j->created) {
            if (h.t.joinable()) sim_fail("joinable-without-thread", "a thread object whose thread could not be started is joinable");
            if (chance(30)) h.t.join();
            return;
        }
        if (!h.t.joinable()) sim_fail("not-joinable", "the thread object of a running thread is not joinable");
        auto lives = [j = h.j] { QUIET; return !refusing && j->starts && !j->ends && !j->changed; };
        if (chance(20)) {
            const int p = rnd(6);
            h.t.setPriority(oqpi::thread_priority(p));
            if (chance(50) && rtprio == 99 && lives()) { const int q = int(h.t.getPriority()); if (lives() && p != q) sim_fail("priority", "a thread's priority was set to %d and reads %d", p, q); }
        }
        if (chance(20)) (void)h.t.getPriority();
        if (chance(20)) {
            const int c = rnd(2);
            h.t.setCoreAffinity(c);
            if (chance(50) && lives()) { const auto a = h.t.getCoreAffinityMask(); if (lives() && a != (1u << c)) sim_fail("affinity", "a thread was bound to core %d and tells the cores %lx", c, long(a)); }
        }
        if (chance(20)) (void)h.t.getCoreAffinityMask();
        const auto id = h.t.getId();
        if (id == T::id() || !is_of(h.t, id)) sim_fail("thread-id", "the object of a running thread has no id");
        if (chance(10)) {
            // it ends at the next system call it may be cancelled in, or on its own; either way nobody joins it
            { QUIET; h.j->terminated = true; }
            h.t.terminate();
            sim_probe("terminated");
        }
        else if (chance(15)) { h.t.detach(); QUIET; h.j->detached = true; sim_probe("detached"); }
        else { h.t.join(); after_join(*h.j); if (h.j->self && h.j->self != id) sim_fail("thread-id", "a thread says it has another id than its object does"); }
        if (h.t.joinable()) sim_fail("joinable-after-join", "a thread object is still joinable after join or detach");
        if (chance(10)) h.t.join();
        if (chance(5)) h.t.terminate();
        if (chance(5)) h.t.detach();
    };
    for (int k = rng(1, 4); k > 0; --k) {
        Job *j;
        { QUIET; j = new Job; j->id = int(jobs->size()); j->made_by = sim_self(); jobs->push_back(j); }
        j->cell = new int[2]();
        const uint64_t refused = sim_fault_count(SIM_F_THREAD_CREATE);
        T t = make(*j);
        // whether this one was refused: only one thread creates threads when that can happen
        j->created = t.joinable();
        { QUIET; if (sim_fault_count(SIM_F_THREAD_CREATE) == refused && !j->created) sim_fail("not-joinable", "the thread was started but its object is not joinable"); }
        if (!j->created) sim_probe("thread refused");
        // its attributes, as long as nobody changed them and it still runs
        auto lives = [j] { QUIET; return j->created && !refusing && j->starts && !j->ends && !j->changed; };
        { QUIET; if (lives() && sim_thread_affinity(j->tid) != j->cores) sim_fail("affinity", "thread %d was created for the cores %lx but runs on %lx", j->id, long(j->cores), long(sim_thread_affinity(j->tid))); }
        if (lives()) { const auto a = t.getCoreAffinityMask(); if (lives() && a != uint32_t(j->cores)) sim_fail("affinity", "thread %d was created for the cores %lx but tells %lx", j->id, long(j->cores), long(a)); }
        { QUIET; if (lives() && sim_thread_affinity(j->tid) != j->cores) sim_fail("affinity", "thread %d was created for the cores %lx and asked for them, but now runs on %lx", j->id, long(j->cores), long(sim_thread_affinity(j->tid))); }
        if (rtprio == 99 && lives()) { const auto p = int(t.getPriority()); if (lives() && p != j->prio) sim_fail("priority", "thread %d was created with priority %d and tells %d", j->id, j->prio, p); else sim_probe("priority granted"); }
        switch (rnd(4)) {
        case 0: {                                           // through another object
            T u(std::move(t));
            if (t.joinable()) sim_fail("moved-from", "a moved-from thread object is joinable");
            if (u.joinable() != j->created) sim_fail("moved-to", "moving a thread object lost the thread");
            held.push_back({std::move(u), j});
            break;
        }
        case 1: {                                           // onto an empty one
            T u;
            u = std::move(t);
            if (t.joinable()) sim_fail("moved-from", "a moved-from thread object is joinable");
            if (u.joinable() != j->created) sim_fail("moved-to", "moving a thread object lost the thread");
            held.push_back({std::move(u), j});
            break;
        }
        default: held.push_back({std::move(t), j});
        }
        if (chance(30)) { finish(held.back()); held.pop_back(); }
    }
    while (!held.empty()) {
        const int i = rnd(int(held.size()));
        std::swap(held[i], held.back());
        finish(held.back());
        held.pop_back();
    }
    // detached threads too
    for (uint64_t wait = 1000;; wait *= 2) { bool all = true; { QUIET; for (Job *j : *jobs) if (j->made_by == sim_self() && j->created && !j->terminated && !j->ends) all = false; } if (all) break; sim_sleep(wait); }
}

// Who joins itself is told so and goes on; the object stays what it was.
static void self_join()
{
    T t;
    std::atomic<int> go{0};
    int *cell = new int[2]();
    Job *j;
    { QUIET; j = new Job; j->id = int(jobs->size()); j->made_by = sim_self(); j->cell = cell; jobs->push_back(j); }
    t = T(attributes(*j), [&] {
        enter(*j);
        while (!go.load()) sim_sleep(1000);
        t.join();
        sim_probe("joined itself");
        go.store(2);
        leave(*j);
    });
    j->created = t.joinable();
    go.store(1);
    if (!j->created) return;
    while (go.load() != 2) sim_sleep(1000);                // nobody else uses the object meanwhile
    t.join();
    after_join(*j);
    if (t.joinable()) sim_fail("joinable-after-join", "a thread object is still joinable after join");
}

static void scenario()
{
    { QUIET; jobs = new std::vector<Job *>; captures = 0; }
    sim_set_cores(cores = one_of({2, 8, 40, 64}));
    sim_set_rtprio(rtprio = one_of({0, 0, 1, 50, 99}));
    const bool refuse = chance(50);
    if (refuse) sim_fault_enable(SIM_F_THREAD_CREATE, one_of({200, 600}), rng(1, 6));
    if ((refusing = chance(50))) sim_fault_enable(SIM_F_THREAD_ATTR, one_of({200, 700}), rng(1, 30));
    if (chance(4)) self_join();
    if (refuse || chance(50)) client();
    else { std::vector<Client> cs; for (int i = rng(2, 3); i > 0; --i) cs.push_back(spawn("client", client)); join_all(cs); }
    sim_rest();
    bool terminated = false;
    for (Job *j : *jobs) {
        { QUIET;
          if (j->created && (j->terminated ? j->starts > 1 || j->ends > 1 : j->starts != 1 || j->ends != 1)) sim_fail("not-run", "thread %d was started but its function was called %d time(s)", j->id, j->starts);
          terminated |= j->terminated;
          if (!j->created && j->starts) sim_fail("run-without-thread", "the function of thread %d ran although its object says it could not be started", j->id); }
        if (WINDOWS && j->terminated) continue;
        if (j->detached || j->terminated) j->over.load();
        delete[] j->cell;
    }
    if (sim_live_threads()) sim_fail("thread-left", "%d thread(s) are still alive", sim_live_threads());
    if (int n = sim_zombie_threads()) sim_fail("thread-left", "%d thread(s) are over but will never be released", n);
    if (sim_live_attrs()) sim_fail("attributes-left", "%d pthread_attr_t were initialised and not destroyed", sim_live_attrs());
    if (WINDOWS && terminated) { if (int n = sim_win_handles(0)) sim_fail("handles", "%d handle(s) are still open", n); return; }          // without unwinding anything
    if (captures) sim_fail("arguments-left", "%d copies of arguments are still alive", captures);
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c21_thread", scenario); }
