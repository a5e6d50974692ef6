// C27: moving a synchronisation object transfers it, leaking nothing.
#include "sync.hpp"

static const int NAMES = 2, SLOTS = 4;
static const char *const NAME[NAMES] = {"n27", "n27-other"};
static const char *const OPTION_NAME[] = {"create", "open", "open or create"};
static const sync_object_creation_options OPTION[] = {CREATE, OPEN, EITHER};

enum { COUNTER, AUTO, MANUAL, MUTEX };
// One uniform face for every kind: how to make it, put a token in, take one out.
template <typename O, int K, bool Global> struct Face {
    using obj = O;
    static const int kind = K;
    static const bool global = Global;
    static O named(int name, int opt, int init, int max = 10)
    {
        if (WINDOWS) max = 1000;            // more are refused there
        if constexpr (!Global) { (void)name; (void)opt; return local(init, max); }
        else if constexpr (K == COUNTER) return O(NAME[name], OPTION[opt], init, max);
        else if constexpr (K == MUTEX) return O(NAME[name], OPTION[opt], init == 0);
        else return O(NAME[name], OPTION[opt]);
    }
    static O local(int init, int max = 10)
    {
        if (WINDOWS) max = 1000;
        if constexpr (Global) { (void)init; return named(0, 2, init); }
        else if constexpr (K == COUNTER) return O(init, max);
        else { (void)init; return O(); }
    }
    static int initial() { return K == COUNTER ? rnd(3) : K == MUTEX ? WINDOWS ? 1 : rnd(2) : 0; }
    static void post(O &o)
    {
        if constexpr (K == COUNTER) { if (chance(50)) o.notifyOne(); else o.notify(1); }
        else if constexpr (K == MUTEX) o.unlock();
        else o.notify();
    }
    static bool take(O &o)
    {
        if constexpr (K == COUNTER) return chance(50) ? o.tryWait() : o.waitFor(std::chrono::nanoseconds(0));
        else if constexpr (K == MUTEX) return chance(50) ? o.tryLock() : o.tryLockFor(std::chrono::nanoseconds(0));
        else return o.waitFor(std::chrono::nanoseconds(0));
    }
    static void wait(O &o)
    {
        bool r;
        if constexpr (K == MUTEX) r = o.lock(); else r = o.wait();
        if (!r) sim_fail("wait-failed", "a wait on a valid object failed");
    }
    static std::string name(const O &o) { if constexpr (Global) return o.getName(); else { (void)o; return ""; } }
};

// What should be the case.
struct Obj { int tokens = 0; int name = -1; int kernel = 0; };          // the object underneath
struct Held { bool valid = false, owner = false; int obj = -1, max = 10; };       // what a slot holds
static std::vector<Obj> *objs;
static int bound[NAMES];                                               // object behind each name, or -1

template <typename F> struct Moves {
    using T = typename F::obj;
    T *slot[SLOTS] = {};
    Held held[SLOTS];

    int fresh(int name, int init) { QUIET; objs->push_back({init, name, 0}); return int(objs->size()) - 1; }
    void release(Held &h)
    {
        if (!WINDOWS && h.valid && h.owner && (*objs)[h.obj].name >= 0) bound[(*objs)[h.obj].name] = -1;
        h = Held();
    }
    // Makes a new object and says what it should hold.
    T make(Held &h)
    {
        const int init = F::initial(), max = rng(3, 6);
        h = Held();
        h.max = max;
        if (!F::global) {
            h.obj = fresh(-1, init); h.valid = true; h.owner = true;
            return F::local(init, max);
        }
        const int name = chance(30), opt = rnd(3);
        const bool exists = bound[name] >= 0;
        if (exists ? opt == 0 : opt == 1) { sim_probe(OPTION_NAME[opt]); return F::named(name, opt, init); }
        h.valid = true;
        if (exists) h.obj = bound[name];
        else { h.owner = true; h.obj = fresh(name, init); bound[name] = h.obj; }
        T t = F::named(name, opt, init, max);
        if (!exists && t.isValid()) { int k = sim_sem_object(t.getNativeHandle()); QUIET; (*objs)[h.obj].kernel = k; }
        return t;
    }
    void check(const char *after)
    {
        int refs = 0;
        if (WINDOWS)                        // an object and its name live until the last handle is closed
            for (int &b : bound) {
                bool there = false;
                for (int i = 0; i < SLOTS; ++i) if (slot[i] && held[i].valid && held[i].obj == b) there = true;
                if (!there) b = -1;
            }
        for (int i = 0; i < SLOTS; ++i) {
            if (!slot[i]) continue;
            if (slot[i]->isValid() != held[i].valid) sim_fail("validity", "after %s, slot %d is %s", after, i, held[i].valid ? "invalid although it should hold an object" : "valid although its object is gone or elsewhere");
            if (!held[i].valid) continue;
            const Obj &o = (*objs)[held[i].obj];
            if (F::global) {
                ++refs;
                if (sim_sem_object(slot[i]->getNativeHandle()) != o.kernel) sim_fail("wrong-object", "after %s, slot %d has another object behind it", after, i);
                if (F::name(*slot[i]) != NAME[o.name]) sim_fail("wrong-name", "after %s, slot %d calls itself \"%s\" instead of %s", after, i, F::name(*slot[i]).c_str(), NAME[o.name]);
            } else {
                for (int j = 0; j < i; ++j) if (slot[j] && held[j].valid && slot[j]->getNativeHandle() == slot[i]->getNativeHandle()) sim_fail("shared", "after %s, slots %d and %d have the same object", after, j, i);
            }
        }
        if (sim_handle_refs(0) != refs) sim_fail("handles", "after %s, %d handle(s) are open but %d valid object(s) exist", after, sim_handle_refs(0), refs);
        for (int n = 0; n < NAMES; ++n) if (sim_name_exists(NAME[n]) != (bound[n] >= 0)) sim_fail("names", "after %s, the name %s %s", after, NAME[n], bound[n] >= 0 ? "is gone although its creator lives" : "still exists although its creator is gone");
    }
    void use(T &t, Obj &o, int times, int max = 10)
    {
        while (times-- > 0) {
            if (WINDOWS && F::kind == MUTEX) {
                if (!F::take(t)) sim_fail("tokens", "a mutex nobody holds cannot be locked");
                F::post(t);
                continue;
            }
            if constexpr (F::kind == COUNTER) if (!WINDOWS && chance(15)) { t.notifyAll(); o.tokens += max; continue; }
            if (chance(50)) {
                if (F::kind == MUTEX && o.tokens) continue;
                F::post(t);
                if (WINDOWS && F::kind == AUTO) o.tokens = 1; else ++o.tokens;
            } else {
                const bool got = F::take(t);
                if (got != (o.tokens > 0)) sim_fail("tokens", "taking a token %s but there should be %d", got ? "succeeded" : "failed", o.tokens);
                if (got && F::kind != MANUAL) --o.tokens;
            }
        }
        if constexpr (F::kind == MANUAL) if (chance(20)) { t.reset(); o.tokens = 0; }
    }
    void step()
    {
        const int a = rnd(SLOTS), b = rnd(SLOTS);
        switch (rnd(9)) {
        case 0: case 1: {                      // a new object, assigned or constructed
            Held h;
            T t = make(h);
            if (slot[a]) { if (held[a].valid) sim_probe("assigned over a valid object"); *slot[a] = std::move(t); release(held[a]); }
            else slot[a] = new T(std::move(t));
            held[a] = h;
            if (t.isValid()) sim_fail("validity", "a temporary is still valid after being moved from");
            check("assigning a new object");
            break;
        }
        case 2: case 3: case 4:                // assign one to another, perhaps to itself
            if (!slot[a] || !slot[b]) return step();
            if (a == b) { T &same = *slot[b]; *slot[a] = std::move(same); sim_probe("assigned to itself"); check("self assignment"); break; }
            *slot[a] = std::move(*slot[b]);
            sim_probe(held[a].valid ? held[b].valid ? "valid over valid" : "moved-from over valid" : held[b].valid ? "valid over moved-from" : "moved-from over moved-from");
            release(held[a]);
            held[a] = held[b]; held[b] = Held();
            check("a move assignment");
            break;
        case 5:                                // construct one from another
            if (!slot[b]) return step();
            if (a == b) { T t(std::move(*slot[b])); *slot[b] = std::move(t); check("moving out and back"); break; }
            if (slot[a]) { delete slot[a]; release(held[a]); }
            slot[a] = new T(std::move(*slot[b]));
            held[a] = held[b]; held[b] = Held();
            check("a move construction");
            break;
        case 6:
            if (!slot[a] || !slot[b] || a == b) return;
            std::swap(*slot[a], *slot[b]);
            std::swap(held[a], held[b]);
            check("a swap");
            break;
        case 7:
            if (!slot[a]) return;
            delete slot[a]; slot[a] = nullptr;
            release(held[a]);
            check("a destruction");
            break;
        default: other();
        }
        for (int i = 0; i < SLOTS; ++i) if (slot[i] && held[i].valid && chance(30)) use(*slot[i], (*objs)[held[i].obj], rng(1, 2), held[i].max);
    }
    // Another process opens a name and uses it.
    void other()
    {
        if (!F::global) return;
        const int name = chance(30), proc = rng(1, 2);
        auto *self = this;
        join(spawn("other process", [=] {
            T own = F::named(name, 1, 0);
            if (own.isValid() != (bound[name] >= 0)) sim_fail("names", "another process %s the name %s", own.isValid() ? "could open" : "could not open", NAME[name]);
            if (own.isValid()) { sim_probe("used by another process"); self->use(own, (*objs)[bound[name]], rng(1, 2)); }
        }, proc));
    }
    // Others wait for an object while it moves from slot to slot.
    void waiters()
    {
        int at = -1;
        for (int i = 0; i < SLOTS; ++i) if (slot[i] && held[i].valid && (at < 0 || chance(50))) at = i;
        if (at < 0) return;
        const int obj = held[at].obj, n = rng(1, 3);
        Obj &o = (*objs)[obj];
        if (!F::global || bound[o.name] != obj) return;      // its name may be gone
        while (o.tokens && F::kind != MANUAL) { F::take(*slot[at]); --o.tokens; }
        if constexpr (F::kind == MANUAL) { slot[at]->reset(); o.tokens = 0; }
        // waiters first open, then everything moves
        int &opened = oracle<int>(0), &through = oracle<int>(0);
        std::vector<Client> cs;
        for (int i = 0; i < n; ++i) cs.push_back(spawn("waiter", [&opened, &through, name = o.name, kernel = o.kernel] {
            T own = F::named(name, 1, 0);
            if (!own.isValid() || sim_sem_object(own.getNativeHandle()) != kernel) sim_fail("names", "another process could not open the object");
            { QUIET; ++opened; }
            sim_unpark(&opened);
            F::wait(own);
            { QUIET; ++through; }
            if (F::kind == MUTEX) F::post(own);
        }, 1 + i % 3));
        { auto all = [&] { QUIET; return opened == n; }; while (!all()) sim_park(&opened); }
        for (int k = rng(1, 4); k > 0; --k) {
            const int to = rnd(SLOTS);
            if (to == at) continue;
            if (slot[to]) { *slot[to] = std::move(*slot[at]); release(held[to]); } else slot[to] = new T(std::move(*slot[at]));
            held[to] = held[at]; held[at] = Held();
            at = to;
            sim_point();
        }
        { QUIET; if (through) sim_fail("tokens", "%d waiter(s) got a token from nowhere", through); }
        if (WINDOWS && F::kind == AUTO) {      // signals are not counted there
            auto over = [&] { QUIET; return through == n; };
            while (!over()) { F::post(*slot[at]); sim_settle(); }
            F::take(*slot[at]);
        }
        else for (int i = 0; i < (F::kind == COUNTER || F::kind == AUTO ? n : 1); ++i) F::post(*slot[at]);
        join_all(cs);
        o.tokens = F::kind == MANUAL || F::kind == MUTEX ? 1 : 0;
        sim_probe("moved while others wait");
        check("moving an object others wait for");
    }
    void run()
    {
        for (int k = rng(3, 14); k > 0; --k) step();
        if (chance(60)) waiters();
        for (int k = rng(0, 4); k > 0; --k) step();
        for (int i = 0; i < SLOTS; ++i) if (slot[i]) { delete slot[i]; slot[i] = nullptr; release(held[i]); check("the last destructions"); }
        if (F::global) for (int p = 0; p < 4; ++p) if (sim_handle_refs(p)) sim_fail("handles", "every object is gone but process %d still has %d handle(s) open", p, sim_handle_refs(p));
    }
};

static void scenario()
{
    sim_race_detection(0);
    { QUIET; objs = new std::vector<Obj>; objs->reserve(128); bound[0] = bound[1] = -1; }
    if (chance(30)) sim_fault_enable(SIM_F_EINTR, 200, rng(1, 8));
    switch (rnd(8)) {
    case 0: { Moves<Face<oqpi::semaphore, COUNTER, false>> m; m.run(); break; }
    case 1: { Moves<Face<oqpi::auto_reset_event, AUTO, false>> m; m.run(); break; }
    case 2: { Moves<Face<oqpi::manual_reset_event, MANUAL, false>> m; m.run(); break; }
    case 3: { Moves<Face<oqpi::global_auto_reset_event, AUTO, true>> m; m.run(); break; }
    case 4: { Moves<Face<oqpi::global_manual_reset_event, MANUAL, true>> m; m.run(); break; }
    case 5: { Moves<Face<oqpi::global_mutex, MUTEX, true>> m; m.run(); break; }
    default: { Moves<Face<oqpi::global_semaphore, COUNTER, true>> m; m.run(); }
    }
    check_no_leak();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c27_move", scenario); }
