// C18: a name denotes one object while its creator lives.
#include "sync.hpp"
#include <array>

enum { MAKE, DROP, POST, TRY };
static const int NAMES = 2;
// pairs of names; the long ones differ in their last character
static const char *const NAMES_OF[][NAMES] = {
    {"n18", "n18-b"},
    {"n18", "N18"},
    {"n18.a", "n18.b"},
    {"a-name-with-sixteen-letters-1", "a-name-with-sixteen-letters-2"},
    {"a-somewhat-longer-name-of-an-object-that-two-processes-share.1", "a-somewhat-longer-name-of-an-object-that-two-processes-share.2"},
    {"a-name-that-is-close-to-the-longest-one-the-system-accepts------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------a",
     "a-name-that-is-close-to-the-longest-one-the-system-accepts------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------b"},
};
static const char *const *NAME;
static History *hist;
static bool open_faults;

// What the operating system's name space is after some operations.
struct Space {
    int bound[NAMES] = {};                       // object behind each name, 0: none
    int owner[NAMES] = {};                       // handle that created it
    std::vector<std::pair<int, int>> tokens;     // of each object made so far
    std::vector<std::pair<int, int>> open;       // Windows: handles and their objects; there an object and its name live until the last one is closed
    std::string key() const
    {
        std::string s((const char *)bound, sizeof bound);
        s.append((const char *)owner, sizeof owner);
        s.append((const char *)tokens.data(), tokens.size() * sizeof(tokens[0]));
        s.append((const char *)open.data(), open.size() * sizeof(open[0]));
        return s;
    }
    int *count(int obj) { for (auto &t : tokens) if (t.first == obj) return &t.second; return nullptr; }
};
// arg of an operation: name | option << 4 | handle << 8 | initial count << 16; res: object (MAKE), success (TRY); obj: object of POST and TRY
struct Info { int name, option, handle, init, obj; };
static std::vector<Info> *infos;
static bool binary;                              // a second token is not kept

static bool step(Space &s, const Op &o)
{
    const Info &i = (*infos)[o.arg];
    switch (o.kind) {
    case MAKE: {
        int &b = s.bound[i.name];
        if (o.ret == UINT64_MAX) {               // died inside: only matters if it created, which crashing processes never do
            if (WINDOWS && b) s.open.push_back({i.handle, b});
            return true;
        }
        if (!o.res) {
            if (WINDOWS && i.option == 0 && b) s.open.push_back({i.handle, b});        // until the "close" that follows
            if (open_faults) return true;
            if (i.option == 0) return b != 0;
            if (i.option == 1) return b == 0;
            return false;
        }
        if (WINDOWS) s.open.push_back({i.handle, o.res});
        if (b) return i.option != 0 && o.res == b;
        if (i.option == 1 || s.count(o.res)) return false;
        b = o.res; s.owner[i.name] = i.handle;
        s.tokens.push_back({o.res, i.init});
        return true;
    }
    case DROP:
        if (WINDOWS) {
            for (size_t k = 0; k < s.open.size(); ++k) {
                if (s.open[k].first != i.handle) continue;
                const int obj = s.open[k].second;
                s.open.erase(s.open.begin() + k);
                for (auto &h : s.open) if (h.second == obj) return true;
                for (int &b : s.bound) if (b == obj) b = 0;
                break;
            }
            return true;
        }
        if (i.obj && s.owner[i.name] == i.handle) { s.bound[i.name] = 0; s.owner[i.name] = 0; }
        return true;
    case POST: { int *c = s.count(i.obj); if (!c) return false; *c = binary ? 1 : *c + 1; return true; }
    default: {
        int *c = s.count(i.obj);
        if (!c) return false;
        if (o.ret == UINT64_MAX) { if (!*c) return false; --*c; return true; }
        if (o.res) { if (!*c) return false; --*c; return true; }
        return *c == 0;
    }
    }
}

static int begin(const char *what, int kind, int name, int option, int handle, int init, int obj)
{
    QUIET;
    infos->push_back({name, option, handle, init, obj});
    return hist->begin(what, kind, int(infos->size()) - 1);
}

static int handle_seq;
static std::vector<std::array<int, 3>> *in_proc;         // process, handle, index of the operation that made it
static const sync_object_creation_options OPTION[] = {CREATE, OPEN, EITHER};
static const char *const OPNAME[] = {"create", "open", "open_or_create"};

// The few things every kind of object can do here.
struct Sem {
    oqpi::global_semaphore o; static const int kind = 0;
    Sem(const char *n, sync_object_creation_options c, int init) : o(n, c, init, WINDOWS ? 100 : 5) {}
    void post() { if (chance(50)) o.notifyOne(); else o.notify(1); }
    bool take() { return chance(50) ? o.tryWait() : o.waitFor(std::chrono::nanoseconds(0)); }
    static int initial() { return rnd(3); }
};
struct Auto {
    oqpi::global_auto_reset_event o;
    Auto(const char *n, sync_object_creation_options c, int) : o(n, c) {}
    void post() { o.notify(); }
    bool take() { return o.waitFor(std::chrono::nanoseconds(0)); }
    static int initial() { return 0; }
};
struct Mutex {
    oqpi::global_mutex o; bool held = false;
    Mutex(const char *n, sync_object_creation_options c, int init) : o(n, c, init == 0) {}
    bool has_post() const { return held; }
    void post() { held = false; o.unlock(); }
    bool take() { held = o.tryLock(); return held; }
    static int initial() { return WINDOWS ? 1 : rnd(2); }        // there it would belong to the creator
};
template <typename T> bool can_post(T &) { return true; }
inline bool can_post(Mutex &m) { return m.held; }
template <typename T> bool can_take(T &) { return true; }
inline bool can_take(Mutex &m) { return !m.held; }

template <typename T> static void script(bool only_open, int proc)
{
    for (int k = rng(1, 2); k > 0; --k) {
        const int name = chance(25) ? 1 : 0, option = only_open ? 1 : rnd(3), init = T::initial();
        int h;
        { QUIET; h = ++handle_seq; }
        int i = begin(OPNAME[option], MAKE, name, option, h, init, 0);
        { QUIET; in_proc->push_back({proc, h, i}); }
        T *t = new T(NAME[name], OPTION[option], init);
        const int obj = t->o.isValid() ? sim_sem_object(t->o.getNativeHandle()) : 0;
        if (t->o.isValid() && !obj) sim_fail("invalid", "a named object claims to be valid but has no object of the system behind it");
        hist->end(i, obj);
        if (WINDOWS && !obj && option == 0) {        // creating fails by opening what there is and closing it again
            int j = begin("close", DROP, name, 0, h, 0, 0);
            QUIET;
            hist->ops[j].call = hist->ops[i].call; hist->ops[j].ret = hist->ops[i].ret; hist->ops[j].res = 1; hist->ops[j].after = i;
        }
        if (obj && t->o.getName() != NAME[name]) sim_fail("wrong-name", "the object calls itself %s", t->o.getName().c_str());
        for (int n = rnd(3); n > 0 && obj; --n) {
            if (chance(50) && can_post(*t)) { int j = begin("post", POST, name, 0, h, 0, obj); t->post(); hist->end(j, 1); }
            else if (can_take(*t)) { int j = begin("try", TRY, name, 0, h, 0, obj); hist->end(j, t->take()); }
            if (chance(15)) sim_sleep(rng(0, 3) * 1000);
        }
        if (can_post(*t) && !can_take(*t)) { int j = begin("unlock", POST, name, 0, h, 0, obj); t->post(); hist->end(j, 1); }
        int j = begin("release", DROP, name, 0, h, 0, obj);
        delete t;
        hist->end(j, 1);
    }
}

template <typename T> static void run()
{
    std::vector<Client> cs;
    const int actors = rng(2, 4);
    binary = WINDOWS && std::is_same<T, Auto>::value;
    // often one process keeps an object for as long as the others work
    T *server = nullptr;
    int server_obj = 0;
    if (chance(50)) {
        const int option = chance(50) ? 0 : 2, init = T::initial();
        ++handle_seq;
        int i = begin(OPNAME[option], MAKE, 0, option, handle_seq, init, 0);
        server = new T(NAME[0], OPTION[option], init);
        server_obj = server->o.isValid() ? sim_sem_object(server->o.getNativeHandle()) : 0;
        hist->end(i, server_obj);
    }
    const int server_handle = handle_seq;
    int doomed = 0;
    for (int i = 0; i < actors; ++i) {
        const bool only_open = chance(35);
        const int proc = only_open ? 10 + i : chance(25) ? 0 : 1 + i;        // some share the main process
        if (only_open && chance(70) && !(WINDOWS && std::is_same<T, Mutex>::value)) doomed = proc;
        cs.push_back(spawn("process", [only_open, proc] { script<T>(only_open, proc); }, proc));
    }
    if (doomed && chance(70)) {
        if (chance(60)) for (int n = 0; n < 60 && !sim_open_handles(doomed); ++n) sim_yield();
        for (int n = rnd(5) * rnd(5); n > 0; --n) sim_yield();
        const int live = sim_open_handles(doomed);
        const uint64_t from = sim_stamp();
        sim_kill_proc(doomed);
        if (WINDOWS) {                  // its handles are closed
            QUIET;
            for (auto &p : *in_proc) {
                if (p[0] != doomed) continue;
                const bool made = hist->ops[p[2]].ret != UINT64_MAX;
                int j = begin("killed", DROP, 0, 0, p[1], 0, 1);
                hist->ops[j].call = from;
                hist->ops[j].after = p[2];
                if (made) hist->end(j, 1);
            }
        }
        sim_probe(live ? "process killed with the object open" : "process killed");
    }
    join_all(cs);
    if (server) {
        int j = begin("release", DROP, 0, 0, server_handle, 0, server_obj);
        delete server;
        hist->end(j, 1);
    }
    {
        QUIET;
        for (auto &o : hist->ops) if (o.ret == UINT64_MAX) o.optional = true;
    }
    if (!linearizable(hist->ops, Space(), step, [](const Space &, const Op &) { return false; })) {
        std::string s;
        { QUIET; for (auto &o : hist->ops) { const Info &i = (*infos)[o.arg]; char b[96]; snprintf(b, sizeof b, " T%d:%s(n%d,h%d,o%d)=%d@%lu-%ld;", o.who, o.name, i.name, i.handle, i.obj, o.res, (unsigned long)o.call, o.ret == UINT64_MAX ? -1 : long(o.ret)); if (s.size() < 600) s += b; } }
        sim_fail("not-linearizable", "no order of these operations on a name space explains them:%s", s.c_str());
    }
    for (int i = 0; i < NAMES; ++i) if (auto *n = NAME[i]; sim_name_exists(n)) sim_fail("name-left", "every object was released but the name %s still exists", n);
    for (int p = 0; p < 20; ++p) if (sim_open_handles(p)) sim_fail("handle-left", "process %d still has %d handle(s) open", p, sim_open_handles(p));
    // the names are free again
    T a(NAME[0], CREATE, 0);
    if (!a.o.isValid() && !open_faults) sim_fail("name-taken", "a name nobody uses any more cannot be created");
}

#ifdef NDEBUG        // the other builds assert
static void odd_names()
{
    const int k = rnd(3);
    const std::string n = k == 0 ? WINDOWS ? "a\\b" : "a/b" : k == 1 ? WINDOWS ? "\\a" : "a/" : std::string(300, 'x');
    { oqpi::global_semaphore s(n, one_of({CREATE, OPEN, EITHER}), 1, 1); if (s.isValid()) sim_fail("invalid", "an object with a name the system refuses claims to be valid"); }
}
#else
static void odd_names() {}
#endif

static void scenario()
{
    sim_race_detection(0);
    hist = &History::make(256);
    NAME = NAMES_OF[chance(50) ? 0 : rnd(int(sizeof NAMES_OF / sizeof *NAMES_OF))];
    { QUIET; infos = new std::vector<Info>; infos->reserve(256); handle_seq = 0; in_proc = new std::vector<std::array<int, 3>>; in_proc->reserve(64); }
    open_faults = chance(25);
    if (open_faults) sim_fault_enable(SIM_F_SEM_OPEN, one_of({100, 400}), rng(1, 6));
    switch (rnd(4)) {
    case 0: run<Auto>(); break;
    case 1: run<Mutex>(); break;
    default: run<Sem>();
    }
    for (int p = 0; p < 20; ++p) if (sim_open_handles(p)) sim_fail("handle-left", "process %d still has %d handle(s) open", p, sim_open_handles(p));
    if (sim_name_exists(NAME[0])) sim_fail("name-left", "every object was released but a name still exists");
    if (chance(10)) odd_names();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c18_names", scenario); }
