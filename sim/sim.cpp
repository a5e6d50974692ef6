// Deterministic simulation runtime.
//
// The code under test is compiled unmodified with clang's ThreadSanitizer *instrumentation pass*, but is linked
// against this runtime instead of TSan's: every atomic operation and every plain memory access calls in here.
// POSIX threads, mutexes, condition variables, semaphores (named ones too), clocks, sleeps and the allocator are
// replaced by symbol interposition. Simulated threads are stackful fibers; exactly one OS thread exists, and a
// seeded scheduler decides at every one of those points who runs next, how time moves and which fault fires.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <algorithm>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <linux/futex.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define HOT __attribute__((hot))

extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { extern "C" void *__cxa_get_globals() noexcept; }

// Bounds of the writable data of the executable (found through its program headers)
static uintptr_t g_data_lo, g_data_hi, g_exe_base, g_exe_size;
static std::vector<char> *g_data_snapshot;

// ------------------------------------------------------------------------------------------------ basics
static constexpr int      MAXF       = 64;
static constexpr size_t   STACK_SZ   = 192 * 1024;
static constexpr size_t   GUARD      = 4096;
static constexpr uintptr_t ARENA     = 0x200000000000ull;
static constexpr size_t   ARENA_SZ   = 96ull << 20;
static constexpr uintptr_t STACKS    = 0x210000000000ull;
static constexpr size_t   STACKS_SZ  = MAXF * STACK_SZ;
static constexpr uintptr_t ARENA2    = 0x220000000000ull;   // oracle memory, never freed within a run
static constexpr size_t   ARENA2_SZ  = 256ull << 20;
static constexpr uintptr_t HANDLES   = 0x230000000000ull;   // addresses handed out by sem_open
static constexpr size_t   HANDLES_SZ = 1ull << 20;

struct Slot { uint64_t meta; uint32_t pc; uint32_t pad; };
struct Shadow { Slot s[4]; };
static Shadow  *g_sh_arena, *g_sh_stack, *g_sh_data;
static uint8_t *g_state;                 // arena granule state: 0 never, 1 live, 2 freed

struct VC {
    uint32_t c[MAXF];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC &o) { for (int i = 0; i < MAXF; ++i) c[i] = c[i] > o.c[i] ? c[i] : o.c[i]; }
};

static inline uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    uint64_t next() { return splitmix(s); }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * n >> 32) : 0; }
};

enum State { F_FREE, F_RUN, F_BLOCKED, F_DONE, F_DEAD };
enum Wake { W_WOKEN, W_TIMEOUT, W_INTR };

struct Fiber {
    int       id;
    State     st;
    void     *sp;
    int       proc;
    bool      is_thread;                 // made by pthread_create
    bool      detached, joined, cancel;
    int       joiner;
    uint64_t  handle;                    // pthread_t
    void   *(*fn)(void *);
    void    (*cfn)(void *);
    void     *arg, *ret;
    char      name[24];
    VC        vc, acq_pending, rel_fence;
    bool      has_acq, has_rel;
    // blocking
    uintptr_t key;
    const char *what;
    int64_t   deadline; int clk;         // deadline < 0: none
    bool      intr, cancellable; uint64_t intr_at;
    Wake      why;
    int       quiet;
    int       alloc_window;
    int       saved_errno;
    uint32_t  werr;                      // GetLastError
    void     *eh[2];
    std::vector<char> *tls;
    int64_t   prio;                      // PCT
    uintptr_t stack_low;                 // lowest address seen
    bool      used;
    // what the kernel knows about the thread
    uint64_t  affinity; int policy, rtprio; size_t stack_size;
};

static Fiber   g_f[MAXF];
static Fiber  *cur;                      // running fiber or nullptr (driver context)
static void   *g_main_sp;
static int     g_nf;
static bool    g_rt;                     // inside the runtime (no hooks)
static uint64_t g_handle_seq;

// ---- run configuration and traces
struct Dec { uint32_t idx; uint16_t val; };
static bool     g_replay, g_trace;
static uint64_t g_seed;
static Rng      r_work, r_sched, r_fault;
static std::vector<uint32_t> *t_choices; static size_t t_cpos;
static std::vector<Dec>      *t_sched;   static size_t t_spos;
static std::vector<Dec>      *t_faults;  static size_t t_fpos;
static uint32_t g_dec, g_fsite;
static uint64_t g_step, g_stamp, g_adv, g_hard, g_samerun, g_hash, g_switches;
static int64_t  g_now, g_real_off, g_next_deadline;
static bool     g_fine, g_fine_allowed, g_race_on, g_leftover_ok;
static int      g_cores;
static int      g_rtprio;                // RLIMIT_RTPRIO
static int      g_attrs;                 // pthread_attr_t initialised and not destroyed
static int      f_permille[SIM_F_COUNT], f_budget[SIM_F_COUNT];
static uint64_t f_fired[SIM_F_COUNT], f_total[SIM_F_COUNT];
static int      g_finegrain_mode;        // from seed
static int      g_reuse_forced;          // the scenario asked for it
static int      g_reuse_mode;            // from seed: freed blocks are handed out again at once, as a real allocator would
static std::vector<uint32_t> *g_freed;   // by size / 8

// ---- strategies
enum Strat { ST_RANDOM, ST_PCT, ST_VICTIM, ST_RR };
static int      g_strat, g_pct_left; static uint32_t g_p; static int64_t g_prio_low;
static std::vector<uint64_t> *g_pct_points;
static int      g_victim; static uint64_t g_victim_until, g_quantum;

// ---- verdict
static char     v_cls[64], v_msg[1024]; static bool v_set; static bool g_discard;
static uintptr_t v_bt[16]; static int v_nbt;
static const char *g_scn_name; static sim_scenario_fn g_scn;

// ---- probes
struct Probe { char name[48]; uint64_t n; };
static Probe g_probes[96]; static int g_nprobes;

extern "C" void sim_ctx_switch(void **save, void *to);
__asm__(
    ".text\n.globl sim_ctx_switch\n.hidden sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
    "  pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    "  movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    "  popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
    ".size sim_ctx_switch,.-sim_ctx_switch\n");

// ------------------------------------------------------------------------------------------------ real functions
template <typename F> static F real(const char *n)
{
    void *p = dlsym(RTLD_NEXT, n);
    return reinterpret_cast<F>(p);
}
static int64_t wall_ns()
{
    static auto f = real<int (*)(clockid_t, timespec *)>("clock_gettime");
    timespec t; f(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}

static inline bool active() { return cur && !g_rt && !cur->quiet; }
struct Rt { bool old; Rt() : old(g_rt) { g_rt = true; } ~Rt() { g_rt = old; } };

// ------------------------------------------------------------------------------------------------ TLS of the executable
static size_t g_tls_size, g_tls_filesz; static const void *g_tls_init; static void *g_tls;

static int phdr_cb(dl_phdr_info *i, size_t, void *)
{
    g_exe_base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_TLS) {
            g_tls_size = p.p_memsz; g_tls_filesz = p.p_filesz;
            g_tls_init = (void *)(i->dlpi_addr + p.p_vaddr);
            g_tls = i->dlpi_tls_data;
        }
        if (p.p_type == PT_LOAD && p.p_vaddr + p.p_memsz > g_exe_size) g_exe_size = p.p_vaddr + p.p_memsz;
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            g_data_lo = i->dlpi_addr + p.p_vaddr;
            g_data_hi = g_data_lo + p.p_memsz;
        }
    }
    uintptr_t relro_end = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relro_end = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    relro_end = (relro_end + 4095) & ~4095ull;
    if (relro_end > g_data_lo) g_data_lo = relro_end;
    return 1;   // the executable comes first
}

// ------------------------------------------------------------------------------------------------ trace output
static void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void tr(const char *fmt, ...)
{
    if (!g_trace) return;
    char b[512]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char h[80]; int m = snprintf(h, sizeof h, "[%6lu] T%-2d %-14s ", (unsigned long)g_step, cur ? cur->id : -1, cur ? cur->name : "-");
    fwrite(h, 1, m, stdout); fwrite(b, 1, std::min<int>(n, sizeof b - 1), stdout); fputc('\n', stdout);
}

static uintptr_t objid(uintptr_t a)
{
    if (a >= ARENA && a < ARENA + ARENA_SZ) return a - ARENA;
    if (a >= STACKS && a < STACKS + STACKS_SZ) return (1ull << 40) + (a - STACKS);
    if (a >= HANDLES && a < HANDLES + HANDLES_SZ) return (2ull << 40) + (a - HANDLES);
    if (a >= g_data_lo && a < g_data_hi) return (3ull << 40) + (a - g_data_lo);
    return 7ull << 40;
}
static inline void hash_op(uint32_t op, uintptr_t a)
{
    uint64_t h = g_hash ^ (uint64_t(cur->id) << 56) ^ (uint64_t(op) << 48) ^ objid(a);
    h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    g_hash = h + g_hash * 3;
}

// ------------------------------------------------------------------------------------------------ failing
static void walk_bt(uintptr_t rbp, uintptr_t first)
{
    v_nbt = 0;
    if (first) v_bt[v_nbt++] = first;
    uintptr_t lo = STACKS, hi = STACKS + STACKS_SZ;
    while (v_nbt < 12 && rbp >= lo && rbp + 16 <= hi && !(rbp & 7)) {
        uintptr_t ret = ((uintptr_t *)rbp)[1], nx = ((uintptr_t *)rbp)[0];
        if (!ret) break;
        v_bt[v_nbt++] = ret;
        if (nx <= rbp) break;
        rbp = nx;
    }
}
static void leave_run() __attribute__((noreturn));
static void leave_run()
{
    g_rt = true;
    void *dummy;
    if (!cur) _exit(99);
    cur = nullptr;
    sim_ctx_switch(&dummy, g_main_sp);
    __builtin_unreachable();
}
static void vfail(const char *cls, const char *fmt, va_list ap)
{
    g_rt = true;
    if (!v_set) {
        v_set = true;
        snprintf(v_cls, sizeof v_cls, "%s", cls);
        vsnprintf(v_msg, sizeof v_msg, fmt, ap);
        for (char *p = v_msg; *p; ++p) if (*p == '\n') *p = ' ';
        walk_bt((uintptr_t)__builtin_frame_address(0), 0);
    }
}
EXPORT void sim_fail(const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); va_end(ap);
    leave_run();
}
EXPORT void sim_discard(void) { g_discard = true; leave_run(); }
EXPORT void sim_note(const char *fmt, ...)
{
    if (!g_trace) return;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    Rt r; tr("note   %s", b);
}

// ------------------------------------------------------------------------------------------------ shadow / race detection
// meta: mask 8 | fiber 6 | write 1 | atomic 1 | clock 32 (bit 16..47) | used 1 (bit 63)
static inline uint64_t mk(uint32_t mask, int f, bool w, bool a, uint32_t clk)
{
    return uint64_t(mask) | (uint64_t(f) << 8) | (uint64_t(w) << 14) | (uint64_t(a) << 15) | (uint64_t(clk) << 16) | (1ull << 63);
}
static uintptr_t t_data_lo, t_data_hi;   // touched range of the data shadow
static uintptr_t g_brk, g_brk2;

static const char *region(uintptr_t a)
{
    if (a >= ARENA && a < ARENA + ARENA_SZ) return "heap";
    if (a >= STACKS && a < STACKS + STACKS_SZ) return "stack";
    return "global";
}

struct Alloc { uintptr_t p; size_t n; int fiber; bool live; bool quiet; uintptr_t bt[6]; };
static std::vector<Alloc> *g_allocs;
static size_t g_live;

static int alloc_of(uintptr_t a)
{
    for (size_t i = 0; i < g_allocs->size(); ++i)
        if (a + 16 >= (*g_allocs)[i].p && a < (*g_allocs)[i].p + (*g_allocs)[i].n + 16) return int(i);
    return -1;
}

static HOT inline void shadow_granule(Shadow *sh, uintptr_t gaddr, uint32_t mask, bool w, bool at, uintptr_t pc)
{
    Fiber *f = cur;
    const uint64_t me = mk(mask, f->id, w, at, f->vc.c[f->id]);
    int put = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t m = sh->s[i].meta;
        if (!m) { if (put < 0) put = i; continue; }
        if (m == me) return;
        if (!(m & mask & 0xff)) continue;
        int of = int((m >> 8) & 63);
        if (of == f->id) {
            // Same thread: replace if this access is at least as strong and covers it
            bool ow = (m >> 14) & 1, oa = (m >> 15) & 1;
            if ((m & 0xff & ~uint64_t(mask)) == 0 && (w || !ow) && (!at || oa) && put < 0) put = i;
            else if ((m & 0xff & ~uint64_t(mask)) == 0 && (w || !ow) && (!at || oa)) sh->s[i].meta = 0;
            continue;
        }
        bool ow = (m >> 14) & 1, oa = (m >> 15) & 1;
        uint32_t oc = uint32_t(m >> 16);
        bool ordered = oc <= f->vc.c[of];
        if (ordered) {
            // Ordered before us: drop it when a write of ours covers it
            if (w && !at && (m & 0xff & ~uint64_t(mask)) == 0) { if (put < 0) put = i; else sh->s[i].meta = 0; }
            continue;
        }
        if (!(w || ow) || (at && oa)) continue;
        if (g_race_on) {
            if (g_trace) printf("data race at %s granule %lx mask %02x/%02x (alloc %d)\n", region(gaddr), (unsigned long)objid(gaddr), mask, unsigned(m & 0xff), alloc_of(gaddr));
            sim_fail("data-race", "%s%s by T%d(%s) pc=0x%lx races with %s%s by T%d(%s) pc=0x%lx on %s memory",
                     at ? "atomic " : "", w ? "write" : "read", f->id, f->name, (unsigned long)(pc - g_exe_base),
                     oa ? "atomic " : "", ow ? "write" : "read", of, g_f[of].name, (unsigned long)sh->s[i].pc, region(gaddr));
        }
    }
    if (put < 0) put = int(((gaddr >> 3) + f->vc.c[f->id] + g_step) & 3);
    sh->s[put].meta = me;
    sh->s[put].pc = uint32_t(pc - g_exe_base);
}

static HOT void access_at(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc)
{
    Shadow *base; uintptr_t b0;
    if (a >= ARENA && a < ARENA + ARENA_SZ) {
        base = g_sh_arena; b0 = ARENA;
        for (uintptr_t g = (a - ARENA) >> 3, e = (a + n - 1 - ARENA) >> 3; g <= e; ++g)
            if (g_state[g] != 1) {
                int i = alloc_of(a);
                sim_fail(g_state[g] == 2 ? "use-after-free" : "heap-overflow", "%s of %zu bytes by T%d(%s) pc=0x%lx at offset %ld of a %zu byte block",
                         w ? "write" : "read", n, cur->id, cur->name, (unsigned long)(pc - g_exe_base),
                         i >= 0 ? long(a - (*g_allocs)[i].p) : -1l, i >= 0 ? (*g_allocs)[i].n : size_t(0));
            }
    } else if (a >= STACKS && a < STACKS + STACKS_SZ) {
        base = g_sh_stack; b0 = STACKS;
        int id = int((a - STACKS) / STACK_SZ);
        if (a < g_f[id].stack_low) g_f[id].stack_low = a;
    } else if (a >= g_data_lo && a < g_data_hi) {
        base = g_sh_data; b0 = g_data_lo & ~7ull;
        if (a < t_data_lo) t_data_lo = a;
        if (a + n > t_data_hi) t_data_hi = a + n;
    } else {
        if (a < 4096) sim_fail("null-deref", "%s through a null pointer by T%d(%s) pc=0x%lx", w ? "write" : "read", cur->id, cur->name, (unsigned long)(pc - g_exe_base));
        return;
    }
    uintptr_t off = a - b0, end = off + n;
    while (off < end) {
        uintptr_t g = off >> 3; uintptr_t lo = off & 7; uintptr_t hi = std::min<uintptr_t>(8, lo + (end - off));
        uint32_t mask = uint32_t(((1u << hi) - 1) & ~((1u << lo) - 1));
        shadow_granule(base + g, b0 + (g << 3), mask, w, at, pc);
        off += hi - lo;
    }
}

// ------------------------------------------------------------------------------------------------ sync objects
enum Kind : uint8_t { K_NONE, K_ATOMIC, K_SEM, K_SEMDEAD, K_HANDLE, K_MUTEX, K_COND, K_RW, K_ONCE, K_SPIN };
struct Sync {
    uintptr_t key; uint32_t gen; Kind kind;
    int val, owner, count; bool rel;
    int target;                          // named semaphore index for handles
    VC vc;
};
static constexpr uint32_t NSYNC = 1u << 17, NSYNC_MANY = 1u << 20;
static uint32_t g_sync_size = NSYNC;         // usually a small part of the table, which stays in the caches
static Sync    *g_sync; static uint32_t g_gen; static uint32_t g_nsync;

static Sync *sync_at(uintptr_t a, Kind k, bool create = true)
{
    uint64_t h = a * 0x9e3779b97f4a7c15ull; uint32_t i = uint32_t(h >> 40) & (g_sync_size - 1);
    for (;;) {
        Sync *s = &g_sync[i];
        if (s->gen != g_gen) {
            if (!create) return nullptr;
            if (++g_nsync > g_sync_size - 8) { fprintf(stderr, "sim: sync table full\n"); _exit(98); }
            s->gen = g_gen; s->key = a; s->kind = k; s->val = 0; s->owner = -1; s->count = 0; s->rel = false; s->target = -1; s->vc.clear();
            return s;
        }
        if (s->key == a) {
            if (s->kind != k && k != K_NONE) {
                if (k == K_ATOMIC && s->kind != K_ATOMIC) return s;   // someone inspects it
                s->kind = k; s->val = 0; s->owner = -1; s->count = 0; s->rel = false; s->target = -1; s->vc.clear();
            }
            return s;
        }
        i = (i + 1) & (g_sync_size - 1);
    }
}
static inline void acquire(Sync *s) { cur->vc.join(s->vc); }
static inline void release(Sync *s) { s->vc.join(cur->vc); cur->vc.c[cur->id]++; }
static inline void release_store(Sync *s) { s->vc = cur->vc; cur->vc.c[cur->id]++; }

// ------------------------------------------------------------------------------------------------ scheduling
static void tls_save(std::vector<char> *v)  { if (g_tls_size && g_tls) memcpy(v->data(), g_tls, g_tls_size); }
static void tls_load(std::vector<char> *v)  { if (g_tls_size && g_tls) memcpy(g_tls, v->data(), g_tls_size); }

static void switch_to(Fiber *n)
{
    Fiber *o = cur;
    if (o == n) return;
    ++g_switches; g_samerun = 0;
    o->saved_errno = errno;
    memcpy(o->eh, __cxxabiv1::__cxa_get_globals(), sizeof o->eh);
    tls_save(o->tls);
    cur = n;
    tls_load(n->tls);
    memcpy(__cxxabiv1::__cxa_get_globals(), n->eh, sizeof n->eh);
    errno = n->saved_errno;
    sim_ctx_switch(&o->sp, n->sp);
}

static int64_t eff_deadline(const Fiber &f) { return f.clk == CLOCK_REALTIME ? f.deadline - g_real_off : f.deadline; }
static void recompute_deadlines()
{
    g_next_deadline = INT64_MAX;
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && g_f[i].deadline >= 0) g_next_deadline = std::min(g_next_deadline, eff_deadline(g_f[i]));
}
static void make_runnable(Fiber &f, Wake why)
{
    f.st = F_RUN; f.why = why;
    if (f.deadline >= 0) { f.deadline = -1; recompute_deadlines(); }
}
static void fire_timers()
{
    if (g_now < g_next_deadline) return;
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && g_f[i].deadline >= 0 && eff_deadline(g_f[i]) <= g_now) {
            g_f[i].st = F_RUN; g_f[i].why = W_TIMEOUT; g_f[i].deadline = -1;
        }
    recompute_deadlines();
}

static int fault_site(int kind)
{
    if (f_permille[kind] <= 0) return 0;
    uint32_t site = g_fsite++;
    int v = 0;
    if (g_replay) {
        while (t_fpos < t_faults->size() && (*t_faults)[t_fpos].idx < site) ++t_fpos;
        if (t_fpos < t_faults->size() && (*t_faults)[t_fpos].idx == site) v = (*t_faults)[t_fpos++].val;
    } else if (f_budget[kind] > 0 && g_step < g_adv && int(r_fault.below(1000)) < f_permille[kind]) {
        v = 1 + int(r_fault.below(8));
        t_faults->push_back({site, uint16_t(v)});
    }
    if (v) {
        --f_budget[kind]; ++f_fired[kind]; ++f_total[kind];
        static const char *names[] = {"EINTR", "THREAD_CREATE", "THREAD_ATTR", "CLOCK_JUMP", "STALL", "SEM_OPEN", "ALLOC", "CAS_WEAK", "SPURIOUS", "PROC_CRASH"};
        tr("FAULT  %s value %d", names[kind], v);
    }
    return v;
}

static int next_cyclic(int from)
{
    for (int k = 1; k <= g_nf; ++k) { int i = (from + k) % g_nf; if (g_f[i].st == F_RUN) return i; }
    return -1;
}

static int strategy_pick(bool cur_ok, bool yield)
{
    int ids[MAXF], n = 0;
    for (int i = 0; i < g_nf; ++i) if (g_f[i].st == F_RUN) ids[n++] = i;
    const int me = cur->id;
    if (n == 1) return ids[0];
    auto other = [&]() {
        int k = 0; int o[MAXF];
        for (int i = 0; i < n; ++i) if (ids[i] != me) o[k++] = ids[i];
        return k ? o[r_sched.below(k)] : me;
    };
    switch (g_strat) {
    case ST_RANDOM:
        if (!cur_ok) return ids[r_sched.below(n)];
        if (yield) return r_sched.below(8) ? other() : me;
        return r_sched.below(1000) < g_p ? other() : me;
    case ST_PCT: {
        if (yield && cur_ok) cur->prio = --g_prio_low;
        while (g_pct_left > 0 && !g_pct_points->empty() && g_step >= g_pct_points->back()) {
            g_pct_points->pop_back(); --g_pct_left; cur->prio = --g_prio_low;
        }
        int best = ids[0];
        for (int i = 1; i < n; ++i) if (g_f[ids[i]].prio > g_f[best].prio) best = ids[i];
        return best;
    }
    case ST_VICTIM: {
        if (g_step >= g_victim_until) {
            g_victim = ids[r_sched.below(n)];
            g_victim_until = g_step + 5 + r_sched.below(r_sched.below(4) ? 60 : 600);
        }
        if (cur_ok && me != g_victim && !yield && r_sched.below(1000) >= g_p) return me;
        int k = 0; int o[MAXF];
        for (int i = 0; i < n; ++i) if (ids[i] != g_victim && (ids[i] != me || !yield)) o[k++] = ids[i];
        return k ? o[r_sched.below(k)] : ids[r_sched.below(n)];
    }
    default:
        if (cur_ok && !yield && g_samerun < g_quantum) return me;
        return next_cyclic(me);
    }
}

static int pick(bool cur_ok, bool yield)
{
    const uint32_t d = g_dec++;
    const bool fair = g_step >= g_adv;
    int def;
    if (cur_ok && !yield && g_samerun < (fair ? 40u : 600u)) def = cur->id;
    else def = next_cyclic(cur->id);
    if (def < 0) return -1;
    if (fair) return def;
    if (g_replay) {
        while (t_spos < t_sched->size() && (*t_sched)[t_spos].idx < d) ++t_spos;
        if (t_spos < t_sched->size() && (*t_sched)[t_spos].idx == d) {
            int want = (*t_sched)[t_spos++].val;
            if (want < g_nf && g_f[want].st == F_RUN) return want;
        }
        return def;
    }
    if (g_samerun >= 600) return def;
    int c = strategy_pick(cur_ok, yield);
    if (c != def) t_sched->push_back({d, uint16_t(c)});
    return c;
}

static void deadlock()
{
    char b[900]; int n = 0;
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && n < 700) n += snprintf(b + n, sizeof b - n, " T%d(%s) in %s;", i, g_f[i].name, g_f[i].what);
    sim_fail("deadlock", "no thread can make progress and no timer is pending:%s", b);
}

static void step_checks()
{
    ++g_step; ++g_samerun; g_now += 20;
    if (g_step >= g_hard) sim_fail("no-progress", "run did not finish within %lu steps, %lu of them under a fair schedule without faults (T%d %s was running)",
                                   (unsigned long)g_hard, (unsigned long)(g_hard - g_adv), cur->id, cur->name);
    if (g_next_deadline != INT64_MAX && f_permille[SIM_F_STALL] > 0 && g_now < g_next_deadline) {
        if (int v = fault_site(SIM_F_STALL)) g_now = g_next_deadline + (v - 1) * 1000;
    }
    fire_timers();
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && g_f[i].intr_at && g_step >= g_f[i].intr_at) { g_f[i].intr_at = 0; make_runnable(g_f[i], W_INTR); }
}

// A point at which the running thread may be preempted
static void point(bool yield = false)
{
    step_checks();
    int c = pick(true, yield);
    if (c != cur->id && c >= 0) switch_to(&g_f[c]);
}

// The running thread cannot continue
static void away()
{
    for (;;) {
        step_checks();
        int c = pick(false, false);
        if (c >= 0) { if (c != cur->id) switch_to(&g_f[c]); return; }
        // idle: pending signals first, then timers
        int best = -1;
        for (int i = 0; i < g_nf; ++i) if (g_f[i].st == F_BLOCKED && g_f[i].intr_at && (best < 0 || g_f[i].intr_at < g_f[best].intr_at)) best = i;
        if (best >= 0) { g_f[best].intr_at = 0; make_runnable(g_f[best], W_INTR); continue; }
        if (g_next_deadline == INT64_MAX) deadlock();
        g_now = std::max(g_now, g_next_deadline);
        fire_timers();
    }
}

static Wake block(uintptr_t key, const char *what, int64_t deadline, int clk, bool intr)
{
    cur->intr_at = 0;
    if (intr) {
        if (int v = fault_site(SIM_F_EINTR)) {
            if (v <= 3) return W_INTR;
            cur->intr_at = g_step + uint64_t(v - 3) * (v - 3) * 6;
        }
    }
    cur->st = F_BLOCKED; cur->key = key; cur->what = what; cur->deadline = deadline; cur->clk = clk; cur->intr = cur->cancellable = intr;
    if (deadline >= 0) recompute_deadlines();
    away();
    cur->intr_at = 0;
    return cur->why;
}
static int wake_all(uintptr_t key)
{
    int n = 0;
    for (int i = 0; i < g_nf; ++i) if (g_f[i].st == F_BLOCKED && g_f[i].key == key) { make_runnable(g_f[i], W_WOKEN); ++n; }
    return n;
}
static void wake_one(uintptr_t key)
{
    int ids[MAXF], n = 0;
    for (int i = 0; i < g_nf; ++i) if (g_f[i].st == F_BLOCKED && g_f[i].key == key) ids[n++] = i;
    if (!n) return;
    // which one: a recorded decision, default the first
    const uint32_t d = g_dec++; int k = 0;
    if (g_replay) {
        while (t_spos < t_sched->size() && (*t_sched)[t_spos].idx < d) ++t_spos;
        if (t_spos < t_sched->size() && (*t_sched)[t_spos].idx == d) k = (*t_sched)[t_spos++].val % n;
    } else if (g_step < g_adv) {
        k = int(r_sched.below(n));
        if (k) t_sched->push_back({d, uint16_t(k)});
    }
    make_runnable(g_f[ids[k]], W_WOKEN);
}

// ------------------------------------------------------------------------------------------------ fibers
// A cancelled thread unwinds its stack at the next call that is a cancellation point.
struct Cancelled {};
static void w_thread_over(Fiber *f);      // see win32/kernel.inc
static void w_proc_dies(int proc);
static int w_object(const void *h);
static bool w_name(const char *n);
static int w_handles(int proc);
static inline void cancel_point()
{
    if (!cur || !cur->cancel) return;
    { Rt r; hash_op(36, cur->id); tr("cancelled"); cur->cancel = false; }
    throw Cancelled();
}

static void fiber_entry()
{
    Fiber *f = cur;
    g_rt = false;
    try { if (f->fn) f->ret = f->fn(f->arg); else f->cfn(f->arg); } catch (Cancelled &) { f->ret = PTHREAD_CANCELED; }
    g_rt = true;
    tr("exit");
    if (f->id == 0) leave_run();
    // finishing releases to whoever joins
    Sync *s = sync_at(STACKS + f->id * STACK_SZ + 8, K_COND);
    s->vc = f->vc; f->vc.c[f->id]++;
    f->st = F_DONE;
    if (f->detached) f->joined = true;
    w_thread_over(f);
    wake_all((uintptr_t)f);
    away();
    __builtin_unreachable();
}

static Fiber *new_fiber(const char *name, int proc)
{
    int id = -1;
    for (int i = 0; i < g_nf; ++i) if ((g_f[i].st == F_DONE && g_f[i].joined) && i != 0) { id = i; break; }
    if (g_nf < MAXF) id = g_nf++;
    if (id < 0) { fprintf(stderr, "sim: too many threads in one run\n"); _exit(97); }
    Fiber *f = &g_f[id];
    uint32_t clk = f->vc.c[id];          // keeps counting when a slot is reused within a run
    bool reused = f->used;
    auto *tls = f->tls;
    uintptr_t low = f->stack_low;
    if (reused) {
        uintptr_t top = STACKS + (id + 1) * STACK_SZ;
        if (low < top) memset((void *)(g_sh_stack + ((low - STACKS) >> 3)), 0, ((top - low) >> 3) * sizeof(Shadow) + 0);
    }
    *f = Fiber{};
    f->id = id; f->used = true; f->st = F_RUN; f->proc = proc; f->joiner = -1; f->deadline = -1;
    f->handle = 0x7000000000000000ull + (++g_handle_seq << 8) + id;
    f->tls = tls ? tls : new std::vector<char>(g_tls_size);
    if (g_tls_size) { memset(f->tls->data(), 0, g_tls_size); memcpy(f->tls->data(), g_tls_init, g_tls_filesz); }
    f->stack_low = STACKS + (id + 1) * STACK_SZ;
    snprintf(f->name, sizeof f->name, "%s", name);
    f->affinity = cur ? cur->affinity : ~0ull; f->policy = cur ? cur->policy : SCHED_OTHER; f->rtprio = cur ? cur->rtprio : 0;
    if (cur) { f->vc = cur->vc; f->vc.c[id] = std::max(f->vc.c[id], clk) + 1; cur->vc.c[cur->id]++; }
    else f->vc.c[id] = clk + 1;
    f->prio = g_replay ? 0 : int64_t(r_sched.below(1u << 30));
    uintptr_t *sp = (uintptr_t *)(STACKS + (id + 1) * STACK_SZ - 64);
    *--sp = 0;                           // return address of fiber_entry
    *--sp = (uintptr_t)fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
    return f;
}

static Fiber *by_handle(uint64_t h)
{
    int id = int(h & 0xff);
    if (id < g_nf && g_f[id].handle == h) return &g_f[id];
    return nullptr;
}

EXPORT int sim_spawn(void (*fn)(void *), void *arg, const char *name, int proc)
{
    Rt r;
    Fiber *f = new_fiber(name, proc);
    f->cfn = fn; f->arg = arg;
    tr("spawn  T%d %s", f->id, name);
    point();
    return f->id;
}
static int join_fiber(Fiber *f)
{
    while (f->st != F_DONE && f->st != F_DEAD) block((uintptr_t)f, "join", -1, 0, false);
    Sync *s = sync_at(STACKS + f->id * STACK_SZ + 8, K_COND);
    acquire(s);
    f->joined = true;
    return 0;
}
EXPORT void sim_join(int id) { Rt r; point(); join_fiber(&g_f[id]); }
EXPORT int sim_self(void) { return cur ? cur->id : -1; }
EXPORT int sim_proc(void) { return cur ? cur->proc : 0; }
EXPORT int sim_live_fibers(void)
{
    int n = 0;
    for (int i = 0; i < g_nf; ++i) if (&g_f[i] != cur && (g_f[i].st == F_RUN || g_f[i].st == F_BLOCKED)) ++n;
    return n;
}
EXPORT int sim_zombie_threads(void)
{
    int n = 0;
    for (int i = 0; i < g_nf; ++i) if (g_f[i].is_thread && g_f[i].st == F_DONE && !g_f[i].joined) ++n;
    return n;
}
EXPORT int sim_live_threads(void)
{
    int n = 0;
    for (int i = 0; i < g_nf; ++i) if (&g_f[i] != cur && g_f[i].is_thread && (g_f[i].st == F_RUN || g_f[i].st == F_BLOCKED)) ++n;
    return n;
}
EXPORT int sim_runnable_others(void)
{
    int n = 0;
    for (int i = 0; i < g_nf; ++i) if (&g_f[i] != cur && g_f[i].st == F_RUN) ++n;
    return n;
}
EXPORT int sim_is_blocked(int id) { return g_f[id].st == F_BLOCKED; }
EXPORT int sim_is_joining(int id) { return g_f[id].st == F_BLOCKED && !strcmp(g_f[id].what, "join"); }
EXPORT void sim_allow_leftover(void) { g_leftover_ok = true; }
EXPORT uint64_t sim_stamp(void) { return ++g_stamp; }
EXPORT uint64_t sim_step(void) { return g_step; }
EXPORT int64_t sim_now_mono(void) { return g_now; }
EXPORT int64_t sim_now_real(void) { return g_now + g_real_off; }
EXPORT void sim_set_real(int64_t ns) { g_real_off = ns - g_now; recompute_deadlines(); }
EXPORT void sim_point(void) { if (active()) { Rt r; point(); } }
EXPORT void sim_yield(void) { if (active()) { Rt r; point(true); } }
EXPORT void sim_sleep(int64_t ns)
{
    Rt r;
    if (ns < 0) ns = 0;
    int64_t until = g_now + ns;
    while (g_now < until) block((uintptr_t)&cur->key, "sleep", until, CLOCK_MONOTONIC, false);
}
EXPORT void sim_park(const void *key) { Rt r; block((uintptr_t)key + 1, "park", -1, 0, false); }
EXPORT void sim_unpark(const void *key) { Rt r; wake_all((uintptr_t)key + 1); }
EXPORT void sim_settle(void) { Rt r; while (sim_runnable_others()) point(true); }
EXPORT void sim_rest(void)
{
    Rt r;
    for (;;) {
        bool busy = false;
        for (int i = 0; i < g_nf; ++i) if (&g_f[i] != cur && (g_f[i].st == F_RUN || (g_f[i].st == F_BLOCKED && g_f[i].intr_at))) busy = true;
        if (busy) point(true);
        else if (g_next_deadline == INT64_MAX) return;
        else block((uintptr_t)&cur->key, "rest", g_next_deadline, CLOCK_MONOTONIC, false);
    }
}
EXPORT void sim_quiet_enter(void) { if (cur) cur->quiet++; }
EXPORT void sim_quiet_leave(void) { if (cur) cur->quiet--; }
EXPORT void sim_fault_enable(int k, int pm, int budget) { f_permille[k] = pm; f_budget[k] = budget; }
EXPORT int sim_fault(int k) { Rt r; return fault_site(k); }
EXPORT uint64_t sim_fault_count(int k) { return f_fired[k]; }
EXPORT void sim_alloc_window(int on) { if (cur) cur->alloc_window = on; }
EXPORT void sim_set_cores(int n) { g_cores = n; }
EXPORT void sim_set_rtprio(int n) { g_rtprio = n; }
EXPORT int sim_live_attrs(void) { return g_attrs; }
EXPORT uint64_t sim_thread_affinity(int f) { return g_f[f].affinity; }
EXPORT int sim_thread_priority(int f) { return g_f[f].policy * 1000 + g_f[f].rtprio; }
EXPORT size_t sim_thread_stack(int f) { return g_f[f].stack_size; }
EXPORT const char *sim_thread_name(int f) { return g_f[f].name; }
EXPORT void sim_many_objects(void)
{
    if (g_nsync) { fprintf(stderr, "sim: sim_many_objects comes first in a run\n"); _exit(88); }
    g_sync_size = NSYNC_MANY;
}
EXPORT void sim_heap_reuse(int on) { g_reuse_forced = on; }
EXPORT void sim_limits(uint64_t adv, uint64_t hard) { g_adv = adv; g_hard = hard; }
EXPORT void sim_race_detection(int on) { g_race_on = on; }
EXPORT void sim_finegrain_ok(int ok) { g_fine_allowed = ok; g_fine = ok && g_finegrain_mode; }
EXPORT size_t sim_live_allocs(void) { return g_live; }
EXPORT void sim_dump_leaks(void)
{
    if (!g_trace) return;
    int n = 0;
    for (auto &a : *g_allocs) if (a.live && n++ < 20) {
        printf("leak: %zu bytes allocated by T%d at", a.n, a.fiber);
        for (auto p : a.bt) if (p) printf(" 0x%lx", (unsigned long)(p - g_exe_base));
        printf("\n");
    }
}
EXPORT int sim_is_freed(const void *p)
{
    uintptr_t a = (uintptr_t)p;
    return a >= ARENA && a < ARENA + ARENA_SZ && g_state[(a - ARENA) >> 3] == 2;
}
EXPORT uint32_t sim_choose(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v;
    if (g_replay) v = t_cpos < t_choices->size() ? (*t_choices)[t_cpos++] % n : 0;
    else { Rt r; v = r_work.below(n); t_choices->push_back(v); }
    return v;
}
EXPORT void sim_probe(const char *name)
{
    Rt r;
    for (int i = 0; i < g_nprobes; ++i) if (!strcmp(g_probes[i].name, name)) { g_probes[i].n++; return; }
    if (g_nprobes < 96) { snprintf(g_probes[g_nprobes].name, sizeof g_probes[0].name, "%s", name); g_probes[g_nprobes++].n = 1; }
}

// ------------------------------------------------------------------------------------------------ TSan instrumentation entry points
#define PC() ((uintptr_t)__builtin_return_address(0))

static HOT void plain(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    g_rt = true;
    if (g_fine) {
        // own stack is private in practice: no scheduling point there
        bool own = a >= STACKS + cur->id * STACK_SZ && a < STACKS + (cur->id + 1) * STACK_SZ;
        if (!own) point();
    }
    access_at(a, n, w, false, pc);
    g_rt = false;
}
#define PLAIN(name, n, w) EXPORT void name(void *a) { if (active()) plain((uintptr_t)a, n, w, PC()); }
PLAIN(__tsan_read1, 1, false) PLAIN(__tsan_read2, 2, false) PLAIN(__tsan_read4, 4, false) PLAIN(__tsan_read8, 8, false) PLAIN(__tsan_read16, 16, false)
PLAIN(__tsan_write1, 1, true) PLAIN(__tsan_write2, 2, true) PLAIN(__tsan_write4, 4, true) PLAIN(__tsan_write8, 8, true) PLAIN(__tsan_write16, 16, true)
PLAIN(__tsan_unaligned_read2, 2, false) PLAIN(__tsan_unaligned_read4, 4, false) PLAIN(__tsan_unaligned_read8, 8, false) PLAIN(__tsan_unaligned_read16, 16, false)
PLAIN(__tsan_unaligned_write2, 2, true) PLAIN(__tsan_unaligned_write4, 4, true) PLAIN(__tsan_unaligned_write8, 8, true) PLAIN(__tsan_unaligned_write16, 16, true)
PLAIN(__tsan_read_write1, 1, true) PLAIN(__tsan_read_write2, 2, true) PLAIN(__tsan_read_write4, 4, true) PLAIN(__tsan_read_write8, 8, true) PLAIN(__tsan_read_write16, 16, true)
PLAIN(__tsan_unaligned_read_write2, 2, true) PLAIN(__tsan_unaligned_read_write4, 4, true) PLAIN(__tsan_unaligned_read_write8, 8, true) PLAIN(__tsan_unaligned_read_write16, 16, true)
PLAIN(__tsan_volatile_read1, 1, false) PLAIN(__tsan_volatile_read2, 2, false) PLAIN(__tsan_volatile_read4, 4, false) PLAIN(__tsan_volatile_read8, 8, false)
PLAIN(__tsan_volatile_write1, 1, true) PLAIN(__tsan_volatile_write2, 2, true) PLAIN(__tsan_volatile_write4, 4, true) PLAIN(__tsan_volatile_write8, 8, true)
PLAIN(__tsan_vptr_read, 8, false)
EXPORT void __tsan_vptr_update(void **p, void *v) { if (*p != v && active()) plain((uintptr_t)p, 8, true, PC()); }
EXPORT void __tsan_read_range(void *a, unsigned long n) { if (n && active()) plain((uintptr_t)a, n, false, PC()); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { if (n && active()) plain((uintptr_t)a, n, true, PC()); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    if (n && active()) { plain((uintptr_t)s, n, false, PC()); plain((uintptr_t)d, n, true, PC()); }
    return memmove(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n)
{
    if (n && active()) { plain((uintptr_t)s, n, false, PC()); plain((uintptr_t)d, n, true, PC()); }
    return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, size_t n)
{
    if (n && active()) plain((uintptr_t)d, n, true, PC());
    return memset(d, c, n);
}

// ---- atomics. Values are sequentially consistent; the happens-before edges follow the memory orders given.
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void hb_load(uintptr_t a, int mo)
{
    Sync *s = sync_at(a, K_ATOMIC, false);
    if (!s) return;
    if (is_acq(mo)) acquire(s);
    else { cur->acq_pending.join(s->vc); cur->has_acq = true; }
}
static void hb_store(uintptr_t a, int mo)
{
    Sync *s = sync_at(a, K_ATOMIC);
    if (is_rel(mo)) release_store(s);
    else if (cur->has_rel) s->vc = cur->rel_fence;
    else s->vc.clear();
}
static void hb_rmw(uintptr_t a, int mo)
{
    Sync *s = sync_at(a, K_ATOMIC);
    if (is_acq(mo)) acquire(s); else { cur->acq_pending.join(s->vc); cur->has_acq = true; }
    if (is_rel(mo)) release(s); else if (cur->has_rel) s->vc.join(cur->rel_fence);
}
static inline void at_pre(uintptr_t a, size_t n, bool w, uintptr_t pc, const char *op, uint32_t opc)
{
    point();
    hash_op(opc, a);
    tr("%-6s %lx", op, (unsigned long)objid(a));
    access_at(a, n, w, true, pc);
}
#define ATOMIC(bits, T)                                                                                                \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int mo)                                                   \
    {                                                                                                                  \
        if (!active()) return *p;                                                                                      \
        Rt r; at_pre((uintptr_t)p, sizeof(T), false, PC(), "load", 1);                                                 \
        hb_load((uintptr_t)p, mo);                                                                                     \
        if (g_trace) tr("       = %llx", (unsigned long long)*p);                                                      \
        return *p;                                                                                                     \
    }                                                                                                                  \
    EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int mo)                                                \
    {                                                                                                                  \
        if (!active()) { *p = v; return; }                                                                             \
        Rt r; at_pre((uintptr_t)p, sizeof(T), true, PC(), "store", 2);                                                 \
        hb_store((uintptr_t)p, mo);                                                                                    \
        *p = v;                                                                                                        \
        if (g_trace) tr("       := %llx", (unsigned long long)v);                                                      \
    }                                                                                                                  \
    RMW(bits, T, exchange, v)                                                                                          \
    RMW(bits, T, fetch_add, T(o + v)) RMW(bits, T, fetch_sub, T(o - v)) RMW(bits, T, fetch_and, T(o & v))              \
    RMW(bits, T, fetch_or, T(o | v)) RMW(bits, T, fetch_xor, T(o ^ v)) RMW(bits, T, fetch_nand, T(~(o & v)))           \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo)                \
    {                                                                                                                  \
        if (!active()) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                      \
        Rt r; at_pre((uintptr_t)p, sizeof(T), true, PC(), "cas", 4);                                                   \
        if (*p == *e) { hb_rmw((uintptr_t)p, mo); *p = v; tr("       ok"); return 1; }                                 \
        hb_load((uintptr_t)p, fmo); *e = *p; tr("       fail"); return 0;                                              \
    }                                                                                                                  \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo)                  \
    {                                                                                                                  \
        if (!active()) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                      \
        Rt r; at_pre((uintptr_t)p, sizeof(T), true, PC(), "casw", 5);                                                  \
        if (*p == *e && !fault_site(SIM_F_CAS_WEAK)) { hb_rmw((uintptr_t)p, mo); *p = v; return 1; }                   \
        hb_load((uintptr_t)p, fmo); *e = *p; return 0;                                                                 \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo)                      \
    {                                                                                                                  \
        T x = e;                                                                                                       \
        __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, mo, fmo);                                              \
        return x;                                                                                                      \
    }
#define RMW(bits, T, nm, expr)                                                                                         \
    EXPORT T __tsan_atomic##bits##_##nm(volatile T *p, T v, int mo)                                                    \
    {                                                                                                                  \
        if (!active()) { T o = *p; *p = (expr); return o; }                                                            \
        Rt r; at_pre((uintptr_t)p, sizeof(T), true, PC(), #nm, 3);                                                     \
        hb_rmw((uintptr_t)p, mo);                                                                                      \
        T o = *p; *p = (expr);                                                                                         \
        if (g_trace) tr("       %llx -> %llx", (unsigned long long)o, (unsigned long long)*p);                         \
        return o;                                                                                                      \
    }
typedef unsigned __int128 u128;
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!active()) return;
    Rt r; point();
    if (is_acq(mo) && cur->has_acq) cur->vc.join(cur->acq_pending);
    if (is_rel(mo)) { cur->rel_fence = cur->vc; cur->has_rel = true; cur->vc.c[cur->id]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ allocator
static void *raw_malloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) _exit(96); return p; }

static constexpr size_t REUSE_MAX = 1024;
static void *arena_new(size_t n, size_t al, bool nothrow, uintptr_t pc)
{
    if (!cur || g_rt) return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : raw_malloc(n);
    if (cur->quiet) {
        g_brk2 = (g_brk2 + al - 1) & ~(al - 1);
        uintptr_t p = g_brk2; g_brk2 += (n + 15) & ~15ull;
        if (g_brk2 > ARENA2 + ARENA2_SZ) { fprintf(stderr, "sim: oracle memory exhausted\n"); _exit(95); }
        return (void *)p;
    }
    Rt r;
    if (cur->alloc_window && fault_site(SIM_F_ALLOC)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    size_t rn = (n + 7) & ~7ull; if (!rn) rn = 8;
    if ((g_reuse_mode || g_reuse_forced) && al <= 16 && rn < REUSE_MAX && !g_freed[rn >> 3].empty()) {
        Alloc &a = (*g_allocs)[g_freed[rn >> 3].back()];
        g_freed[rn >> 3].pop_back();
        a.n = n; a.fiber = cur->id; a.live = true;
        ++g_live;
        memset(g_state + ((a.p - ARENA) >> 3), 1, rn >> 3);
        memset((void *)(g_sh_arena + ((a.p - ARENA) >> 3)), 0, (rn >> 3) * sizeof(Shadow));
        for (uintptr_t q = a.p; q < a.p + rn; q += 4) if (Sync *s = sync_at(q, K_NONE, false)) { s->kind = K_NONE; s->val = 0; s->owner = -1; s->count = 0; s->rel = false; s->target = -1; s->vc.clear(); }
        memset((void *)a.p, 0xcb, rn);
        return (void *)a.p;
    }
    uintptr_t p = (g_brk + 32 + al - 1) & ~(al - 1);
    if (p + rn + 32 > ARENA + ARENA_SZ) { fprintf(stderr, "sim: heap exhausted\n"); _exit(94); }
    g_brk = (p + rn + 15) & ~15ull;
    ((uintptr_t *)p)[-1] = g_allocs->size() ^ 0x5a5a5a5a00000000ull;
    Alloc a{p, n, cur->id, true, false, {}};
    if (g_trace) { a.bt[0] = pc; walk_bt((uintptr_t)__builtin_frame_address(0), 0); for (int i = 0; i < 5 && i + 1 < v_nbt; ++i) a.bt[i + 1] = v_bt[i + 1]; v_nbt = 0; }
    g_allocs->push_back(a);
    ++g_live;
    memset(g_state + ((p - ARENA) >> 3), 1, rn >> 3);
    memset((void *)p, 0xcb, rn);
    return (void *)p;
}
static void arena_delete(void *q, uintptr_t pc)
{
    uintptr_t p = (uintptr_t)q;
    if (!p) return;
    if (p >= ARENA2 && p < ARENA2 + ARENA2_SZ) return;
    if (p >= ARENA && p < ARENA + ARENA_SZ) {
        Rt r;
        size_t i = ((uintptr_t *)p)[-1] ^ 0x5a5a5a5a00000000ull;
        if (i >= g_allocs->size() || (*g_allocs)[i].p != p) { if (cur) sim_fail("bad-free", "free of a pointer that is not the start of a block by T%d(%s) pc=0x%lx", cur->id, cur->name, (unsigned long)(pc - g_exe_base)); return; }
        Alloc &a = (*g_allocs)[i];
        if (!a.live) { if (cur) sim_fail("double-free", "a %zu byte block is freed twice, by T%d(%s) pc=0x%lx", a.n, cur->id, cur->name, (unsigned long)(pc - g_exe_base)); return; }
        if (cur && !cur->quiet && a.n) access_at(p, a.n, true, false, pc);
        a.live = false; --g_live;
        size_t rn = (a.n + 7) & ~7ull; if (!rn) rn = 8;
        memset(g_state + ((p - ARENA) >> 3), 2, rn >> 3);
        memset(q, 0xdd, rn);
        if ((g_reuse_mode || g_reuse_forced) && rn < REUSE_MAX) g_freed[rn >> 3].push_back(uint32_t(i));
        return;
    }
    free(q);
}
#define NEWX __attribute__((visibility("default")))
NEWX void *operator new(size_t n) { return arena_new(n, 16, false, PC()); }
NEWX void *operator new[](size_t n) { return arena_new(n, 16, false, PC()); }
NEWX void *operator new(size_t n, const std::nothrow_t &) noexcept { return arena_new(n, 16, true, PC()); }
NEWX void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arena_new(n, 16, true, PC()); }
NEWX void *operator new(size_t n, std::align_val_t a) { return arena_new(n, std::max<size_t>(16, size_t(a)), false, PC()); }
NEWX void *operator new[](size_t n, std::align_val_t a) { return arena_new(n, std::max<size_t>(16, size_t(a)), false, PC()); }
NEWX void operator delete(void *p) noexcept { arena_delete(p, PC()); }
NEWX void operator delete[](void *p) noexcept { arena_delete(p, PC()); }
NEWX void operator delete(void *p, size_t) noexcept { arena_delete(p, PC()); }
NEWX void operator delete[](void *p, size_t) noexcept { arena_delete(p, PC()); }
NEWX void operator delete(void *p, const std::nothrow_t &) noexcept { arena_delete(p, PC()); }
NEWX void operator delete[](void *p, const std::nothrow_t &) noexcept { arena_delete(p, PC()); }
NEWX void operator delete(void *p, std::align_val_t) noexcept { arena_delete(p, PC()); }
NEWX void operator delete[](void *p, std::align_val_t) noexcept { arena_delete(p, PC()); }
NEWX void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_delete(p, PC()); }
NEWX void operator delete[](void *p, size_t, std::align_val_t) noexcept { arena_delete(p, PC()); }

// ------------------------------------------------------------------------------------------------ semaphores
struct Named { std::string name; bool linked; int val; VC vc; };
static std::vector<Named> *g_named;
struct Handle { int named; int proc; int refs; uintptr_t addr; };
static std::vector<Handle> *g_handles;

struct SemRef { int *val; VC *vc; uintptr_t key; };
static SemRef sem_ref(sem_t *p, const char *op)
{
    uintptr_t a = (uintptr_t)p;
    if (!a) sim_fail("sem-misuse", "%s on a null semaphore by T%d(%s)", op, cur->id, cur->name);
    if (a >= HANDLES && a < HANDLES + HANDLES_SZ) {
        size_t i = (a - HANDLES) / 64;
        if (i >= g_handles->size() || (*g_handles)[i].refs <= 0 || (*g_handles)[i].proc != cur->proc)
            sim_fail("sem-misuse", "%s on a closed named semaphore by T%d(%s)", op, cur->id, cur->name);
        Named &n = (*g_named)[(*g_handles)[i].named];
        return {&n.val, &n.vc, 0x1000u + uintptr_t((*g_handles)[i].named)};
    }
    access_at(a, 4, true, true, (uintptr_t)g_exe_base);   // a freed or destroyed semaphore is not touched
    Sync *s = sync_at(a, K_NONE, false);
    if (!s || s->kind != K_SEM) sim_fail("sem-misuse", "%s on a semaphore that is not initialised (or destroyed) by T%d(%s)", op, cur->id, cur->name);
    return {&s->val, &s->vc, a};
}
EXPORT int sem_init(sem_t *p, int, unsigned v)
{
    if (v > INT_MAX) { errno = EINVAL; return -1; }
    if (!cur) return 0;
    Rt r;
    access_at((uintptr_t)p, 4, true, true, PC());
    Sync *s = sync_at((uintptr_t)p, K_SEM);
    s->kind = K_SEM; s->val = int(v); s->vc = cur->vc;
    return 0;
}
EXPORT int sem_destroy(sem_t *p)
{
    if (!cur) return 0;
    Rt r;
    Sync *s = sync_at((uintptr_t)p, K_NONE, false);
    if (!s || s->kind != K_SEM) return 0;  // destroying a semaphore that failed to initialise
    access_at((uintptr_t)p, 4, true, true, PC());
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && g_f[i].key == (uintptr_t)p) sim_fail("sem-misuse", "semaphore destroyed while T%d(%s) waits on it", i, g_f[i].name);
    s->kind = K_SEMDEAD;
    return 0;
}
EXPORT int sem_post(sem_t *p)
{
    if (!cur) return 0;
    Rt r; point();
    SemRef s = sem_ref(p, "sem_post");
    hash_op(10, s.key); tr("sem_post %lx %d->%d", (unsigned long)objid((uintptr_t)p), *s.val, *s.val + 1);
    if (*s.val == INT_MAX) { errno = EOVERFLOW; return -1; }
    s.vc->join(cur->vc); cur->vc.c[cur->id]++;
    ++*s.val;
    wake_all(s.key);
    return 0;
}
static int sem_get(sem_t *p, const char *op, int64_t deadline, int clk, bool timed)
{
    point();
    SemRef s = sem_ref(p, op);
    hash_op(11, s.key);
    tr("%s %lx (value %d)", op, (unsigned long)objid((uintptr_t)p), *s.val);
    for (;;) {
        if (*s.val > 0) { --*s.val; cur->vc.join(*s.vc); tr("%s got it", op); return 0; }
        if (timed && (clk == CLOCK_REALTIME ? deadline - g_real_off : deadline) <= g_now) { errno = ETIMEDOUT; return -1; }
        Wake w = block(s.key, op, timed ? std::max<int64_t>(deadline, 0) : -1, clk, true);
        s = sem_ref(p, op);
        hash_op(12, s.key);
        if (w == W_INTR) { tr("%s EINTR", op); errno = EINTR; return -1; }
        if (w == W_TIMEOUT) { tr("%s ETIMEDOUT", op); errno = ETIMEDOUT; return -1; }
    }
}
static int sem_get_cancellable(sem_t *p, const char *op, int64_t deadline, int clk, bool timed)
{
    cancel_point();
    int r;
    { Rt rt; r = sem_get(p, op, deadline, clk, timed); }
    if (r) { const int e = errno; if (e == EINTR) cancel_point(); errno = e; }
    return r;
}
EXPORT int sem_wait(sem_t *p) { if (!cur) return 0; return sem_get_cancellable(p, "sem_wait", -1, 0, false); }
EXPORT int sem_trywait(sem_t *p)
{
    if (!cur) return 0;
    Rt r; point();
    SemRef s = sem_ref(p, "sem_trywait");
    hash_op(13, s.key); tr("sem_trywait %lx (value %d)", (unsigned long)objid((uintptr_t)p), *s.val);
    if (*s.val > 0) { --*s.val; cur->vc.join(*s.vc); return 0; }
    errno = EAGAIN; return -1;
}
static int sem_timed(sem_t *p, clockid_t c, const timespec *t)
{
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { Rt r; sem_ref(p, "sem_timedwait"); tr("sem_timedwait EINVAL nsec=%ld", t->tv_nsec); errno = EINVAL; return -1; }
    __int128 d = __int128(t->tv_sec) * 1000000000 + t->tv_nsec;
    if (d > 9000000000000000000ll) d = 9000000000000000000ll;
    if (d < 0) d = 0;
    return sem_get_cancellable(p, "sem_timedwait", int64_t(d), c, true);
}
EXPORT int sem_timedwait(sem_t *p, const timespec *t) { if (!cur) return 0; return sem_timed(p, CLOCK_REALTIME, t); }
EXPORT int sem_clockwait(sem_t *p, clockid_t c, const timespec *t) { if (!cur) return 0; return sem_timed(p, c == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t); }
EXPORT int sem_getvalue(sem_t *p, int *v)
{
    if (!cur) { *v = 0; return 0; }
    Rt r; point();
    SemRef s = sem_ref(p, "sem_getvalue");
    hash_op(14, s.key); tr("sem_getvalue %lx = %d", (unsigned long)objid((uintptr_t)p), *s.val);
    *v = *s.val;
    return 0;
}
static int named_find(const char *n)
{
    for (size_t i = 0; i < g_named->size(); ++i) if ((*g_named)[i].linked && (*g_named)[i].name == n) return int(i);
    return -1;
}
EXPORT sem_t *sem_open(const char *name, int oflag, ...)
{
    unsigned value = 0;
    if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); (void)va_arg(ap, mode_t); value = va_arg(ap, unsigned); va_end(ap); }
    if (!cur) return SEM_FAILED;
    Rt r; point();
    hash_op(20, oflag & (O_CREAT | O_EXCL));
    const char *nm = name; while (*nm == '/') ++nm;
    if (!*nm || strchr(nm, '/')) { errno = EINVAL; return SEM_FAILED; }
    if (strlen(nm) > NAME_MAX - 4) { errno = ENAMETOOLONG; return SEM_FAILED; }
    if (int v = fault_site(SIM_F_SEM_OPEN)) { static const int e[] = {EMFILE, ENFILE, ENOMEM, EACCES}; errno = e[v % 4]; return SEM_FAILED; }
    int i = named_find(nm);
    if (i >= 0 && (oflag & O_CREAT) && (oflag & O_EXCL)) { tr("sem_open %s: EEXIST", nm); errno = EEXIST; return SEM_FAILED; }
    if (i < 0) {
        if (!(oflag & O_CREAT)) { tr("sem_open %s: ENOENT", nm); errno = ENOENT; return SEM_FAILED; }
        if (value > INT_MAX) { errno = EINVAL; return SEM_FAILED; }
        Named n; n.name = nm; n.linked = true; n.val = int(value); n.vc = cur->vc;
        i = int(g_named->size()); g_named->push_back(n);
        tr("sem_open %s: created #%d with value %u", nm, i, value);
    } else tr("sem_open %s: opened #%d", nm, i);
    for (auto &h : *g_handles) if (h.named == i && h.proc == cur->proc && h.refs > 0) { ++h.refs; return (sem_t *)h.addr; }
    uintptr_t a = HANDLES + g_handles->size() * 64;
    if (a + 64 > HANDLES + HANDLES_SZ) _exit(93);
    g_handles->push_back({i, cur->proc, 1, a});
    return (sem_t *)a;
}
EXPORT int sem_close(sem_t *p)
{
    if (!cur) return 0;
    Rt r; point();
    uintptr_t a = (uintptr_t)p;
    if (a < HANDLES || a >= HANDLES + g_handles->size() * 64 || (*g_handles)[(a - HANDLES) / 64].refs <= 0) { errno = EINVAL; tr("sem_close EINVAL"); sim_fail("sem-misuse", "sem_close on something not open by T%d(%s)", cur->id, cur->name); }
    hash_op(21, a); tr("sem_close #%d", (*g_handles)[(a - HANDLES) / 64].named);
    --(*g_handles)[(a - HANDLES) / 64].refs;
    return 0;
}
EXPORT int sem_unlink(const char *name)
{
    if (!cur) return 0;
    Rt r; point();
    const char *nm = name; while (*nm == '/') ++nm;
    int i = named_find(nm);
    hash_op(22, 0); tr("sem_unlink %s: %s", nm, i < 0 ? "ENOENT" : "ok");
    if (i < 0) { errno = ENOENT; return -1; }
    (*g_named)[i].linked = false;
    return 0;
}
EXPORT int sim_name_exists(const char *n) { return named_find(n) >= 0 || w_name(n); }
EXPORT int sim_sem_object(const void *p)
{
    uintptr_t a = (uintptr_t)p;
    if (a < HANDLES || a >= HANDLES + g_handles->size() * 64) return w_object(p);
    return (*g_handles)[(a - HANDLES) / 64].named + 1;
}
EXPORT int sim_open_handles(int proc)
{
    int k = w_handles(proc);
    for (auto &h : *g_handles) if (h.proc == proc && h.refs > 0) ++k;
    return k;
}
EXPORT int sim_handle_refs(int proc)
{
    int k = w_handles(proc);
    for (auto &h : *g_handles) if (h.proc == proc) k += h.refs;
    return k;
}
EXPORT void sim_kill_proc(int proc)
{
    Rt r;
    tr("process %d dies", proc);
    f_fired[SIM_F_PROC_CRASH]++; f_total[SIM_F_PROC_CRASH]++;
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].proc == proc && (g_f[i].st == F_RUN || g_f[i].st == F_BLOCKED) && i != 0) { g_f[i].st = F_DEAD; g_f[i].deadline = -1; g_f[i].intr_at = 0; wake_all((uintptr_t)&g_f[i]); }
    for (auto &h : *g_handles) if (h.proc == proc) h.refs = 0;
    w_proc_dies(proc);
    recompute_deadlines();
    if (cur->st == F_DEAD) away();
}

// ------------------------------------------------------------------------------------------------ pthreads
EXPORT int pthread_create(pthread_t *h, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) noexcept
{
    if (!cur) { fprintf(stderr, "sim: pthread_create outside a run\n"); _exit(92); }
    Rt r; point();
    int det = PTHREAD_CREATE_JOINABLE;
    int inherit = PTHREAD_INHERIT_SCHED, policy = SCHED_OTHER; sched_param sp{}; size_t stack = 0;
    if (attr) {
        pthread_attr_getdetachstate(attr, &det); pthread_attr_getinheritsched(attr, &inherit); pthread_attr_getschedpolicy(attr, &policy);
        pthread_attr_getschedparam(attr, &sp); pthread_attr_getstacksize(attr, &stack);
    }
    const bool rt = inherit == PTHREAD_EXPLICIT_SCHED && policy != SCHED_OTHER;
    int err = 0;
    if (fault_site(SIM_F_THREAD_CREATE)) err = EAGAIN;
    // real time scheduling beyond what the system grants: see RLIMIT_RTPRIO; containers may refuse it altogether
    else if (rt && (sp.sched_priority > g_rtprio || fault_site(SIM_F_THREAD_ATTR))) err = EPERM;
    if (err) {
        *h = 0x6666000000000000ull + (++g_handle_seq);   // unspecified on failure; glibc leaves a stale pointer
        tr("pthread_create refused %d", err);
        return err;
    }
    Fiber *f = new_fiber("thread", cur->proc);
    f->fn = fn; f->arg = arg; f->is_thread = true; f->detached = det == PTHREAD_CREATE_DETACHED;
    if (inherit == PTHREAD_EXPLICIT_SCHED) { f->policy = policy; f->rtprio = sp.sched_priority; }
    f->stack_size = stack;
    *h = f->handle;
    hash_op(30, f->id); tr("pthread_create T%d", f->id);
    point();
    return 0;
}
EXPORT int pthread_join(pthread_t h, void **ret)
{
    if (!cur) return ESRCH;
    Rt r; point();
    Fiber *f = by_handle(h);
    tr("pthread_join T%d", f ? f->id : -1);
    if (!f || f->joined || f->detached) sim_fail("thread-misuse", "pthread_join on a thread that does not exist or cannot be joined, by T%d(%s)", cur->id, cur->name);
    if (f == cur) return EDEADLK;
    if (f->joiner >= 0) sim_fail("thread-misuse", "two threads join the same thread");
    f->joiner = cur->id;
    hash_op(31, f->id);
    join_fiber(f);
    f->handle = 0;
    if (ret) *ret = f->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t h) noexcept
{
    if (!cur) return ESRCH;
    Rt r; point();
    Fiber *f = by_handle(h);
    if (!f || f->joined || f->detached) sim_fail("thread-misuse", "pthread_detach on a thread that does not exist or is detached, by T%d(%s)", cur->id, cur->name);
    f->detached = true;
    if (f->st == F_DONE) f->joined = true;
    return 0;
}
EXPORT int pthread_cancel(pthread_t h)
{
    if (!cur) return ESRCH;
    Rt r; point();
    Fiber *f = by_handle(h);
    if (!f || f->joined || f->detached) sim_fail("thread-misuse", "pthread_cancel on a thread that does not exist or is detached, by T%d(%s)", cur->id, cur->name);
    hash_op(35, f->id); tr("pthread_cancel T%d", f->id);
    if (f->st != F_RUN && f->st != F_BLOCKED) return 0;
    f->cancel = true;
    if (f->st == F_BLOCKED && f->cancellable) make_runnable(*f, W_INTR);
    return 0;
}
EXPORT pthread_t pthread_self(void) noexcept { return cur ? cur->handle : 1; }
static int attr_call(pthread_t h, const char *what)
{
    if (!cur) return 0;
    Rt r;
    Fiber *f = by_handle(h);
    if (!f) sim_fail("thread-misuse", "%s on a thread handle that does not exist, by T%d(%s)", what, cur->id, cur->name);
    if (fault_site(SIM_F_THREAD_ATTR)) return EPERM;
    if (f->st == F_DONE) return ESRCH;
    return 0;
}
EXPORT int pthread_setaffinity_np(pthread_t h, size_t n, const cpu_set_t *c) noexcept
{
    if (int e = attr_call(h, "pthread_setaffinity_np")) return e;
    if (!cur) return 0;
    uint64_t m = 0; memcpy(&m, c, std::min(n, sizeof m));
    m &= g_cores >= 64 ? ~0ull : (1ull << g_cores) - 1;
    if (!m) return EINVAL;
    by_handle(h)->affinity = m;
    return 0;
}
EXPORT int pthread_getaffinity_np(pthread_t h, size_t n, cpu_set_t *c) noexcept
{
    if (int e = attr_call(h, "pthread_getaffinity_np")) return e;
    memset(c, 0, n);
    uint64_t m = (cur ? by_handle(h)->affinity : ~0ull) & (g_cores >= 64 ? ~0ull : (1ull << g_cores) - 1);
    memcpy(c, &m, std::min(n, sizeof m));
    return 0;
}
EXPORT int pthread_setschedprio(pthread_t h, int p) noexcept
{
    if (int e = attr_call(h, "pthread_setschedprio")) return e;
    if (!cur) return 0;
    Fiber *f = by_handle(h);
    if (f->policy == SCHED_OTHER ? p != 0 : p < 1 || p > 99) return EINVAL;
    if (p > g_rtprio && p > f->rtprio) return EPERM;
    f->rtprio = p;
    return 0;
}
EXPORT int pthread_getschedparam(pthread_t h, int *p, sched_param *sp) noexcept
{
    if (int e = attr_call(h, "pthread_getschedparam")) return e;
    *p = cur ? by_handle(h)->policy : SCHED_OTHER; sp->sched_priority = cur ? by_handle(h)->rtprio : 0;
    return 0;
}
EXPORT int pthread_setschedparam(pthread_t h, int pol, const sched_param *sp) noexcept
{
    if (int e = attr_call(h, "pthread_setschedparam")) return e;
    if (!cur) return 0;
    if (pol == SCHED_OTHER ? sp->sched_priority != 0 : sp->sched_priority < 1 || sp->sched_priority > 99) return EINVAL;
    if (pol != SCHED_OTHER && sp->sched_priority > g_rtprio) return EPERM;
    by_handle(h)->policy = pol; by_handle(h)->rtprio = sp->sched_priority;
    return 0;
}
// the attributes themselves are the real ones
static bool attr_default(int v) { return v == PTHREAD_INHERIT_SCHED; }     // the default is always accepted
template <typename T> static bool attr_default(T) { return false; }
#define ATTR_CALL(name, type) \
    EXPORT int name(pthread_attr_t *a, type v) noexcept \
    { \
        if (cur && !g_rt) { Rt r; if (!attr_default(v) && fault_site(SIM_F_THREAD_ATTR)) return EINVAL; } \
        static auto f = real<int (*)(pthread_attr_t *, type)>(#name); \
        return f(a, v); \
    }
ATTR_CALL(pthread_attr_setdetachstate, int)
ATTR_CALL(pthread_attr_setschedpolicy, int)
ATTR_CALL(pthread_attr_setinheritsched, int)
ATTR_CALL(pthread_attr_setschedparam, const sched_param *)
ATTR_CALL(pthread_attr_setstacksize, size_t)
EXPORT int pthread_attr_init(pthread_attr_t *a) noexcept
{
    if (cur && !g_rt) { Rt r; if (fault_site(SIM_F_THREAD_ATTR)) return ENOMEM; ++g_attrs; }
    static auto f = real<int (*)(pthread_attr_t *)>("pthread_attr_init");
    return f(a);
}
EXPORT int pthread_attr_destroy(pthread_attr_t *a) noexcept
{
    if (cur && !g_rt) { if (!g_attrs--) sim_fail("thread-misuse", "pthread_attr_destroy without an initialised attribute"); }
    static auto f = real<int (*)(pthread_attr_t *)>("pthread_attr_destroy");
    return f(a);
}
EXPORT int pthread_setname_np(pthread_t h, const char *n) noexcept
{
    int e = attr_call(h, "pthread_setname_np");
    if (strlen(n) > 15) return ERANGE;
    if (!e && cur) { Fiber *f = by_handle(h); snprintf(f->name, sizeof f->name, "%s", n); }
    return e;
}
EXPORT int getrlimit(__rlimit_resource_t res, rlimit *l) noexcept
{
    if (cur && res == RLIMIT_RTPRIO) { Rt r; l->rlim_cur = l->rlim_max = g_rtprio; if (fault_site(SIM_F_THREAD_ATTR)) { errno = EPERM; return -1; } return 0; }
    static auto f = real<int (*)(int, rlimit *)>("getrlimit");
    return f(int(res), l);
}
EXPORT int sched_getcpu(void) noexcept { return cur ? cur->id % g_cores : 0; }
EXPORT int sched_yield(void) noexcept { if (active()) { Rt r; point(true); } return 0; }
EXPORT long sysconf(int n) noexcept
{
    if (cur && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return g_cores;
    static auto f = real<long (*)(int)>("sysconf");
    return f(n);
}

// ---- the other system
#include "win32/kernel.inc"

// ---- mutexes
static int m_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static Sync *m_sync(pthread_mutex_t *m, uintptr_t pc)
{
    access_at((uintptr_t)m, 4, true, true, pc);
    return sync_at((uintptr_t)m, K_MUTEX);
}
static int m_lock(pthread_mutex_t *m, int64_t deadline, int clk, bool timed, uintptr_t pc)
{
    point();
    Sync *s = m_sync(m, pc);
    hash_op(40, (uintptr_t)m); tr("lock   %lx%s", (unsigned long)objid((uintptr_t)m), s->owner >= 0 ? " (held)" : "");
    for (;;) {
        if (s->owner < 0) { s->owner = cur->id; s->count = 1; acquire(s); return 0; }
        if (s->owner == cur->id && m_kind(m) == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
        if (s->owner == cur->id && m_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        Wake w = block((uintptr_t)m, "mutex lock", timed ? deadline : -1, clk, false);
        s = m_sync(m, pc);
        if (w == W_TIMEOUT) return ETIMEDOUT;
    }
}
static int64_t ts_ns(const timespec *t)
{
    __int128 d = __int128(t->tv_sec) * 1000000000 + t->tv_nsec;
    if (d > 9000000000000000000ll) d = 9000000000000000000ll;
    return d < 0 ? 0 : int64_t(d);
}
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept
{
    memset((void *)m, 0, sizeof *m);
    if (a) m->__data.__kind = *(const int *)a & 3;
    if (cur) { Rt r; Sync *s = m_sync(m, PC()); s->owner = -1; s->count = 0; }
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) noexcept
{
    if (!cur) return 0;
    Rt r; Sync *s = m_sync(m, PC());
    if (s->owner >= 0) sim_fail("mutex-misuse", "a held mutex is destroyed by T%d(%s)", cur->id, cur->name);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!active()) return 0; Rt r; return m_lock(m, -1, 0, false, PC()); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) noexcept { if (!active()) return 0; Rt r; return m_lock(m, ts_ns(t), CLOCK_REALTIME, true, PC()); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) noexcept { if (!active()) return 0; Rt r; return m_lock(m, ts_ns(t), c, true, PC()); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (!active()) return 0;
    Rt r; point();
    Sync *s = m_sync(m, PC());
    hash_op(41, (uintptr_t)m);
    if (s->owner < 0) { s->owner = cur->id; s->count = 1; acquire(s); return 0; }
    if (s->owner == cur->id && m_kind(m) == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
    return EBUSY;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (!active()) return 0;
    Rt r; point();
    Sync *s = m_sync(m, PC());
    hash_op(42, (uintptr_t)m); tr("unlock %lx", (unsigned long)objid((uintptr_t)m));
    if (s->owner != cur->id) sim_fail("mutex-misuse", "T%d(%s) unlocks a mutex it does not hold", cur->id, cur->name);
    if (--s->count == 0) { release(s); s->owner = -1; wake_all((uintptr_t)m); }
    return 0;
}
// ---- condition variables
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { memset((void *)c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, int clk, bool timed, uintptr_t pc)
{
    point();
    access_at((uintptr_t)c, 4, true, true, pc);
    hash_op(50, (uintptr_t)c); tr("cond_wait %lx", (unsigned long)objid((uintptr_t)c));
    Sync *s = m_sync(m, pc);
    if (s->owner != cur->id) sim_fail("mutex-misuse", "T%d(%s) waits on a condition without holding its mutex", cur->id, cur->name);
    int cnt = s->count; s->count = 0; release(s); s->owner = -1; wake_all((uintptr_t)m);
    Wake w = W_WOKEN;
    if (!fault_site(SIM_F_SPURIOUS)) w = block((uintptr_t)c, "cond_wait", timed ? deadline : -1, clk, false);
    m_lock(m, -1, 0, false, pc);
    m_sync(m, pc)->count = cnt;
    return w == W_TIMEOUT ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) return 0; Rt r; return c_wait(c, m, -1, 0, false, PC()); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
    if (!active()) return 0;
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    Rt r; return c_wait(c, m, ts_ns(t), CLOCK_REALTIME, true, PC());
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
    if (!active()) return 0;
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    Rt r; return c_wait(c, m, ts_ns(t), k, true, PC());
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!active()) return 0; Rt r; point(); access_at((uintptr_t)c, 4, true, true, PC()); hash_op(51, (uintptr_t)c); wake_one((uintptr_t)c); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!active()) return 0; Rt r; point(); access_at((uintptr_t)c, 4, true, true, PC()); hash_op(52, (uintptr_t)c); wake_all((uintptr_t)c); return 0; }
// ---- rwlocks and spinlocks
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) noexcept { memset((void *)l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
static int rw(pthread_rwlock_t *l, bool w, bool tryonly)
{
    point(); access_at((uintptr_t)l, 4, true, true, g_exe_base);
    Sync *s = sync_at((uintptr_t)l, K_RW); hash_op(w ? 61 : 60, (uintptr_t)l);
    for (;;) {
        if (w ? (s->owner < 0 && s->count == 0) : s->owner < 0) { if (w) s->owner = cur->id; else ++s->count; acquire(s); return 0; }
        if (tryonly) return EBUSY;
        block((uintptr_t)l, "rwlock", -1, 0, false);
    }
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { if (!active()) return 0; Rt r; return rw(l, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { if (!active()) return 0; Rt r; return rw(l, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { if (!active()) return 0; Rt r; return rw(l, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { if (!active()) return 0; Rt r; return rw(l, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
{
    if (!active()) return 0;
    Rt r; point(); Sync *s = sync_at((uintptr_t)l, K_RW); hash_op(62, (uintptr_t)l);
    release(s);
    if (s->owner == cur->id) s->owner = -1; else if (s->count > 0) --s->count;
    wake_all((uintptr_t)l); return 0;
}
EXPORT int pthread_spin_init(pthread_spinlock_t *l, int) noexcept { *l = 0; return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t *l) noexcept { if (!active()) return 0; Rt r; point(); Sync *s = sync_at((uintptr_t)l, K_SPIN); while (s->owner >= 0) block((uintptr_t)l, "spin", -1, 0, false); s->owner = cur->id; acquire(s); return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t *l) noexcept { if (!active()) return 0; Rt r; point(); Sync *s = sync_at((uintptr_t)l, K_SPIN); if (s->owner >= 0) return EBUSY; s->owner = cur->id; acquire(s); return 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { if (!active()) return 0; Rt r; point(); Sync *s = sync_at((uintptr_t)l, K_SPIN); release(s); s->owner = -1; wake_all((uintptr_t)l); return 0; }
// ---- once and static initialisation
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (!active()) { if (*o != 2) { *o = 2; fn(); } return 0; }
    Rt r; point(); Sync *s = sync_at((uintptr_t)o, K_ONCE);
    while (*o == 1) block((uintptr_t)o, "once", -1, 0, false);
    if (*o == 2) { acquire(s); return 0; }
    *o = 1;
    { g_rt = false; fn(); g_rt = true; }
    *o = 2; release(s); wake_all((uintptr_t)o);
    return 0;
}
namespace __cxxabiv1 {
EXPORT int __cxa_guard_acquire(uint64_t *g)
{
    char *b = (char *)g;
    if (b[0]) return 0;
    // statics of other libraries are initialised once per process, not once per run: no event
    if (!active() || (uintptr_t)g < g_data_lo || (uintptr_t)g >= g_data_hi) { return 1; }
    Rt r; point();
    for (;;) {
        if (b[0]) { acquire(sync_at((uintptr_t)g, K_NONE)); return 0; }
        sync_at((uintptr_t)g, K_ONCE);
        if (!b[1]) { b[1] = 1; return 1; }
        block((uintptr_t)g, "static initialisation", -1, 0, false);
    }
}
EXPORT void __cxa_guard_release(uint64_t *g)
{
    char *b = (char *)g;
    b[1] = 0;
    if (!active() || (uintptr_t)g < g_data_lo || (uintptr_t)g >= g_data_hi) { b[0] = 1; return; }
    Rt r; Sync *s = sync_at((uintptr_t)g, K_ONCE);
    release(s);
    // what a later inlined acquire load of the guard byte synchronises with
    s->kind = K_ATOMIC; b[0] = 1; wake_all((uintptr_t)g);
}
EXPORT void __cxa_guard_abort(uint64_t *g) { char *b = (char *)g; b[1] = 0; if (active()) { Rt r; wake_all((uintptr_t)g); } }
}
// ---- time
EXPORT int clock_gettime(clockid_t c, timespec *t) noexcept
{
    if (!cur || g_rt) { static auto f = real<int (*)(clockid_t, timespec *)>("clock_gettime"); return f(c, t); }
    Rt r;
    if (!cur->quiet) {
        point();
        if (int v = fault_site(SIM_F_CLOCK_JUMP)) {
            static const int64_t j[] = {1000000, -1000000, 1000000000, -1000000000, 3600000000000, -3600000000000, 300000000, -300000000};
            g_real_off += j[(v - 1) % 8]; recompute_deadlines();
        }
    }
    int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_now + g_real_off : g_now;
    if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) n -= n % 4000000;       // they tick 250 times a second
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
EXPORT int gettimeofday(timeval *tv, void *) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static int do_sleep(int64_t until, int clk, int64_t *left)
{
    for (;;) {
        int64_t d = clk == CLOCK_REALTIME ? until - g_real_off : until;
        if (d <= g_now) return 0;
        Wake w = block((uintptr_t)&cur->key, "sleep", until, clk, true);
        hash_op(72, w);
        if (w == W_INTR) { d = clk == CLOCK_REALTIME ? until - g_real_off : until; if (left) *left = std::max<int64_t>(0, d - g_now); return EINTR; }
        if (w == W_TIMEOUT) return 0;
    }
}
static int64_t until_(int64_t d) { const int64_t end = 9000000000000000000ll; return d > end - g_now ? end : g_now + d; }
static int nanosleep_(const timespec *q, timespec *rem)
{
    Rt r; point();
    if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) { errno = EINVAL; return -1; }
    tr("nanosleep %ld.%09ld", long(q->tv_sec), q->tv_nsec);
    int64_t left = 0, d = ts_ns(q);
    hash_op(70, 0);
    int e = do_sleep(until_(d), CLOCK_MONOTONIC, &left);
    if (e && rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
    if (e) { errno = e; return -1; }
    return 0;
}
EXPORT int nanosleep(const timespec *q, timespec *rem)
{
    if (!active()) return 0;
    cancel_point();
    const int r = nanosleep_(q, rem), e = errno;
    if (r && e == EINTR) cancel_point();
    errno = e;
    return r;
}
static int clock_nanosleep_(clockid_t c, int flags, const timespec *q, timespec *rem)
{
    Rt r; point();
    if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) return EINVAL;
    int clk = c == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC;
    int64_t until = ts_ns(q), left = 0;
    if (!(flags & TIMER_ABSTIME)) { until = until_(until); clk = CLOCK_MONOTONIC; }
    hash_op(71, 0);
    int e = do_sleep(until, clk, &left);
    if (e && rem && !(flags & TIMER_ABSTIME)) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
    return e;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const timespec *q, timespec *rem)
{
    if (!active()) return 0;
    cancel_point();
    const int r = clock_nanosleep_(c, flags, q, rem);
    if (r == EINTR) cancel_point();
    return r;
}
EXPORT int usleep(useconds_t u) { timespec t{time_t(u / 1000000), long(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { timespec t{time_t(s), 0}, rem{0, 0}; return nanosleep(&t, &rem) ? unsigned(rem.tv_sec) : 0; }
// ---- raw futexes (std::future and friends)
EXPORT long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a[6]; for (auto &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active()) {
        Rt r; point();
        int op = int(a[1]) & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *)a[0] != int(a[2])) { errno = EAGAIN; return -1; }
            int64_t dl = -1; int clk = CLOCK_MONOTONIC;
            if (a[3]) { dl = ts_ns((timespec *)a[3]); if (op == FUTEX_WAIT) dl += g_now; else if (a[1] & FUTEX_CLOCK_REALTIME) clk = CLOCK_REALTIME; }
            Wake w = block(uintptr_t(a[0]), "futex", dl, clk, true);
            if (w == W_TIMEOUT) { errno = ETIMEDOUT; return -1; }
            if (w == W_INTR) { errno = EINTR; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { if (a[2] == 1) { wake_one(uintptr_t(a[0])); return 1; } return wake_all(uintptr_t(a[0])); }
    }
    static auto f = real<long (*)(long, ...)>("syscall");
    return f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ------------------------------------------------------------------------------------------------ one run
static void run_reset()
{
    g_gen++; g_nsync = 0; g_sync_size = NSYNC;
    if (g_brk > ARENA) {
        memset((void *)g_sh_arena, 0, ((g_brk - ARENA + 64) >> 3) * sizeof(Shadow));
        memset(g_state, 0, (g_brk - ARENA + 64) >> 3);
    }
    for (int i = 0; i < MAXF; ++i) if (g_f[i].used) {
        uintptr_t top = STACKS + (i + 1) * STACK_SZ, low = g_f[i].stack_low & ~7ull;
        if (low < top) { memset((void *)(g_sh_stack + ((low - STACKS) >> 3)), 0, ((top - low) >> 3) * sizeof(Shadow)); memset((void *)low, 0xcc, top - low); }
        auto *t = g_f[i].tls; g_f[i] = Fiber{}; g_f[i].tls = t;
    }
    if (t_data_hi > t_data_lo) {
        uintptr_t b = g_data_lo & ~7ull, lo = (t_data_lo - b) >> 3, hi = (t_data_hi - b + 7) >> 3;
        memset((void *)(g_sh_data + lo), 0, (hi - lo) * sizeof(Shadow));
    }
    t_data_lo = UINTPTR_MAX; t_data_hi = 0;
    g_brk = ARENA; g_brk2 = ARENA2; g_live = 0; g_allocs->clear();
    for (size_t i = 0; i < REUSE_MAX >> 3; ++i) g_freed[i].clear();
    g_named->clear(); g_handles->clear(); g_wobj->clear(); g_whnd->clear();
    memcpy((void *)g_data_lo, g_data_snapshot->data(), g_data_hi - g_data_lo);
    g_nf = 0; g_handle_seq = 0; g_dec = g_fsite = 0;
    g_step = g_stamp = g_samerun = g_hash = g_switches = 0;
    g_adv = 6000; g_hard = 60000; g_reuse_forced = 0;
    g_now = 1000000000; g_real_off = 1700000000ll * 1000000000 - g_now; g_next_deadline = INT64_MAX;
    g_fine_allowed = true; g_race_on = true; g_leftover_ok = false; g_cores = 4; g_rtprio = 0; g_attrs = 0;
    memset(f_permille, 0, sizeof f_permille); memset(f_budget, 0, sizeof f_budget); memset(f_fired, 0, sizeof f_fired);
    v_set = false; v_cls[0] = v_msg[0] = 0; v_nbt = 0; g_discard = false;
    t_cpos = t_spos = t_fpos = 0;
}

static void scn_thunk(void *) { g_scn(); }

static void run_one(uint64_t seed)
{
    run_reset();
    g_seed = seed;
    if (!g_replay) {
        uint64_t x = seed; r_work.s = splitmix(x); r_sched.s = splitmix(x); r_fault.s = splitmix(x);
        t_choices->clear(); t_sched->clear(); t_faults->clear();
        Rng c; c.s = splitmix(x);
        uint32_t k = c.below(100);
        g_strat = k < 45 ? ST_RANDOM : k < 75 ? ST_PCT : k < 92 ? ST_VICTIM : ST_RR;
        static const uint32_t ps[] = {1000, 700, 500, 300, 150, 60, 25, 10};
        g_p = ps[c.below(8)];
        g_finegrain_mode = c.below(100) < 25;
        g_reuse_mode = c.below(100) < 20;
        g_quantum = 1 + c.below(30);
        g_pct_left = int(c.below(5)); g_prio_low = 0;
        uint64_t len = 32ull << c.below(8);
        g_pct_points->clear();
        for (int i = 0; i < g_pct_left; ++i) g_pct_points->push_back(c.below(uint32_t(len)));
        std::sort(g_pct_points->rbegin(), g_pct_points->rend());
        g_victim = -1; g_victim_until = 0;
    }
    g_fine = g_finegrain_mode;
    g_rt = true;
    Fiber *f = new_fiber("main", 0);
    f->cfn = scn_thunk;
    cur = f;
    tls_load(f->tls);
    void *eh[2]; memcpy(eh, __cxxabiv1::__cxa_get_globals(), sizeof eh);
    sim_ctx_switch(&g_main_sp, f->sp);
    memcpy(__cxxabiv1::__cxa_get_globals(), eh, sizeof eh);
    cur = nullptr; g_rt = false;
    if (!v_set && !g_discard && !g_leftover_ok) {
        int left = 0; char names[200]; int n = 0; names[0] = 0;
        for (int i = 1; i < g_nf; ++i) if (g_f[i].st == F_RUN || g_f[i].st == F_BLOCKED) { ++left; if (n < 150) n += snprintf(names + n, sizeof names - n, " T%d(%s)", i, g_f[i].name); }
        if (left) { v_set = true; snprintf(v_cls, sizeof v_cls, "thread-leak"); snprintf(v_msg, sizeof v_msg, "%d thread(s) still exist at the end of the run:%s", left, names); }
    }
}

// ------------------------------------------------------------------------------------------------ driver
static const char *g_out; static const char *g_variant = "";
static uint64_t g_base, g_idx;
static char g_tracefile[512];

static void write_trace(const char *path)
{
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) return;
    std::string s; char b[160];
    auto add = [&](const char *fmt, auto... a) { snprintf(b, sizeof b, fmt, a...); s += b; };
    add("scenario %s\n", g_scn_name); add("variant %s\n", g_variant);
    add("seed %lu\n", (unsigned long)g_seed); add("fine %d\n", g_finegrain_mode | g_reuse_mode << 1);
    s += "choices"; for (auto c : *t_choices) add(" %u", c);
    s += "\nsched"; for (auto &d : *t_sched) add(" %u:%u", d.idx, unsigned(d.val));
    s += "\nfaults"; for (auto &d : *t_faults) add(" %u:%u", d.idx, unsigned(d.val));
    add("\nsteps %lu\n", (unsigned long)g_step); add("decisions %u\n", g_dec); add("hash %016lx\n", (unsigned long)g_hash);
    s += "class "; s += v_cls; s += "\nmessage "; s += v_msg; s += "\nbt";
    for (int i = 0; i < v_nbt; ++i) add(" 0x%lx", (unsigned long)(v_bt[i] - g_exe_base));
    s += "\n";
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}

static void on_crash(int sig, siginfo_t *si, void *uc)
{
    static int depth;
    if (depth++) _exit(91);
    g_rt = true;
    auto *m = &((ucontext_t *)uc)->uc_mcontext;
    uintptr_t rip = m->gregs[REG_RIP], rbp = m->gregs[REG_RBP];
    if (!v_set) {
        const char *cls = sig == SIGABRT ? "terminate" : sig == SIGTRAP ? "assertion" : sig == SIGALRM || sig == SIGPROF ? "hang" : "crash";
        snprintf(v_cls, sizeof v_cls, "%s", cls);
        // an address in a system library differs from process to process
        char at[32] = " in a system library";
        const bool own = rip - g_exe_base < g_exe_size;
        if (own) snprintf(at, sizeof at, " pc=0x%lx", (unsigned long)(rip - g_exe_base));
        snprintf(v_msg, sizeof v_msg, "%s (signal %d) in T%d(%s)%s", sig == SIGABRT ? "std::terminate or abort" : sig == SIGTRAP ? "library assertion failed" : sig == SIGPROF ? "no scheduling point reached for 5 s of processor time" : strsignal(sig),
                 sig, cur ? cur->id : -1, cur ? cur->name : "driver", at);
        if (own) walk_bt(rbp, rip);
        else {
            // no frame pointers there: whatever looks like a return address
            v_nbt = 0;
            uintptr_t *sp = (uintptr_t *)m->gregs[REG_RSP], *end = (uintptr_t *)(STACKS + (((uintptr_t)sp - STACKS) / STACK_SZ + 1) * STACK_SZ);
            if ((uintptr_t)sp >= STACKS && (uintptr_t)sp < STACKS + STACKS_SZ) for (int i = 0; i < 2000 && sp + i < end && v_nbt < 12; ++i) if (sp[i] - g_exe_base < g_exe_size && sp[i] - g_exe_base >= 4096) v_bt[v_nbt++] = sp[i];
        }
        v_set = true;
    }
    if (!cur && sig != SIGPROF) { static const char e[] = "sim: crash outside a run\n"; if (write(2, e, sizeof e - 1) < 0) {} _exit(90); }
    write_trace(g_tracefile);
    fflush(stdout);
    _exit(3);
}
static void on_prof(int sig, siginfo_t *si, void *uc)
{
    static uint64_t last_step = ~0ull, last_seed; static int n;
    if (!cur) { n = 0; return; }
    if (g_step == last_step && g_seed == last_seed) { if (++n >= 5) on_crash(sig, si, uc); }
    else { n = 0; last_step = g_step; last_seed = g_seed; }
}

static uint64_t run_seed(uint64_t base, uint64_t i) { uint64_t x = base * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 0x1234567; splitmix(x); return splitmix(x); }

static void load_trace(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f) { fprintf(stderr, "sim: cannot read %s\n", path); _exit(2); }
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char *p = strchr(line, ' ');
        if (!p) continue;
        *p++ = 0;
        if (!strcmp(line, "seed")) g_seed = strtoull(p, nullptr, 10);
        else if (!strcmp(line, "fine")) g_finegrain_mode = atoi(p) & 1, g_reuse_mode = atoi(p) >> 1 & 1;
        else if (!strcmp(line, "choices")) { char *e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; t_choices->push_back(uint32_t(v)); p = e; } }
        else if (!strcmp(line, "sched") || !strcmp(line, "faults")) {
            auto *t = !strcmp(line, "sched") ? t_sched : t_faults; char *e;
            for (;;) { unsigned long i = strtoul(p, &e, 10); if (e == p || *e != ':') break; p = e + 1; unsigned long v = strtoul(p, &e, 10); t->push_back({uint32_t(i), uint16_t(v)}); p = e; }
        }
    }
    free(line); fclose(f);
}

EXPORT int sim_main(int argc, char **argv, const char *name, sim_scenario_fn fn)
{
    g_scn_name = name; g_scn = fn;
    auto map = [](uintptr_t a, size_t n) {
        void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("sim: mmap"); _exit(89); }
        return p;
    };
    map(ARENA, ARENA_SZ); map(STACKS, STACKS_SZ); map(ARENA2, ARENA2_SZ); map(HANDLES, HANDLES_SZ);
    for (int i = 0; i < MAXF; ++i) mprotect((void *)(STACKS + i * STACK_SZ), GUARD, PROT_NONE);
    g_sh_arena = (Shadow *)map(0, (ARENA_SZ >> 3) * sizeof(Shadow));
    g_sh_stack = (Shadow *)map(0, (STACKS_SZ >> 3) * sizeof(Shadow));
    g_state = (uint8_t *)map(0, ARENA_SZ >> 3);
    g_sync = (Sync *)map(0, sizeof(Sync) * NSYNC_MANY);
    dl_iterate_phdr(phdr_cb, nullptr);
    g_sh_data = (Shadow *)map(0, (((g_data_hi - g_data_lo) >> 3) + 64) * sizeof(Shadow));
    t_choices = new std::vector<uint32_t>; t_sched = new std::vector<Dec>; t_faults = new std::vector<Dec>;
    g_pct_points = new std::vector<uint64_t>; g_allocs = new std::vector<Alloc>; g_freed = new std::vector<uint32_t>[REUSE_MAX >> 3]; g_named = new std::vector<Named>; g_handles = new std::vector<Handle>;
    __libc_single_threaded = 0;
    g_data_snapshot = new std::vector<char>((char *)g_data_lo, (char *)g_data_hi);
    t_data_lo = UINTPTR_MAX; t_data_hi = 0; g_brk = ARENA;

    double time_limit = 10; uint64_t maxn = UINT64_MAX, first = 0, stride = 1; std::string replay, known; bool hash_log = false; bool one = false; uint64_t oneseed = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--seed") g_base = strtoull(val(), nullptr, 10);
        else if (a == "--first") first = strtoull(val(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
        else if (a == "--time") time_limit = atof(val());
        else if (a == "--max") maxn = strtoull(val(), nullptr, 10);
        else if (a == "--out") g_out = val();
        else if (a == "--variant") g_variant = val();
        else if (a == "--replay") replay = val();
        else if (a == "--one") { one = true; oneseed = strtoull(val(), nullptr, 10); }
        else if (a == "--trace") g_trace = true;
        else if (a == "--known") known = val();
        else if (a == "--hashlog") hash_log = true;
        else { fprintf(stderr, "sim: unknown option %s\n", a.c_str()); return 2; }
    }
    snprintf(g_tracefile, sizeof g_tracefile, "%s.trace", g_out ? g_out : "/dev/null");
    // crash handling on its own stack
    stack_t ss{}; ss.ss_size = 256 * 1024; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT}) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_prof; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, nullptr);

    if (!replay.empty() || one) {
        if (!replay.empty()) { g_replay = true; load_trace(replay.c_str()); }
        run_one(one ? oneseed : g_seed);
        if (one || g_out) write_trace(g_tracefile);
        fflush(stdout);
        printf("result class=%s hash=%016lx steps=%lu decisions=%u message=%s\n", v_set ? v_cls : "ok", (unsigned long)g_hash, (unsigned long)g_step, g_dec, v_set ? v_msg : "");
        if (v_nbt && v_set) { printf("bt"); for (int i = 0; i < v_nbt; ++i) printf(" 0x%lx", (unsigned long)(v_bt[i] - g_exe_base)); printf("\n"); }
        fflush(stdout);
        _exit(v_set ? 3 : 0);
    }

    // search: the code under test may print
    int saved_out = dup(1);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    int64_t t0 = wall_ns(), t_end = t0 + int64_t(time_limit * 1e9);
    uint64_t runs = 0, steps = 0, switches = 0, discarded = 0, nontrivial = 0, known_hits = 0; double simt = 0; uint64_t sched_len = 0;
    auto *seen = new std::unordered_set<uint64_t>; std::string kf; int rc = 0; uint64_t i;
    FILE *hl = hash_log ? fopen((std::string(g_out) + ".hashes").c_str(), "w") : nullptr;
    for (i = first; runs < maxn; i += stride) {
        if ((runs & 15) == 0 && wall_ns() > t_end) break;
        g_idx = i;
        run_one(run_seed(g_base, i));
        ++runs; steps += g_step; switches += g_switches; simt += double(g_now - 1000000000) / 1e9; sched_len += t_sched->size();
        if (g_discard) { ++discarded; }
        else {
            if (g_switches > 1 || t_sched->size()) { ++nontrivial; if (seen->size() < 4000000) seen->insert(g_hash); }
        }
        if (hl) fprintf(hl, "%lu %016lx %lu %s\n", (unsigned long)i, (unsigned long)g_hash, (unsigned long)g_step, v_set ? v_cls : "ok");
        if (v_set) {
            bool is_known = false;
            size_t pos = 0;
            while (pos < known.size()) { size_t e = known.find(',', pos); if (e == std::string::npos) e = known.size(); if (known.compare(pos, e - pos, v_cls) == 0 && e - pos == strlen(v_cls)) is_known = true; pos = e + 1; }
            if (is_known) {
                ++known_hits;
                std::string p = std::string(g_out) + ".known." + v_cls;
                if (access(p.c_str(), F_OK) != 0) write_trace(p.c_str());
                sim_probe((std::string("known:") + v_cls).c_str());
                continue;
            }
            write_trace(g_tracefile); rc = 3; i += stride; break;
        }
    }
    if (hl) fclose(hl);
    if (g_out) {
        FILE *f = fopen(g_out, "w");
        if (f) {
            fprintf(f, "{\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"discarded\":%lu,\"nontrivial\":%lu,\"distinct\":%lu,\"sim_seconds\":%.6f,\"wall\":%.3f,\"next\":%lu,\"known_hits\":%lu,\"forced_switches\":%lu,\"violation\":%s,\"faults\":{",
                    (unsigned long)runs, (unsigned long)steps, (unsigned long)switches, (unsigned long)discarded, (unsigned long)nontrivial, (unsigned long)seen->size(), simt, double(wall_ns() - t0) / 1e9, (unsigned long)i, (unsigned long)known_hits, (unsigned long)sched_len, rc ? "true" : "false");
            static const char *names[] = {"EINTR", "THREAD_CREATE", "THREAD_ATTR", "CLOCK_JUMP", "STALL", "SEM_OPEN", "ALLOC", "CAS_WEAK", "SPURIOUS", "PROC_CRASH"};
            for (int k = 0; k < SIM_F_COUNT; ++k) fprintf(f, "%s\"%s\":%lu", k ? "," : "", names[k], (unsigned long)f_total[k]);
            fprintf(f, "},\"probes\":{");
            for (int k = 0; k < g_nprobes; ++k) fprintf(f, "%s\"%s\":%lu", k ? "," : "", g_probes[k].name, (unsigned long)g_probes[k].n);
            fprintf(f, "}}\n");
            fclose(f);
        }
        int fd = open((std::string(g_out) + ".distinct").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { std::vector<uint64_t> v(seen->begin(), seen->end()); size_t off = 0; while (off < v.size() * 8) { ssize_t w = write(fd, (char *)v.data() + off, v.size() * 8 - off); if (w <= 0) break; off += size_t(w); } close(fd); }
    }
    dup2(saved_out, 1);
    _exit(rc);
}
