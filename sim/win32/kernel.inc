// Win32 kernel objects, handles, waits and threads, as their documentation describes them. Included by sim.cpp.
//  * a handle belongs to a process; an object lives, and its name denotes it, until the last handle to it is closed
//  * a wait takes what it waited for: a token, the ownership of a mutex, the signal of an auto reset event
//  * mutexes belong to threads, which may take them repeatedly; one whose owner is gone is handed over as abandoned
//  * alertable calls are ended by asynchronous procedure calls, here the fault EINTR
//  * times are milliseconds since the call, on a clock nobody sets; 0xFFFFFFFF is for ever
//  * a terminated thread unwinds nothing
#include "windows.h"

enum WKind { WO_MANUAL, WO_AUTO, WO_SEM, WO_MUTEX, WO_THREAD };
static const char *const wkind_name[] = {"event", "event", "semaphore", "mutex", "thread"};
struct WObj { WKind kind; std::string name; int refs; int64_t val, max; int owner, count; bool abandoned; VC vc; int fiber; uint64_t thread; };
struct WHnd { int obj, proc; bool open; };
static std::vector<WObj> *g_wobj = new std::vector<WObj>;
static std::vector<WHnd> *g_whnd = new std::vector<WHnd>;
static constexpr uintptr_t WHANDLES = 0x240000000000ull, WSELF = WHANDLES - 64;
static const uintptr_t WANY = 0x7ffff;        // those who wait for several objects

static HANDLE wfail(DWORD e) { cur->werr = e; return nullptr; }
static bool wfalse(DWORD e) { cur->werr = e; return false; }
static uintptr_t wkey(int obj) { return 0x80000u + uintptr_t(obj); }
static int windex(HANDLE h) { uintptr_t a = (uintptr_t)h; return a >= WHANDLES && (a - WHANDLES) % 64 == 0 && (a - WHANDLES) / 64 < g_whnd->size() ? int((a - WHANDLES) / 64) : -1; }
// The object behind a handle, -1 for none. A handle that was closed may since denote anything.
static int wobj(HANDLE h, const char *op, int kinds)
{
    if (!h) { cur->werr = ERROR_INVALID_HANDLE; return -1; }
    const int i = windex(h);
    if (i < 0 || !(*g_whnd)[i].open || (*g_whnd)[i].proc != cur->proc) sim_fail("handle-misuse", "%s on a handle that is closed or belongs to another process, by T%d(%s)", op, cur->id, cur->name);
    const int o = (*g_whnd)[i].obj;
    if (!(kinds & 1 << (*g_wobj)[o].kind)) { cur->werr = ERROR_INVALID_HANDLE; return -1; }
    return o;
}
static Fiber *wthread(HANDLE h, const char *op)
{
    if ((uintptr_t)h == WSELF) return cur;
    const int o = wobj(h, op, 1 << WO_THREAD);
    return o < 0 ? nullptr : by_handle((*g_wobj)[o].thread);
}
static HANDLE whandle(int obj)
{
    ++(*g_wobj)[obj].refs;
    g_whnd->push_back({obj, cur->proc, true});
    return (HANDLE)(WHANDLES + (g_whnd->size() - 1) * 64);
}
static void wrelease(WObj &o) { o.vc.join(cur->vc); cur->vc.c[cur->id]++; }
static void wsignal(int obj) { wake_all(wkey(obj)); wake_all(WANY); }
static void wdrop(int i)
{
    WHnd &h = (*g_whnd)[i];
    h.open = false;
    WObj &o = (*g_wobj)[h.obj];
    if (--o.refs) return;
    o.name.clear();
    if (o.kind != WO_THREAD) return;
    if (Fiber *f = by_handle(o.thread)) { f->detached = true; if (f->st == F_DONE || f->st == F_DEAD) f->joined = true; }
}
static uint64_t wcores() { return g_cores >= 64 ? ~0ull : (1ull << g_cores) - 1; }
// A thread is over: its mutexes are abandoned, those who wait for it go on.
static void w_thread_over(Fiber *f)
{
    for (size_t i = 0; i < g_wobj->size(); ++i) {
        WObj &o = (*g_wobj)[i];
        if (o.kind == WO_MUTEX && o.owner == f->id && o.count) { o.count = 0; o.owner = -1; o.abandoned = true; o.vc.join(f->vc); wsignal(int(i)); tr("mutex #%zu abandoned", i); }
        if (o.kind == WO_THREAD && o.thread == f->handle) wsignal(int(i));
    }
}
static void w_proc_dies(int proc)
{
    for (size_t i = 0; i < g_whnd->size(); ++i) if ((*g_whnd)[i].proc == proc && (*g_whnd)[i].open) wdrop(int(i));
    for (int i = 0; i < g_nf; ++i) if (g_f[i].proc == proc && g_f[i].st == F_DEAD) w_thread_over(&g_f[i]);
}
static HANDLE wmake(WKind k, const char *name, int64_t val, int64_t max, bool open)
{
    if (!cur) return nullptr;
    Rt r; point();
    hash_op(open ? 71 : 70, k);
    if (open && !name) return wfail(ERROR_INVALID_PARAMETER);
    if (fault_site(SIM_F_SEM_OPEN)) return wfail(ERROR_NOT_ENOUGH_MEMORY);
    if (k == WO_SEM && !open && (max <= 0 || val < 0 || val > max)) return wfail(ERROR_INVALID_PARAMETER);
    if (name && strlen(name) > 260) return wfail(ERROR_FILENAME_EXCED_RANGE);
    if (name && strchr(name, '\\') && strncmp(name, "Global\\", 7) && strncmp(name, "Local\\", 6)) return wfail(ERROR_PATH_NOT_FOUND);
    if (name && *name)
        for (size_t i = 0; i < g_wobj->size(); ++i) {
            if ((*g_wobj)[i].name != name) continue;
            const WKind was = (*g_wobj)[i].kind;
            if (was != k && !(k <= WO_AUTO && was <= WO_AUTO)) return wfail(ERROR_INVALID_HANDLE);
            tr("open %s %s: #%zu", wkind_name[k], name, i);
            cur->werr = open ? ERROR_SUCCESS : ERROR_ALREADY_EXISTS;
            return whandle(int(i));
        }
    if (open) { tr("open %s %s: none", wkind_name[k], name); return wfail(ERROR_FILE_NOT_FOUND); }
    WObj o{};
    o.kind = k; if (name) o.name = name; o.val = val; o.max = max; o.owner = -1; o.fiber = -1; o.vc.join(cur->vc);
    if (k == WO_MUTEX && val) { o.owner = cur->id; o.count = 1; }
    g_wobj->push_back(o);
    tr("create %s #%zu %s", wkind_name[k], g_wobj->size() - 1, name ? name : "");
    cur->werr = ERROR_SUCCESS;
    return whandle(int(g_wobj->size()) - 1);
}
// whether it could be taken
static bool wready(int obj)
{
    WObj &o = (*g_wobj)[obj];
    if (o.kind == WO_MUTEX) return !o.count || o.owner == cur->id;
    if (o.kind != WO_THREAD) return o.val != 0;
    Fiber *f = by_handle(o.thread);
    return !f || f->st == F_DONE || f->st == F_DEAD;
}
// 0: not signalled. Otherwise takes it.
static bool wtake(int obj, DWORD &result)
{
    WObj &o = (*g_wobj)[obj];
    result = WAIT_OBJECT_0;
    switch (o.kind) {
    case WO_MANUAL: if (!o.val) return false; break;
    case WO_AUTO: if (!o.val) return false; o.val = 0; break;
    case WO_SEM: if (!o.val) return false; --o.val; break;
    case WO_MUTEX:
        if (o.count && o.owner != cur->id) return false;
        if (o.abandoned) { o.abandoned = false; result = WAIT_ABANDONED; }
        o.owner = cur->id; ++o.count;
        break;
    default: {
        Fiber *f = by_handle(o.thread);
        if (f && f->st != F_DONE && f->st != F_DEAD) return false;
        if (f) if (Sync *s = sync_at(STACKS + f->id * STACK_SZ + 8, K_COND, false)) acquire(s);
    }
    }
    cur->vc.join(o.vc);
    return true;
}
static DWORD wwait(const HANDLE *hs, DWORD n, DWORD ms, bool alertable, bool all = false)
{
    point();
    const char *op = n == 1 ? "WaitForSingleObject" : "WaitForMultipleObjects";
    const int64_t until = ms == INFINITE ? -1 : g_now + int64_t(ms) * 1000000;
    for (bool first = true;; first = false) {
        uintptr_t key = WANY;
        bool ready = true;
        for (DWORD i = 0; i < n; ++i) {
            const int o = wobj(hs[i], op, 31);
            if (o < 0) return WAIT_FAILED;
            if (first) { hash_op(72, wkey(o)); tr("wait %s #%d%s", wkind_name[(*g_wobj)[o].kind], o, alertable ? " alertable" : ""); }
            if (n == 1) key = wkey(o);
            DWORD result;
            if (all && n > 1) { ready = ready && wready(o); continue; }
            if (wtake(o, result)) { tr("got #%d%s", o, result == WAIT_ABANDONED ? " abandoned" : ""); return result + i; }
        }
        if (all && n > 1 && ready) {
            DWORD first = WAIT_OBJECT_0, result;
            for (DWORD i = 0; i < n; ++i) { wtake(wobj(hs[i], op, 31), result); if (result == WAIT_ABANDONED && first == WAIT_OBJECT_0) first = result + i; }
            return first;
        }
        if (!ms || (until >= 0 && g_now >= until)) return WAIT_TIMEOUT;
        const Wake w = block(key, op, until, CLOCK_MONOTONIC, alertable);
        hash_op(73, key);
        if (w == W_INTR) { tr("%s: asynchronous procedure call", op); return WAIT_IO_COMPLETION; }
    }
}

extern "C" {
EXPORT DWORD GetLastError(void) { return cur ? cur->werr : 0; }
EXPORT void SetLastError(DWORD e) { if (cur) cur->werr = e; }
EXPORT BOOL CloseHandle(HANDLE h)
{
    if (!cur) return TRUE;
    Rt r; point();
    if ((uintptr_t)h == WSELF) return TRUE;
    if (wobj(h, "CloseHandle", 31) < 0) return FALSE;
    hash_op(74, wkey((*g_whnd)[windex(h)].obj)); tr("CloseHandle #%d", (*g_whnd)[windex(h)].obj);
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].st == F_BLOCKED && g_f[i].proc == cur->proc && g_f[i].key == wkey((*g_whnd)[windex(h)].obj) && (*g_wobj)[(*g_whnd)[windex(h)].obj].refs == 1)
            sim_fail("handle-misuse", "the last handle is closed while T%d(%s) waits on it", i, g_f[i].name);
    wdrop(windex(h));
    return TRUE;
}
EXPORT HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCSTR name) { return wmake(manual ? WO_MANUAL : WO_AUTO, name, initial != 0, 1, false); }
EXPORT HANDLE OpenEventA(DWORD, BOOL, LPCSTR name) { return wmake(WO_AUTO, name, 0, 0, true); }
EXPORT HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG initial, LONG max, LPCSTR name) { return wmake(WO_SEM, name, initial, max, false); }
EXPORT HANDLE OpenSemaphoreA(DWORD, BOOL, LPCSTR name) { return wmake(WO_SEM, name, 0, 0, true); }
EXPORT HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL owned, LPCSTR name) { return wmake(WO_MUTEX, name, owned != 0, 0, false); }
EXPORT HANDLE OpenMutexA(DWORD, BOOL, LPCSTR name) { return wmake(WO_MUTEX, name, 0, 0, true); }
EXPORT HANDLE CreateEventExA(LPSECURITY_ATTRIBUTES a, LPCSTR name, DWORD flags, DWORD) { return CreateEventA(a, flags & CREATE_EVENT_MANUAL_RESET, flags & CREATE_EVENT_INITIAL_SET, name); }
EXPORT HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES a, LONG initial, LONG max, LPCSTR name, DWORD, DWORD) { return CreateSemaphoreA(a, initial, max, name); }
EXPORT HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES a, LPCSTR name, DWORD flags, DWORD) { return CreateMutexA(a, flags & CREATE_MUTEX_INITIAL_OWNER, name); }
EXPORT BOOL SetEvent(HANDLE h)
{
    if (!cur) return TRUE;
    Rt r; point();
    const int o = wobj(h, "SetEvent", 1 << WO_MANUAL | 1 << WO_AUTO);
    if (o < 0) return FALSE;
    hash_op(75, wkey(o)); tr("SetEvent #%d", o);
    wrelease((*g_wobj)[o]); (*g_wobj)[o].val = 1; wsignal(o);
    return TRUE;
}
EXPORT BOOL ResetEvent(HANDLE h)
{
    if (!cur) return TRUE;
    Rt r; point();
    const int o = wobj(h, "ResetEvent", 1 << WO_MANUAL | 1 << WO_AUTO);
    if (o < 0) return FALSE;
    hash_op(76, wkey(o)); tr("ResetEvent #%d", o);
    (*g_wobj)[o].val = 0;
    return TRUE;
}
EXPORT BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG previous)
{
    if (!cur) return TRUE;
    Rt r; point();
    const int i = wobj(h, "ReleaseSemaphore", 1 << WO_SEM);
    if (i < 0) return FALSE;
    WObj &o = (*g_wobj)[i];
    hash_op(77, wkey(i)); tr("ReleaseSemaphore #%d %ld + %d", i, long(o.val), n);
    if (n <= 0) return wfalse(ERROR_INVALID_PARAMETER);
    if (o.val + n > o.max) return wfalse(ERROR_TOO_MANY_POSTS);
    if (previous) *previous = LONG(o.val);
    wrelease(o); o.val += n; wsignal(i);
    return TRUE;
}
EXPORT BOOL ReleaseMutex(HANDLE h)
{
    if (!cur) return TRUE;
    Rt r; point();
    const int i = wobj(h, "ReleaseMutex", 1 << WO_MUTEX);
    if (i < 0) return FALSE;
    WObj &o = (*g_wobj)[i];
    hash_op(78, wkey(i)); tr("ReleaseMutex #%d", i);
    if (!o.count || o.owner != cur->id) return wfalse(ERROR_NOT_OWNER);
    if (--o.count == 0) { wrelease(o); o.owner = -1; wsignal(i); }
    return TRUE;
}
EXPORT DWORD WaitForSingleObject(HANDLE h, DWORD ms) { if (!cur) return WAIT_OBJECT_0; Rt r; return wwait(&h, 1, ms, false); }
EXPORT DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL alertable) { if (!cur) return WAIT_OBJECT_0; Rt r; return wwait(&h, 1, ms, alertable != 0); }
EXPORT DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *hs, BOOL all, DWORD ms, BOOL alertable)
{
    if (!cur) return WAIT_OBJECT_0;
    Rt r;
    if (!n || n > MAXIMUM_WAIT_OBJECTS) { cur->werr = ERROR_INVALID_PARAMETER; return WAIT_FAILED; }
    return wwait(hs, n, ms, alertable != 0, all != 0);
}
EXPORT DWORD WaitForMultipleObjects(DWORD n, const HANDLE *hs, BOOL all, DWORD ms) { return WaitForMultipleObjectsEx(n, hs, all, ms, FALSE); }
EXPORT DWORD GetThreadId(HANDLE h) { if (!cur) return 1; Rt r; Fiber *f = wthread(h, "GetThreadId"); return f ? DWORD(f->handle & 0xffffffff) : 0; }
EXPORT DWORD GetCurrentProcessId(void) { return cur ? DWORD(1000 + cur->proc) : 1000; }
EXPORT HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T stack, LPTHREAD_START_ROUTINE fn, LPVOID arg, DWORD flags, LPDWORD id)
{
    if (!cur) { fprintf(stderr, "sim: CreateThread outside a run\n"); _exit(92); }
    Rt r; point();
    if (fault_site(SIM_F_THREAD_CREATE)) { tr("CreateThread refused"); return wfail(ERROR_NOT_ENOUGH_MEMORY); }
    Fiber *f = new_fiber("thread", cur->proc);
    f->fn = (void *(*)(void *))fn; f->arg = arg; f->is_thread = true; f->affinity = ~0ull; f->policy = SCHED_OTHER; f->rtprio = 0; f->stack_size = stack;
    WObj o{};
    o.kind = WO_THREAD; o.owner = -1; o.fiber = f->id; o.thread = f->handle;
    g_wobj->push_back(o);
    HANDLE h = whandle(int(g_wobj->size()) - 1);
    if (id) *id = DWORD(f->handle & 0xffffffff);
    if (flags & CREATE_SUSPENDED) { f->st = F_BLOCKED; f->key = (uintptr_t)f + 2; f->what = "suspended"; f->deadline = -1; f->intr = f->cancellable = false; }
    hash_op(79, f->id); tr("CreateThread T%d", f->id);
    point();
    return h;
}
EXPORT DWORD ResumeThread(HANDLE h)
{
    if (!cur) return 0;
    Rt r; point();
    Fiber *f = wthread(h, "ResumeThread");
    if (!f) return DWORD(-1);
    hash_op(82, f->id); tr("ResumeThread T%d", f->id);
    return DWORD(wake_all((uintptr_t)f + 2));
}
EXPORT BOOL GetExitCodeThread(HANDLE h, LPDWORD code)
{
    if (!cur) { *code = 0; return TRUE; }
    Rt r; point();
    Fiber *f = wthread(h, "GetExitCodeThread");
    if (!f) return FALSE;
    *code = f->st == F_DONE || f->st == F_DEAD ? 0 : STILL_ACTIVE;
    return TRUE;
}
EXPORT BOOL TerminateThread(HANDLE h, DWORD)
{
    if (!cur) return TRUE;
    Rt r; point();
    Fiber *f = wthread(h, "TerminateThread");
    if (!f) return FALSE;
    hash_op(80, f->id); tr("TerminateThread T%d", f->id);
    if (f->st != F_RUN && f->st != F_BLOCKED) return TRUE;
    Sync *s = sync_at(STACKS + f->id * STACK_SZ + 8, K_COND);
    s->vc = f->vc;
    f->st = F_DONE; f->deadline = -1; f->intr_at = 0;
    if (f->detached) f->joined = true;
    recompute_deadlines();
    w_thread_over(f);
    wake_all((uintptr_t)f);
    if (f == cur) away();
    return TRUE;
}
EXPORT BOOL CancelSynchronousIo(HANDLE) { if (cur) cur->werr = ERROR_NOT_FOUND; return FALSE; }
EXPORT HANDLE GetCurrentThread(void) { return (HANDLE)WSELF; }
EXPORT DWORD GetCurrentThreadId(void) { return cur ? DWORD(cur->handle & 0xffffffff) : 1; }
EXPORT HANDLE GetCurrentProcess(void) { return (HANDLE)(WHANDLES - 128); }
EXPORT BOOL GetProcessAffinityMask(HANDLE, DWORD_PTR *process, DWORD_PTR *system) { *process = *system = wcores(); return TRUE; }
EXPORT DWORD_PTR SetThreadAffinityMask(HANDLE h, DWORD_PTR mask)
{
    if (!cur) return 1;
    Rt r;
    Fiber *f = wthread(h, "SetThreadAffinityMask");
    if (!f) return 0;
    if (fault_site(SIM_F_THREAD_ATTR)) { cur->werr = ERROR_ACCESS_DENIED; return 0; }
    if (!mask || mask & ~wcores()) { cur->werr = ERROR_INVALID_PARAMETER; return 0; }
    const uint64_t was = f->affinity & wcores();
    f->affinity = mask;
    return was;
}
EXPORT BOOL SetThreadPriority(HANDLE h, int p)
{
    if (!cur) return TRUE;
    Rt r;
    Fiber *f = wthread(h, "SetThreadPriority");
    if (!f) return FALSE;
    if (fault_site(SIM_F_THREAD_ATTR)) return wfalse(ERROR_ACCESS_DENIED);
    if ((p < -2 || p > 2) && p != 15 && p != -15) return wfalse(ERROR_INVALID_PARAMETER);
    f->rtprio = p;
    return TRUE;
}
EXPORT int GetThreadPriority(HANDLE h)
{
    if (!cur) return 0;
    Rt r;
    Fiber *f = wthread(h, "GetThreadPriority");
    if (!f) return THREAD_PRIORITY_ERROR_RETURN;
    if (fault_site(SIM_F_THREAD_ATTR)) { cur->werr = ERROR_ACCESS_DENIED; return THREAD_PRIORITY_ERROR_RETURN; }
    return f->rtprio;
}
EXPORT HRESULT SetThreadDescription(HANDLE h, PCWSTR name)
{
    if (!cur) return 0;
    Rt r;
    Fiber *f = wthread(h, "SetThreadDescription");
    if (!f || fault_site(SIM_F_THREAD_ATTR)) return HRESULT(0x80070005);
    size_t i = 0;
    for (; name[i] && i + 1 < sizeof f->name; ++i) f->name[i] = char(name[i]);
    f->name[i] = 0;
    return 0;
}
EXPORT DWORD GetActiveProcessorCount(WORD) { return DWORD(g_cores); }
EXPORT DWORD GetCurrentProcessorNumber(void) { return cur ? DWORD(cur->id % g_cores) : 0; }
EXPORT DWORD SleepEx(DWORD ms, BOOL alertable)
{
    if (!cur) return 0;
    Rt r; point(!ms);
    if (!ms) return 0;
    hash_op(81, 0); tr("Sleep %u ms%s", ms, alertable ? " alertable" : "");
    const int64_t until = ms == INFINITE ? -1 : g_now + int64_t(ms) * 1000000;
    while (until < 0 || g_now < until)
        if (block((uintptr_t)cur + 1, "Sleep", until, CLOCK_MONOTONIC, alertable != 0) == W_INTR) { tr("Sleep: asynchronous procedure call"); return WAIT_IO_COMPLETION; }
    return 0;
}
EXPORT void Sleep(DWORD ms) { SleepEx(ms, FALSE); }
EXPORT BOOL SwitchToThread(void) { if (active()) { Rt r; point(true); } return TRUE; }
EXPORT unsigned long long GetTickCount64(void) { return cur ? (unsigned long long)(g_now / 1000000) : 0; }
EXPORT DWORD GetTickCount(void) { return DWORD(GetTickCount64()); }
EXPORT BOOL QueryPerformanceFrequency(LARGE_INTEGER *f) { f->QuadPart = 10000000; return TRUE; }
EXPORT BOOL QueryPerformanceCounter(LARGE_INTEGER *t) { t->QuadPart = cur ? g_now / 100 : 0; return TRUE; }
EXPORT void OutputDebugStringA(LPCSTR) {}
EXPORT int MessageBoxA(HWND, LPCSTR text, LPCSTR, UINT) { Rt r; sim_fail("assertion", "library assertion failed in T%d(%s): %s", cur->id, cur->name, text); }
EXPORT SHORT GetAsyncKeyState(int) { return 0; }
EXPORT void __debugbreak(void) { Rt r; sim_fail("assertion", "library assertion failed in T%d(%s)", cur->id, cur->name); }
}
// ---- for scenarios
static int w_object(const void *h) { const int i = windex((HANDLE)h); return i >= 0 && (*g_whnd)[i].open ? (*g_whnd)[i].obj + 1 : 0; }
static bool w_name(const char *n) { for (auto &o : *g_wobj) if (o.name == n) return true; return false; }
static int w_handles(int proc)                  // to named objects
{
    int k = 0;
    for (auto &h : *g_whnd) if (h.proc == proc && h.open && !(*g_wobj)[h.obj].name.empty()) ++k;
    return k;
}
extern "C" {
EXPORT int sim_win_handles(int proc)            // open in the process; thread handles and unnamed objects included
{
    int k = 0;
    for (auto &h : *g_whnd) if (h.proc == proc && h.open) ++k;
    return k;
}
}
