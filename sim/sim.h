// Deterministic simulation runtime: public interface for scenarios.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum sim_fault_kind {
    SIM_F_EINTR = 0,      // a signal interrupts a blocking call
    SIM_F_THREAD_CREATE,  // pthread_create fails with EAGAIN
    SIM_F_THREAD_ATTR,    // affinity / attribute / naming calls fail
    SIM_F_CLOCK_JUMP,     // wall clock steps forwards or backwards
    SIM_F_STALL,          // every thread stalls until (past) the next deadline
    SIM_F_SEM_OPEN,       // sem_open fails (EMFILE, ENOMEM, EACCES)
    SIM_F_ALLOC,          // operator new throws std::bad_alloc (only in windows opened by the scenario)
    SIM_F_CAS_WEAK,       // compare_exchange_weak fails spuriously
    SIM_F_SPURIOUS,       // condition variable wakes spuriously
    SIM_F_PROC_CRASH,     // a simulated process is killed
    SIM_F_COUNT
};

// ---- choices (workload generation). Recorded, replayed, shrunk.
uint32_t sim_choose(uint32_t n);            // uniform in [0,n)
// ---- threads that play the clients
int      sim_spawn(void (*fn)(void *), void *arg, const char *name, int proc);
void     sim_join(int fiber);
int      sim_self(void);
int      sim_proc(void);
int      sim_live_fibers(void);             // fibers neither finished nor killed, not counting the caller
int      sim_zombie_threads(void);          // over, but neither joined nor detached: their stacks are never released
int      sim_live_threads(void);            // the same, only those made by pthread_create
int      sim_runnable_others(void);
int      sim_is_blocked(int fiber);
int      sim_is_joining(int fiber);         // blocked, waiting for another thread to end
void     sim_kill_proc(int proc);
void     sim_allow_leftover(void);          // fibers may outlive the main one
// ---- time and order
uint64_t sim_stamp(void);                   // strictly increasing event number
uint64_t sim_step(void);
int64_t  sim_now_mono(void);
int64_t  sim_now_real(void);
void     sim_set_real(int64_t ns);
void     sim_sleep(int64_t ns);             // simulated sleep, not interruptible
void     sim_point(void);                   // explicit scheduling point
void     sim_yield(void);
// block until sim_unpark on the same key; orders nothing for the race detector. Use: while (!predicate) sim_park(&x);
void     sim_park(const void *key);
void     sim_unpark(const void *key);
void     sim_settle(void);                  // returns once every other thread is blocked
void     sim_rest(void);                    // returns once every other thread is blocked without a timer, letting time pass
// ---- faults
void     sim_fault_enable(int kind, int permille, int budget);
int      sim_fault(int kind);               // 0, or a non-zero value when the fault fires
uint64_t sim_fault_count(int kind);         // fired so far in this run
void     sim_alloc_window(int on);          // this fiber: operator new may fail
void     sim_set_cores(int n);
// ---- what the simulated kernel knows about a thread
void     sim_set_rtprio(int limit);         // RLIMIT_RTPRIO, 0 unless set
uint64_t sim_thread_affinity(int fiber);
int      sim_thread_priority(int fiber);    // 1000 * policy + priority
size_t   sim_thread_stack(int fiber);       // as asked for when it was created, 0: default
const char *sim_thread_name(int fiber);
int      sim_live_attrs(void);              // pthread_attr_t initialised and not destroyed
// ---- verdicts
void     sim_fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void     sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void     sim_probe(const char *name);       // "this rare condition was hit"
void     sim_discard(void) __attribute__((noreturn)); // end this run without verdict
// ---- oracle code runs without scheduling points, race detection or arena allocation
void     sim_quiet_enter(void);
void     sim_quiet_leave(void);
// ---- memory
size_t   sim_live_allocs(void);             // blocks allocated in this run and not freed
void     sim_dump_leaks(void);
int      sim_is_freed(const void *p);
// ---- named semaphores
int      sim_name_exists(const char *name);
int      sim_open_handles(int proc);
int      sim_win_handles(int proc);              // Win32: all handles open in a process
int      sim_handle_refs(int proc);              // the same, each counted as often as it was opened and not closed
int      sim_sem_object(const void *handle);   // number of the kernel object behind a named semaphore's handle, from 1; 0: none
// ---- limits
void     sim_limits(uint64_t adversarial_steps, uint64_t hard_steps);
void     sim_many_objects(void);                // at the start of a run with more than a hundred thousand atomics
void     sim_heap_reuse(int on);            // freed blocks are handed out again in this run: for those that make very many
void     sim_race_detection(int on);
void     sim_finegrain_ok(int ok);          // scenario allows scheduling points on plain accesses

typedef void (*sim_scenario_fn)(void);
int      sim_main(int argc, char **argv, const char *name, sim_scenario_fn fn);
#ifdef __cplusplus
}
namespace sim {
struct Quiet { Quiet() { sim_quiet_enter(); } ~Quiet() { sim_quiet_leave(); } };
}
#define QUIET sim::Quiet sim_quiet_guard_
#endif
