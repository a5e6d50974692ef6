COMMON_REAL = ["every header of /repo/include/oqpi that the scenario instantiates (scheduler, workers, tasks, groups, events, semaphores, mutexes, threads, "
               "partitioners, queue), compiled unmodified from the current tree", "libstdc++ headers (shared_ptr, function, queue, atomics)"]
COMMON_STUB = ["POSIX threads, semaphores (named and unnamed), mutexes, condition variables, clocks, sleeps and thread attributes: simulated by sim/sim.cpp",
               "operator new and delete: simulated heap", "the operating system scheduler: seeded strategies (random, PCT, victim, round robin)"]
ASSUMPTIONS = ["sequentially consistent interleavings: effects of weaker hardware memory orders are only seen through the data race detector",
               "preemption at synchronisation operations (atomics, locks, semaphores, clocks, thread calls); in a quarter of the runs also at every plain memory access",
               "only C29 compiles the Windows backend, against a Win32 simulated from its documentation (sim/win32)"]
CATALOG = {}


def add(pid, scenario, what, **kw):
    CATALOG[pid] = dict(scenario=scenario, what=what, **kw)


add("C01", "c01_once.cpp", "1 to 3 clients submit random graphs (leaves, sequences, parallel groups, nested; some very deep, some with hundreds of tasks) through every helper, re-submit handles, wait in all ways, tasks submit tasks; some runs submit thousands, now and then to more than 32 workers; "
    "every leaf must run exactly once", faults=["EINTR", "CAS_WEAK"])
add("C02", "c02_live.cpp", "clients submit random graphs (also from inside tasks) to workers of several priority classes that are asleep, waking up or busy, now and then more than 32 of them; 1 to 3 threads wait on each, "
    "signals interrupt blocked calls; nothing polls, so a lost wake-up shows as a deadlock and a livelock as a run that does not end under a fair schedule; some workers may be refused their threads", faults=["EINTR", "THREAD_CREATE"])
add("C03", "c03_wait.cpp", "tasks returning nothing, numbers, strings, structures and shared pointers, alone or in a group, some moved before or after they ran; up to 5 observers of each wait, help, poll or ask for the result, early or late; "
    "values compared, and a plain write of the task not ordered before the observer's read is reported", faults=["EINTR"])
add("C04", "c04_sequence.cpp", "random nestings of sequences and parallel groups (depth 3, up to 15 nodes; now and then a sequence of more than 65536) run by workers of several classes and by helping waiters; every task checks that all tasks of earlier "
    "members have ended, none of a later one has begun, and reads what they wrote", faults=["EINTR"])
add("C05", "c05_join.cpp", "random nestings, mostly parallel, now and then more than 65536 members in one group, watched by up to 5 threads that wait, help and poll on the root and on inner groups; each completion seen (done flag, wait, hook, next step of a sequence) "
    "needs every task below to have ended with its write visible; completion hooks counted", faults=["EINTR"])
add("C06", "c06_limit.cpp", "parallel groups with limits 1 to 4 and up to 9 members, nested in one another and in sequences, run by up to 6 workers and up to 4 helping waiters; members (with everything below "
    "them) executing at once are counted at every task start", faults=["EINTR"])
add("C07", "c07_priority.cpp", "bursts of tasks and groups of all priorities (also inherited) queued before the start or while 1 to 4 workers (now and then more than 32) with different priority sets are busy; the worker hooks tell when each "
    "worker began to look and what it took: it must not have left a better or older task it may execute, and never takes one it is not registered for; loops of every form and priority run beside them, and every creating helper must give the priority it was asked for; the numbers of workers told are compared", faults=["EINTR"])
add("C08", "c08_stop.cpp", "1 to 3, sometimes 10 stop and restart cycles at arbitrary moments while 1 or 2 clients submit, wait and help, workers being asleep, waking, picking, executing or inside a nested parallel_for; then a last "
    "stop or a destruction with tasks pending; some workers may be refused their threads; simulated threads alive, tasks executing, executions, and tasks each worker begins while it is being joined, counted", faults=["EINTR", "THREAD_CREATE"])
add("C09", "c09_parfor.cpp", "1 to 3 concurrent callers of every parallel_for and parallel_for_each form, both partitioners, ranges empty, negative and at the limits of int, also from inside tasks and nested twice, some with hundreds of batches and thousands of indices, now and then more than 65536 of both; "
    "calls counted per index, overlap per batch index, plain writes read after the return", faults=["EINTR"])
add("C10", "c10_life.cpp", "graphs and typed tasks whose captures own memory and count their copies; submitter, waiters and workers drop their handles in any order, handles are submitted twice, tasks never "
    "submitted or results never read; the simulated heap reports use after free and double free, and once idle nothing may be alive", faults=["EINTR"])
add("C11", "c11_race.cpp", "1 to 3 clients with watchers submit, re-submit, wait, help, poll and query tasks, groups and members, run parallel_for (nested too), ask for idleness and wait for it, while the scheduler "
    "may be stopped and restarted; vector clock happens-before detection over every plain and atomic access of the instrumented headers", faults=["EINTR"])
add("C12", "c12_hooks.cpp", "contexts with three members on every task, group and worker, graphs and parallel loops run by workers, single tasks also by waiting threads or single threaded, stop and restart; the names the workers give their threads (now and then ten or more of a kind), their stack sizes, cores and priorities; each hook's order, thread and count "
    "is checked as it is called, with scheduling points inside the hooks", faults=["EINTR"])
add("C13", "c13_semaphore.cpp", "2 to 4 threads notify (one, several, all), wait, try and wait with timeouts on a local or named semaphore, counts below and beyond 16 bits, under signals, stalls and clock steps; every history must be one of a counter, "
    "a wait still blocked at rest needs a count of zero, and the tokens left must add up; some runs give thousands", faults=["EINTR", "STALL", "CLOCK_JUMP"])
add("C14", "c14_manual.cpp", "2 to 4 threads notify, wait, wait with timeouts and reset a local or named event, under signals, stalls and clock steps; every history must be one of a flag and whoever still waits at "
    "rest must find it down; histories only explained by a waiter holding the token for a moment are the known finding", faults=["EINTR", "STALL", "CLOCK_JUMP"])
add("C15", "c15_auto.cpp", "2 to 4 threads notify, wait and wait with timeouts on a local or named event, under signals, stalls and clock steps; notifications and successful waits must pair up one to one, "
    "whoever still waits at rest has none left, and what is left over adds up", faults=["EINTR", "STALL", "CLOCK_JUMP"])
add("C16", "c16_mutex.cpp", "2 to 4 threads of two processes lock, try, try with timeouts (also through std::unique_lock) over two handles of a named mutex, created locked or not, under signals, stalls and clock "
    "steps; holders counted, unprotected data raced, history linearizable, extra unlocks while it is free", faults=["EINTR", "STALL", "CLOCK_JUMP"])
add("C17", "c17_timeout.cpp", "every timed call of semaphores, events and mutexes, local and named, with durations of all units, signs and sizes (up to decades, or until the first time there is), starting close to a full second, under signals, stalls, clock steps and "
    "signals of the object before, at and after the deadline; simulated clocks at call and return bound the wait from both sides", faults=["EINTR", "STALL"])
add("C18", "c18_names.cpp", "2 to 4 simulated processes create, open, use and release named semaphores, events and mutexes in every mode; those that only open may be killed at any point and sem_open may fail; "
    "which kernel object each got and its tokens must follow one name space, and no name or handle is left over", faults=["SEM_OPEN", "PROC_CRASH"])
add("C19", "c19_idle.cpp", "1 or 2 clients (now and then more than 32 workers) submit graphs and re-submit handles, tasks submit tasks, while others ask whether the scheduler is idle or wait until it is, before the start, during and after stops; "
    "for every answer of idle there must be a moment with nothing queued or executing, and at rest the answer is idle; the system's clock is set now and then", faults=["EINTR", "CLOCK_JUMP"])
add("C20", "c20_ids.cpp", "2 to 4 clients, and tasks they submit, create tasks and groups of all kinds at once (sometimes tens of thousands), move some, and record every identifier, look at it again through other handles, once submitted and once done", faults=["EINTR"])
add("C21", "c21_thread.cpp", "1 to 3 clients create threads with all kinds of functions, arguments and attributes, move, join, detach and terminate them, some join themselves; thread creation is refused, attribute, affinity, priority and naming calls fail and real time priorities are limited; the attributes seen by the simulated kernel, "
    "executions, arguments and their copies, ids, plain writes after join, and threads and blocks left are checked", faults=["THREAD_CREATE", "THREAD_ATTR"])
add("C22", "c22_queue.cpp", "2 to 4 threads push copies and moved elements, pop and ask for emptiness; every history must be one of a queue, elements own memory whose contents and races are checked, and none is "
    "left over or lost at the end; some runs push tens of thousands, checked for order and number", faults=[])
add("C23", "c23_partition.cpp", "both partitioners over empty, inverted, tiny and huge ranges at both ends of int32, all batch counts and chunk sizes, 1 to 5 threads taking ranges, some long after the end, copies taken half way; "
    "every range within bounds, disjoint from the others, and together the whole", faults=[])
add("C24", "c24_single.cpp", "1 or 2 clients execute tasks and nested groups single threaded, before, while or after the same handle is submitted to workers, awaited, helped (single tasks) or executed single threaded by "
    "up to 2 other threads; thread, order and count of executions, done flags, waits, results, races and leaks", faults=["EINTR"])
add("C25", "c25_sleep.cpp", "1 to 3 threads sleep for durations of all units, signs and sizes and until times on three clocks, the first there is included, interrupted by up to 40 signals each, starting close to a full second, sometimes stalled, while somebody sets the system clock; "
    "simulated time at call and return bounds every sleep from both sides", faults=["EINTR", "STALL"])
add("C26", "c26_alloc.cpp", "1 or 2 clients and their tasks create and submit tasks, groups, forks, sequences and loops while up to 8 of their allocations fail, next to workers and a client that has memory; "
    "what was submitted runs once, what failed never unless submitted again, the scheduler ends idle, and no block is left", faults=["ALLOC"])
add("C27", "c27_move.cpp", "programs of up to 18 moves (constructed, assigned, swapped, to itself, out and back, onto valid, empty and moved-from objects) over four local or named semaphores, events or mutexes, other processes "
    "opening, using or waiting on the named ones meanwhile; handles, names, validity and tokens compared with a model after every step", faults=["EINTR"])
add("C29", "c29_windows.cpp", "the Windows backend on a simulated Win32 (events, semaphores, mutexes, handles, waits, threads, priorities, affinity, sleeps): the programs and oracles of C13 to C18, C21, C25 and C27, and now and then of C01 to C12, C19, C20 and C24; "
    "asynchronous procedure calls end alertable waits, owners of mutexes end or crash, objects and threads are refused, processes are killed; handles left open are counted too",
    faults=["EINTR", "STALL", "THREAD_CREATE", "THREAD_ATTR", "SEM_OPEN", "PROC_CRASH", "CLOCK_JUMP"], quick_s=40, parts=6,
    stub=["the Win32 functions the Windows backend uses (sim/win32), written from their documentation and never compared to the real ones", "operator new and delete: simulated heap",
          "the operating system scheduler: seeded strategies (random, PCT, victim, round robin)"],
    flags=["-DSIM_WINDOWS", "-I", "ROOT/sim/win32"])
