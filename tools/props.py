#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from catalog import CATALOG
I = "include/oqpi/"
SC, WK, WB = I + "scheduling/scheduler.hpp", I + "scheduling/worker.hpp", I + "scheduling/worker_base.hpp"
PG, SG, TG = I + "scheduling/parallel_group.hpp", I + "scheduling/sequence_group.hpp", I + "scheduling/task_group.hpp"
TK, TB, TH, TN, TR = (I + "scheduling/" + f for f in ("task.hpp", "task_base.hpp", "task_handle.hpp", "task_notifier.hpp", "task_result.hpp"))
SEM, EV, MX, PW = (I + "synchronization/posix/" + f for f in ("posix_semaphore.hpp", "posix_event.hpp", "posix_mutex.hpp", "posix_semaphore_wrapper.hpp"))
TI, TP = I + "threading/interface_thread.hpp", I + "threading/posix_thread.hpp"
PF, AP, SP, BP = (I + "parallel_algorithms/" + f for f in ("parallel_for.hpp", "atomic_partitioner.hpp", "simple_partitioner.hpp", "base_partitioner.hpp"))
CQ = I + "concurrent_queue.hpp"
HL = I + "scheduling_helpers.hpp"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
              anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                           mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), na))


p("C01", "Every submitted task is executed exactly once",
  "Every task submitted to a running scheduler (on its own or through a group, from client threads or from inside other tasks) has its function called exactly once. "
  "That holds however often its handle is submitted again, whoever waits on it, and when waiting threads help by executing it themselves.",
  ["schedules", "programs", "fault_sequences"], "All interleavings of submitters, workers and helping waiters, all nestings of groups, all sets of workers.",
  "The tests run a dozen tasks per group once under whatever schedule the machine gives, and only look at sums; a double execution needs two threads to meet in a window of a few instructions.",
  [SC, WK, TB, TK, PG, SG], [("grab flag claimed by compare and swap before execution", TB), ("queue popped under a lock, handle dropped when already grabbed", SC),
                             ("turn index of a parallel group", PG)],
  [("grabbed_", "claimed by the one thread that executes the task", TB), ("currentTaskIndex_", "next member to be scheduled", PG)], ["calls of the task's function"])
p("C02", "Submitted work always makes progress and every wait returns",
  "As long as the scheduler runs and a worker registered for a task's priority is or becomes free, a submitted task is eventually executed, and every wait on it or on the group it belongs to returns. "
  "No order of submissions, worker wake-ups, interrupted system calls or helping waiters leaves work queued while every worker able to run it sleeps, or a waiter asleep although what it waits for has completed.",
  ["schedules", "fault_sequences", "configurations"], "All interleavings of add, worker wake-up, draining of wake-up tokens and completion; all worker priority sets; signals at any blocking call.",
  "A lost wake-up needs a submission between a worker's last look at the queues and its sleep; the tests hit that window by luck and would only hang.",
  [SC, WK, EV, PW, TN, SG, PG], [("one wake-up token per submission and worker, drained before each search", SC), ("event re-posted by each waiter", EV), ("next member scheduled on completion", SG)],
  observe=["threads all blocked with unfinished tasks (deadlock)", "no completion within a bounded number of steps under a fair schedule without faults"])
p("C03", "Waiting on a task gives its completion, result and effects",
  "When a wait on a task returns, or the task reports itself done, its function has returned, the result read from it is the value the function returned, and everything the task wrote is visible to the observer. "
  "Any number of threads may wait on the same task, before or after it completed, in any of the ways the library offers, and each of them gets this. A task that is moved takes its function, result and completion along.",
  ["schedules", "inputs"], "All interleavings of the executing thread with any number of waiters and pollers; results of several types.",
  "Tests read results from one waiting thread on a strongly ordered machine; visibility and early release do not show there.",
  [TK, TR, TN, TB, EV], [("done flag stored after the function ran", TK), ("event notified after the done flag", TK), ("result stored before the done flag", TR)],
  [("done_", "the function has returned", TB)], ["values read by waiters", "data races between task and waiter"])
p("C04", "Members of a sequence run one after the other in order",
  "In a sequence, each member starts only after everything of the previous member has finished, including all tasks of a member that is itself a group, in the order in which members were added, and sees all its effects. "
  "This holds whichever threads execute them.",
  ["schedules", "programs"], "All interleavings, all nestings of sequences and parallel groups, all priorities of members.",
  "Tests check one sequence of a few tasks; an overlap needs a particular preemption between a member's completion and the next one's start.",
  [SG, TG, TB], [("next member is submitted only when the previous one reports completion to its parent", SG), ("a nested group reports to its parent after its last task", TG)],
  observe=["start and end of every task", "data races between consecutive members"])
p("C05", "A parallel group completes once, when all its members have",
  "A group is reported complete (done flag, waiters released, next step of an enclosing sequence started) only after every task in it, at any depth, has finished, and then exactly once, whichever threads executed its tasks and whoever helped while waiting; once a wait on it returned it says so itself. "
  "All effects of its tasks are visible to whoever observes the completion.",
  ["schedules", "programs"], "All interleavings of members completing on different threads, all nestings, with and without limits on simultaneous tasks.",
  "The join is a race between the last two members to finish; the tests do not control which is last or where it is preempted.",
  [PG, TG, TB], [("atomic count of unfinished members, the one that takes it to zero completes the group", PG)], [("activeTasksCount_", "members not finished yet", PG)],
  ["state of members when a wait on the group returns"])
p("C06", "A limited parallel group never runs more tasks than its limit",
  "A parallel group created with a limit on simultaneous tasks never has more than that many of its members executing at the same time, including members executed by threads waiting on the group, and still executes all of them.",
  ["schedules", "configurations"], "All limits, group sizes and interleavings of completions, submissions and helping waiters.",
  "Tests pass no limit or only check that everything ran; the peak number of simultaneous members depends on the schedule.",
  [PG], [("limited number of members submitted at first, each completion submits one more", PG)], [("maxSimultaneousTasks_", "the limit", PG), ("currentTaskIndex_", "next member whose turn it is", PG)],
  ["number of members between start and end"])
p("C07", "Workers take the highest priority first, oldest first, within their set",
  "When a worker looks for a task, it takes one of the highest priority among those already submitted that it is registered for, and among equals the one submitted first. "
  "A worker never picks up a task whose priority it is not registered for; a task that inherits its priority counts with that of its closest enclosing group which has one. "
  "The scheduler tells how many workers are registered, altogether and for each priority.",
  ["schedules", "configurations", "inputs"], "All mixes of priorities, worker sets, submission orders and interleavings with searching workers.",
  "Tests assign priorities but never observe the order; under load the order is only visible with knowledge of when each worker searched.",
  [SC, WB, CQ], [("one queue per priority, searched from high to low", SC), ("worker priority bit field", WB), ("first in first out queue", CQ)],
  observe=["worker's idle and pre-execute hooks", "completed submissions at that time"])
p("C08", "Stopping finishes running tasks, loses none and can be restarted",
  "When stop returns, no worker runs any more and no task is executing on one; a task that a worker started has finished, the others have not been touched and no new one starts until the scheduler is started again: a worker told to stop begins at most the one task it had already picked, however many are queued. "
  "After a restart they are all executed, exactly once, and stopping or destroying the scheduler never crashes or hangs whatever the workers were doing.",
  ["schedules", "histories", "crash_points"], "A stop at any point of the workers' loop, with queued, running and concurrently submitted tasks; any sequence of start and stop.",
  "The tests stop an idle scheduler once, at the end.",
  [SC, WK], [("running flags of scheduler and workers, set before waking them up", SC), ("join of every worker", SC)], [("running_", "scheduler or worker keeps going", SC)],
  ["tasks' start and end against stop's return", "number of live threads"])
p("C09", "parallel_for visits every index exactly once before it returns",
  "parallel_for calls its function exactly once for every index of the partitioned range and for no other, and returns only after the last call has, with all their effects visible to the caller. "
  "Calls which are given the same batch index never overlap, and batch indices stay within the number of batches; calling it from inside a task works the same way.",
  ["schedules", "inputs", "programs"], "All ranges, partitioners and batch counts, all interleavings of the workers and the helping caller, nested calls.",
  "Tests use two fixed ranges starting at zero and only sum up the results.",
  [PF, AP, SP, BP, PG], [("shared partitioner handing out disjoint ranges", AP), ("one task per batch in a parallel group, caller helps then waits", PF)],
  observe=["calls per index", "overlap of calls per batch index"])
p("C10", "Task memory is released once, never while in use, and not leaked",
  "A task's function object and its captures, its group and its synchronisation object stay alive for as long as any thread may still use them, whichever of the submitter's handles, the waiter's and the worker's goes away last. "
  "Once tasks have completed and all handles to them are gone they are destroyed, exactly once, and nothing they allocated remains.",
  ["schedules", "programs"], "All orders in which handles are dropped, waits return and workers finish, for tasks and nested groups that complete.",
  "A use after free needs the waiter to drop the last handle while the worker is still leaving the task; without a tool watching memory it goes unnoticed.",
  [TH, TB, TG, WK, PG, SG], [("shared ownership by handles, queues, groups and workers", TH), ("link to the parent group cut when the task completes", TB)],
  observe=["accesses to freed memory, double frees, blocks alive at the end", "count of live captures"])
p("C11", "The library is free of data races under concurrent use",
  "Submitting, waiting, polling, running groups, parallel_for, querying the scheduler's idleness and stopping it from several threads involves no two conflicting unsynchronised accesses to the library's own memory.",
  ["schedules", "programs"], "All interleavings of all public scheduling operations used as documented.",
  "The tests run without a race detector and mostly from one client thread.",
  [SC, WK, TB, TK, PG, SG, CQ], [("atomics for flags and counters, a lock per queue, completion order through events", SC)], observe=["happens-before analysis of every instrumented access"])
p("C12", "Context hooks are called once, in order, on the right thread",
  "A task's pre-execute and post-execute hooks are each called exactly once, on the thread that runs it, right around its function; a group's pre-execute hook is called once before any of its tasks runs and its post-execute hook once after all have, before anyone waiting on it is released (for groups run by the workers), and adding a task to a group calls the task's and the group's hook for that once each. "
  "A worker's hooks are all called on its own thread: start first and stop last, once per start and stop of the scheduler, idle and active alternating, pre and post execution around each task it executes; its thread bears the configured name and, where several share one, the worker's number, and has the stack size, cores and, where the system grants it, priority of its configuration.",
  ["schedules", "programs", "histories"], "All interleavings, nestings and restarts.",
  "Tests install contexts which only print.",
  [I + "scheduling/context_container.hpp", TK, TG, WK], [("hooks called around the function", TK), ("group hooks at first execution and at completion", TG), ("worker hooks in the main loop", WK)],
  observe=["recorded sequence of hook calls per task, group and worker"])
p("C13", "A semaphore is an atomic counter of tokens",
  "Any history of notifications, waits, attempts and timed waits on a semaphore is one of a counter that starts at the initial count: a notification of n adds n tokens, each successful wait removes exactly one, attempts and expired waits remove none and fail only if there was no token. "
  "A wait blocks only while there is no token, whatever signals interrupt it; a semaphore asked for with a negative count is not valid.",
  ["schedules", "histories", "fault_sequences"], "All concurrent histories of the operations, local and named, with interrupted system calls.",
  "Tests use a semaphore from one or two threads with fixed sleeps.",
  [SEM, PW], [("operating system semaphore, waits restarted after a signal", PW)], observe=["linearizability of the recorded history against a counter"])
p("C14", "A manual reset event stays signalled until it is reset",
  "Once a manual reset event is notified, every wait that started before or starts later returns successfully until the event is reset; before any notification, and after a reset, waits block and timed waits fail. "
  "Resetting never blocks.",
  ["schedules", "histories", "fault_sequences"], "All concurrent histories of notify, wait, timed wait and reset; any number of waiters.",
  "Tests wait from one thread; the event passes a single token from waiter to waiter, so only several waiters and a chosen schedule show a lost one.",
  [EV, PW], [("each woken waiter re-posts the token", EV), ("reset drains the tokens", EV)], observe=["linearizability of the recorded history against a flag", "deadlock"])
p("C15", "Each auto reset notification releases one waiter, none is lost",
  "Every notification of an auto reset event lets exactly one wait succeed, the one that is blocked or the next to come, and every successful wait is due to a notification of its own; expired timed waits use up none.",
  ["schedules", "histories", "fault_sequences"], "All concurrent histories of notify, wait and timed wait; any number of waiters; interrupted system calls.",
  "Tests use one waiter and one notification at a time.",
  [EV, PW], [("a token per notification, consumed by the waiter", EV)], observe=["linearizability of the recorded history", "deadlock"])
p("C16", "A mutex admits one holder at a time and orders critical sections",
  "Between a successful lock, attempt or timed attempt and the matching unlock no other thread or process sharing the mutex gets it, and everything done in earlier critical sections is visible in later ones. "
  "An attempt fails only while someone else holds it, a blocked lock gets it once it is released, and unlocking a mutex which nobody holds does not let two threads in afterwards.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of lock, attempts, timed attempts and unlock from several threads and processes, interrupted system calls.",
  "Tests lock from two threads with sleeps in between.",
  [MX, PW], [("binary semaphore", MX)], observe=["number of holders", "data races on data the mutex protects"])
p("C17", "Timed waits honour their deadline, neither early nor stuck",
  "A timed wait or lock attempt that fails has waited at least the requested time on the clock it uses, and one for which nothing comes fails soon after it, for every duration that can be represented in nanoseconds, including zero, negative ones, those that cross a second and deadlines long past; it succeeds if the object is signalled in time. "
  "Signals interrupting it neither shorten nor prolong it, and clock steps never leave it stuck once the clock passed the deadline.",
  ["inputs", "schedules", "fault_sequences"], "All durations and starting times, signals at any time, stalled threads and clock steps.",
  "Tests wait for one or two durations in real time; the fraction of the second at which a test starts is not under its control.",
  [PW, EV, SEM, MX], [("absolute deadline computed from the real time clock, wait restarted after signals", PW)], observe=["simulated time at call and return"])
p("C18", "A name denotes one object while its creator lives, across processes",
  "As long as the object that created a named synchronisation object lives, everyone who opens the name, in any process, gets that same object; creating an existing name or opening a missing one fails and leaves no trace. "
  "Processes that only opened it may exit, crash or drop it at any point without affecting the others, and the name is free again once the creator releases it.",
  ["histories", "crash_points", "schedules", "fault_sequences"], "All sequences and interleavings of create, open, use, release and crash over several processes, failing system calls.",
  "Tests use names within one process, in one order.",
  [PW, I + "synchronization/sync_common.hpp"], [("exclusive creation, opening without creation, name removed by the creator", PW)], observe=["the kernel object behind each handle", "names and handles left over"])
p("C19", "The scheduler is idle only when nothing is queued or running",
  "The scheduler reports itself idle only if at some moment during the query no task submitted before it was still queued or being executed by a worker; once nothing is queued or running any more it does report itself idle. "
  "Waiting until it is idle returns only then or once the time limit has passed, and does return, even if the system's clock is set meanwhile.",
  ["schedules", "histories"], "All interleavings of queries with submissions, pick-ups and completions, including tasks submitting tasks.",
  "Tests call it once after waiting; the window between queue and worker is a few instructions.",
  [SC, WK], [("count of tasks queued or being executed", SC)], observe=["tasks unfinished at both ends of a query that returned idle"])
p("C20", "Task identifiers are unique and valid",
  "No two tasks or groups created in a process, by whichever threads at whatever time, have the same identifier, none has the reserved invalid one, and an identifier never changes; a task moved to another object takes its identifier along.",
  ["schedules"], "All interleavings of concurrent task and group creation.",
  "Tests never compare identifiers of tasks created concurrently.",
  [TB, I + "scheduling/task_type.hpp"], [("shared atomic counter", TB)], observe=["identifiers of tasks made by concurrent threads"])
p("C21", "A thread runs its function once; failures to start are clean",
  "A thread object runs the given function exactly once with the given arguments; join returns only after it finished, with its effects visible; moving it moves that duty, and a detached or terminated thread is released once it is over. "
  "When the system refuses the thread the object is left non joinable and nothing leaks, and failures to set its name, affinity or priority do not prevent it from running. Where the system grants them it has the name, stack size, core affinity and priority it was created with.",
  ["schedules", "fault_sequences"], "All interleavings of creator and new thread, every failing thread creation or attribute call, every limit on real time priorities.",
  "The tests never see a failing thread call.",
  [TI, TP], [("heap allocated launcher owned by the new thread once created", TI), ("system calls checked", TP)], observe=["calls of the function, live blocks, joinable state"])
p("C22", "The concurrent queue is a linearizable FIFO",
  "Any concurrent history of push, tryPop and empty on the queue is one of a first in first out queue: nothing is lost, duplicated or reordered, a pop fails only when the queue was empty, and elements are handed over with their contents visible.",
  ["schedules", "histories"], "All interleavings of pushes, pops and emptiness queries from several threads.",
  "It has no test of its own.",
  [CQ], [("a lock around a standard queue", CQ)], observe=["linearizability of the recorded history", "data races"])
p("C23", "Partitioners hand out disjoint ranges that cover the whole",
  "For every first and last index and every positive batch count and chunk size, the ranges handed out to any number of concurrent callers are non-empty, within bounds, disjoint and cover the whole range exactly; after that every caller is told there is nothing left. "
  "The element and batch counts match, and a copy behaves as the original did at that time.",
  ["inputs", "schedules"], "All ranges (negative bounds included), batch counts, chunk sizes and interleavings of callers.",
  "Tests use ranges starting at zero, one chunk size, and check only sums.",
  [AP, SP, BP], [("compare and swap on the shared index", AP), ("atomic batch counter and arithmetic with remainder", SP)], observe=["ranges returned to each caller"])
p("C24", "Single threaded execution runs everything once, in order, right there",
  "Executing a task or group single threaded runs all of it on the calling thread, in order, each task once, and completes it before returning, with no help from workers; if another thread already took it (for a group: a worker, or another single threaded execution), it is neither executed again nor reported done before that thread finished it.",
  ["schedules", "programs"], "All nestings of groups, racing with workers and waiters that may grab the same task.",
  "Tests never race it with a scheduler.",
  [TK, TG, PG, SG], [("grab flag", TB), ("recursive execution without notifying the parent", TG)], observe=["thread and order of executions", "state seen by waiters"])
p("C25", "Sleeping lasts at least the requested time, signals or not",
  "Sleeping for a duration, or until a time, returns no earlier than requested, however many signals interrupt it, whatever the unit of the duration and even if the clock the time belongs to is set back meanwhile, and soon after; zero or negative durations and times in the past return immediately.",
  ["inputs", "fault_sequences"], "All durations, signals and clock steps at any time.",
  "On the pinned commit the function did not even compile when used.",
  [TP, I + "threading/this_thread.hpp"], [("sleep resumed with the remaining time after a signal", TP)], observe=["simulated time at call and return"])
p("C26", "A submission that runs out of memory leaves the scheduler intact",
  "When memory runs out while a task or group is created or submitted, the exception reaches the caller, nothing leaks, and the scheduler with everything submitted before and after keeps its guarantees. A task whose submission failed is not executed unless it is submitted again, which is possible.",
  ["fault_sequences", "schedules"], "An allocation failure at every allocation made by a client, at any time relative to the workers.",
  "The tests never fail an allocation.",
  [SC, TH, HL, CQ], [("resources held by owning objects", TH), ("task counted only while queued or executing", SC)], observe=["leaks, executions and progress after the failure"])
p("C27", "Moving a synchronisation object transfers it, leaking nothing",
  "Moving a semaphore, event or mutex, by construction or assignment, transfers the underlying object with its state: the source becomes invalid, the destination works as the source did for everyone sharing it, and what the destination held before is released. "
  "Each underlying object is released exactly once.",
  ["histories", "schedules"], "All sequences of moves between local and named, valid and moved-from objects, with others using the named ones.",
  "Tests move once into an empty object.",
  [PW, SEM, EV, MX], [("ownership of the handle, name and duty to unlink moves along", PW)], observe=["handles and names alive after each step, tokens"])
p("C28", "Thread priorities and affinities map onto the system's",
  "Setting a thread priority or affinity and reading it back gives the nearest value the system supports, and the mapping between the library's and the system's priorities is monotonic.",
  ["inputs"], "All priority and affinity values.", "Pure arithmetic on values that the tests do not enumerate.",
  [TP, I + "threading/thread_attributes.hpp"], [("linear mapping onto the range of the scheduling policy", TP)],
  na="A pure mapping of one value to another inside a single call: no schedule, time, fault or party for a simulator to vary (the simulated system calls would only echo the value back); failures of these calls are covered by C21.")
p("C29", "The Windows backend gives the same guarantees",
  "On Windows, too, no token, signal or lock is lost or made up, and waits and sleeps end for nothing but what they wait for or their time, whatever asynchronous procedure calls the thread executes meanwhile; waiting for any of several objects takes the one it names; "
  "names work across processes; moves transfer objects; threads run their function once, with the attributes asked for; tasks and loops keep their guarantees; and no handle is left open. Where Win32 objects differ they show their nature: an auto reset event is signalled or not, "
  "a mutex is recursive, belongs to a thread and is handed on when that thread is gone, a semaphore has a maximum, a name lives until its last handle is closed.",
  ["configurations", "schedules", "histories", "fault_sequences"], "The other platform backend, with everything the other properties quantify over.", "The tests build one backend, and for the others the limits are the same.",
  [I + "synchronization/win/win_event.hpp", I + "synchronization/win/win_semaphore.hpp", I + "synchronization/win/win_mutex.hpp", I + "synchronization/win/win_wait.hpp", I + "synchronization/win/win_sync.hpp", I + "threading/win_thread.hpp"],
  [("Win32 kernel objects", I + "synchronization/win/win_event.hpp"), ("waits restarted until their object or time comes", I + "synchronization/win/win_wait.hpp")],
  observe=["linearizability of histories", "simulated time at call and return", "handles, names and threads left over"])

DIFF = "deterministic simulation with fault injection: seeded search over schedules and faults of the real code, "
ORACLE = {
 "C13": "linearizability check of each history", "C14": "linearizability check of each history", "C15": "linearizability check of each history", "C22": "linearizability check of each history",
 "C11": "happens-before race detection", "C10": "simulated heap with use-after-free, double-free and leak detection", "C17": "simulated clocks", "C25": "simulated clocks",
 "C29": "the oracles of the other properties over a simulated Win32", "C18": "simulated processes and named kernel objects with crashes", "C26": "allocation failures", "C02": "deadlock and bounded progress detection",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, na in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, na in P:
        i = d["id"]
        if i in CATALOG:
            checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=DIFF + ORACLE.get(i, "invariants and history oracle"), level="exploration",
                               level_note=CATALOG[i].get("note", "No violation in the runs explored (hundreds of thousands in the quick tier, tens of millions in the thorough one); not exhaustive. "
                                                         "Real library code, simulated threads, semaphores, locks, clocks and heap; sequentially consistent interleavings.")))
        else:
            nas.append(dict(property=i, reason=na or "check not built yet"))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=nas,
             notes="No hooks in /repo: the code under test is compiled unmodified with compiler instrumentation, and the simulator supplies the instrumentation callbacks and the system calls. "
                   "Replay a violation with: python3 run.py --replay <file>.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
