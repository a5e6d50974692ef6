From 9e26c1761c91f463d2632c18dfa3bf10f8fd9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 01/33] fix: normalise the deadline of timed waits

Adding the sub-second part of the duration to the current time can carry into the next
second (or go below zero for a negative duration). sem_timedwait rejects such a timespec
with EINVAL, so the wait returned at once as if it had timed out.
---
 .../posix/posix_semaphore_wrapper.hpp               | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..7ab2bc4 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -131,6 +131,19 @@ namespace oqpi {
             t.tv_sec            += secs.count();
             t.tv_nsec           += nanoseconds.count();
 
+            // Keep tv_nsec in the [0; 1e9[ range or sem_timedwait fails right away with EINVAL.
+            constexpr auto nanosecondsPerSecond = 1000000000l;
+            if (t.tv_nsec >= nanosecondsPerSecond)
+            {
+                t.tv_nsec -= nanosecondsPerSecond;
+                ++t.tv_sec;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_nsec += nanosecondsPerSecond;
+                --t.tv_sec;
+            }
+
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
             {
-- 
2.43.0


From cb381a1df60a8a0465a6b4d13a36d9f5595f356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 02/33] fix: keep waiting when a signal interrupts a semaphore
 wait

sem_wait and sem_timedwait fail with EINTR when a signal handler runs. Every primitive is built
on them, so an interrupted event wait returned before the event was notified, an interrupted
mutex lock returned without the lock and an interrupted task wait returned before the task ended.
---
 .../posix/posix_semaphore_wrapper.hpp            | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7ab2bc4..36bcf9b 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -106,7 +106,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = 0;
+            do
+            {
+                // A signal handler interrupting the wait must not be mistaken for a token.
+                error = sem_wait(handle_);
+            } while (error == -1 && errno == EINTR);
+
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -144,7 +150,13 @@ namespace oqpi {
                 --t.tv_sec;
             }
 
-            const auto error    = sem_timedwait(handle_, &t);
+            auto error = 0;
+            do
+            {
+                // The deadline is absolute, so waiting again after a signal doesn't extend it.
+                error = sem_timedwait(handle_, &t);
+            } while (error == -1 && errno == EINTR);
+
             if(error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
-- 
2.43.0


From 15a13e985f5df230415ffb6274e127b77234b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/33] fix: return the result of the semaphore's timed wait

---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From 10b67ab4cbad9f5d8fdfefc005861808c7f56916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 04/33] fix: do not lose a task or crash when the scheduler
 stops

A worker that found the scheduler stopped while its own flag was still set went on to execute
an invalid handle. A worker that had already popped and grabbed a task when stop() was called
dropped it: the task was never executed and anyone waiting on it blocked forever.
---
 include/oqpi/scheduling/scheduler.hpp | 10 ++++++----
 include/oqpi/scheduling/worker.hpp    | 24 +++++++++++-------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..3db4232 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,15 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
+            // Flag the workers first: a worker finding out that the scheduler is stopping has to
+            // know that it's meant to quit.
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
@@ -287,8 +289,8 @@ namespace oqpi {
                 // Grab the next task
                 task_handle hTask = waitForNextTask(w);
 
-                // We could have been waken up to stop
-                if (!running_.load())
+                // We could have been waken up to stop, but a task we managed to grab is ours to execute
+                if (!hTask.isValid() && !running_.load())
                 {
                     return;
                 }
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..db5ff9d 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -106,20 +106,18 @@ namespace oqpi {
                 // We consider ourselves active either way
                 _WorkerContext::worker_onActive();
 
-                // Check if we've waken up to work on a new task
-                if (isRunning())
+                // Check if we've waken up to work on a new task, even if we've been asked to stop in
+                // the meantime: once grabbed, no one else can execute it.
+                if (worker_base::hTask_.isValid())
                 {
-                    if (oqpi_ensure(worker_base::hTask_.isValid()))
-                    {
-                        // Inform the context that we're about to start the execution of a new task
-                        _WorkerContext::worker_onPreExecute(worker_base::hTask_);
-                        // Actually execute the task
-                        worker_base::hTask_.execute();
-                        // Inform the context that we just finished the execution of a task
-                        _WorkerContext::worker_onPostExecute(worker_base::hTask_);
-                        // Reset the task, can potentially free the memory if there's no more reference to that task
-                        worker_base::hTask_.reset();
-                    }
+                    // Inform the context that we're about to start the execution of a new task
+                    _WorkerContext::worker_onPreExecute(worker_base::hTask_);
+                    // Actually execute the task
+                    worker_base::hTask_.execute();
+                    // Inform the context that we just finished the execution of a task
+                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);
+                    // Reset the task, can potentially free the memory if there's no more reference to that task
+                    worker_base::hTask_.reset();
                 }
             }
 
-- 
2.43.0


From 03414b1905d29ea118195d7faf289448a026285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 05/33] fix: run a single task at a time when a parallel group
 is limited to one

The limit was only checked after a task had been scheduled, on top of the one executed by the
worker running the group, so a limit of one let two tasks run in parallel.
---
 include/oqpi/scheduling/parallel_group.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..9f9ae81 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -92,15 +92,14 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                // The first task is executed right here, it counts as one of the simultaneous tasks
+                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
+                        ++scheduledTasks;
                     }
                 }
 
-- 
2.43.0


From f11234697182e27af51984611c756f668a7011ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 06/33] fix: respect the simultaneous tasks limit while
 actively waiting on a parallel group

A thread in activeWait() grabbed any task of the group, even those whose turn hadn't come, and
each completion then scheduled one more task: the group ran more tasks at once than its limit.
---
 include/oqpi/scheduling/parallel_group.hpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 9f9ae81..e56e693 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -64,11 +64,14 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void activeWait() override final
         {
-            for (auto &hTask : tasks_)
+            const auto taskCount = tasks_.size();
+            // When the number of simultaneous tasks is limited only take over tasks that already have
+            // been given their turn: currentTaskIndex_ is the first one that hasn't.
+            for (size_t i = 0; i < taskCount && (maxSimultaneousTasks_ <= 0 || i < currentTaskIndex_.load()); ++i)
             {
-                if (hTask.tryGrab())
+                if (tasks_[i].tryGrab())
                 {
-                    hTask.execute();
+                    tasks_[i].execute();
                 }
             }
 
@@ -96,11 +99,9 @@ namespace oqpi {
                 while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
                     && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
-                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
-                    {
-                        this->scheduler_.add(tasks_[i]);
-                        ++scheduledTasks;
-                    }
+                    // No need to look for another one if this task has been grabbed in the meantime
+                    this->scheduler_.add(tasks_[i]);
+                    ++scheduledTasks;
                 }
 
                 if (tasks_[0].tryGrab())
@@ -120,15 +121,10 @@ namespace oqpi {
             }
             else if (maxSimultaneousTasks_ > 0)
             {
-                const auto taskCount = tasks_.size();
-                size_t i = 0;
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                const auto i = currentTaskIndex_.fetch_add(1);
+                if (i < tasks_.size())
                 {
-                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
-                    {
-                        this->scheduler_.add(tasks_[i]);
-                        break;
-                    }
+                    this->scheduler_.add(tasks_[i]);
                 }
             }
         }
-- 
2.43.0


From 69f98b9f341f529af2135de788cd42a88d18a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 07/33] fix: make the atomic partitioner cover ranges that do
 not start at zero

The number of remaining indices was computed from the number of elements rather than from the
last index: [10;20[ yielded nothing and [-5;5[ went past its end.
---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From 9a2a863221f4e3c482f3a434cb02dfee524611e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 08/33] fix: leave a thread that failed to start non joinable

pthread_create leaves the handle undefined when it fails (glibc writes it), so a failed thread could
be reported as joinable and joined. Destroy the attributes on that path as well.
---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..5679186 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -147,15 +147,17 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
-            if(error != 0)
+            if(pThreadAttr != nullptr)
             {
-                oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                pthread_attr_destroy(pThreadAttr);
             }
 
-            if(pThreadAttr != nullptr)
+            if(error != 0)
             {
-                pthread_attr_destroy(pThreadAttr);
+                oqpi_error("pthread_create failed with error number: %d", error);
+                // The content of handle_ is undefined when pthread_create fails
+                handle_ = 0;
+                return false;
             }
 
             setCoreAffinityMask(attributes.coreAffinityMask_);
-- 
2.43.0


From 547e9b852bf2532d8d7253e54705601634da130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 09/33] fix: only complete a group executed single threaded
 when it could be grabbed

executeSingleThreaded() on a group already grabbed executed none of its tasks, yet flagged the group
as done and released whoever was waiting on it while its tasks were still running.
---
 include/oqpi/scheduling/parallel_group.hpp | 15 ++++++---------
 include/oqpi/scheduling/sequence_group.hpp |  9 +++------
 include/oqpi/scheduling/task_group.hpp     | 14 +++++++++-----
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index e56e693..fbf4815 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -46,19 +46,16 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            const auto taskCount = tasks_.size();
+            if (oqpi_ensure(taskCount > 0))
             {
-                const auto taskCount = tasks_.size();
-                if (oqpi_ensure(taskCount > 0))
+                oqpi_check(taskCount == activeTasksCount_);
+                for (size_t i = 0; i < taskCount; ++i)
                 {
-                    oqpi_check(taskCount == activeTasksCount_);
-                    for (size_t i = 0; i < taskCount; ++i)
-                    {
-                        tasks_[i].executeSingleThreaded();
-                    }
+                    tasks_[i].executeSingleThreaded();
                 }
-                tasks_.clear();
             }
+            tasks_.clear();
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/sequence_group.hpp b/include/oqpi/scheduling/sequence_group.hpp
index 94ca50c..90ace90 100644
--- a/include/oqpi/scheduling/sequence_group.hpp
+++ b/include/oqpi/scheduling/sequence_group.hpp
@@ -38,13 +38,10 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            while (!empty())
             {
-                while (!empty())
-                {
-                    auto hTask = popTask();
-                    hTask.executeSingleThreaded();
-                }
+                auto hTask = popTask();
+                hTask.executeSingleThreaded();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 2b4e4a1..84f517d 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -57,12 +57,16 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            _GroupContext::group_onPreExecute();
-            executeSingleThreadedImpl();
-            _GroupContext::group_onPostExecute();
+            // If someone else grabbed this group, it's up to them to execute it and to flag it as done
+            if (task_base::tryGrab())
+            {
+                _GroupContext::group_onPreExecute();
+                executeSingleThreadedImpl();
+                _GroupContext::group_onPostExecute();
 
-            task_base::setDone();
-            notifier_type::notify();
+                task_base::setDone();
+                notifier_type::notify();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From 18d4071b19408d47644305302bc57957cf398907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 10/33] fix: implement this_thread::sleep_for on posix

There is no such thing as pthread_sleep: any use of sleep_for, sleep_until or
scheduler::waitUntilIdle failed to compile.
---
 include/oqpi/threading/posix_thread.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 5679186..8d51e2a 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <chrono>
+#include <cerrno>
+#include <ctime>
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
@@ -405,7 +407,16 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            const auto nanoseconds = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime);
+            if (nanoseconds.count() > 0)
+            {
+                const auto secs     = std::chrono::duration_cast<std::chrono::seconds>(nanoseconds);
+                auto remainingTime  = timespec{};
+                remainingTime.tv_sec    = secs.count();
+                remainingTime.tv_nsec   = (nanoseconds - secs).count();
+                // Go back to sleep for the remaining time when interrupted by a signal
+                while (nanosleep(&remainingTime, &remainingTime) == -1 && errno == EINTR);
+            }
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From bf41b151542a658a1e91f022da0497b8aa2eb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 11/33] fix: don't report the scheduler as idle while a worker
 is picking up a task

isIdle() looked at the queues then at the workers: a task popped from its queue and not yet assigned
to a worker was in neither, and both were read without synchronisation with the workers.
---
 include/oqpi/scheduling/scheduler.hpp | 33 +++++++++++++--------------
 include/oqpi/scheduling/worker.hpp    |  2 ++
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 3db4232..8ab5f22 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -30,6 +30,7 @@ namespace oqpi {
     public:
         scheduler()
             : running_(false)
+            , unfinishedTasksCount_(0)
         {
             std::memset(&workersPerPrio_[0], 0, sizeof(workersPerPrio_));
         }
@@ -149,23 +150,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool isIdle() const
         {
-            for (const auto &taskQueue : pendingTasks_)
-            {
-                if (!taskQueue.empty())
-                {
-                    return false;
-                }
-            }
-
-            for (const auto &upWorker : workers_)
-            {
-                if (!upWorker->isAvailable())
-                {
-                    return false;
-                }
-            }
-
-            return true;
+            // Counting the tasks rather than looking at the queues and at the workers: a task on its way
+            // from a queue to a worker is in neither of them.
+            return unfinishedTasksCount_.load() == 0;
         }
 
         //------------------------------------------------------------------------------------------
@@ -194,6 +181,7 @@ namespace oqpi {
             if (hTask.isValid() && !hTask.isGrabbed() && !hTask.isDone())
             {
                 const auto priority = resolveTaskPriority(hTask);
+                unfinishedTasksCount_.fetch_add(1);
                 pendingTasks_[int(priority)].push(hTask);
                 wakeUpWorkersWithPriority(priority);
             }
@@ -256,6 +244,7 @@ namespace oqpi {
                             {
                                 // The task has already been grabbed by someone else
                                 hTask.reset();
+                                signalTaskFinished();
                             }
                         }
                     }
@@ -307,10 +296,18 @@ namespace oqpi {
                         // We got a task! See ya!
                         break;
                     }
+                    signalTaskFinished();
                 }
             }
         }
 
+        //------------------------------------------------------------------------------------------
+        // Called by worker threads once they are done with the task that was assigned to them.
+        void signalTaskFinished()
+        {
+            unfinishedTasksCount_.fetch_sub(1);
+        }
+
     private:
         //------------------------------------------------------------------------------------------
         // Signal all workers
@@ -341,6 +338,8 @@ namespace oqpi {
         int32_t                     workersPerPrio_[PRIO_COUNT];
         _TaskQueueType<task_handle> pendingTasks_[PRIO_COUNT];
         std::atomic<bool>           running_;
+        // Number of tasks waiting in the queues or being executed by the workers
+        std::atomic<int32_t>        unfinishedTasksCount_;
     };
     //----------------------------------------------------------------------------------------------
 
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index db5ff9d..33c3dc5 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -118,6 +118,8 @@ namespace oqpi {
                     _WorkerContext::worker_onPostExecute(worker_base::hTask_);
                     // Reset the task, can potentially free the memory if there's no more reference to that task
                     worker_base::hTask_.reset();
+                    // Let the scheduler know, now that this worker is available again
+                    scheduler_.signalTaskFinished();
                 }
             }
 
-- 
2.43.0


From d9c0257fd5b8a3893fbdff4bd37377d2b26c6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 12/33] fix: take over the source when move assigning to a
 valid synchronization object

The assignment was silently ignored when the destination was valid.
---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 36bcf9b..941cba1 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -57,8 +57,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 rhs.handle_ = nullptr;
-- 
2.43.0


From 62d54feedc9bc1c5303e3970282ce3067d442ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 13/33] fix: don't split or destroy named synchronization
 objects

open_existing created the object when it didn't exist, if only for a moment, and removed its name.
Releasing any of the objects opened with a name removed that name, so the next one to open it got
another object than those still in use.
---
 .../posix/posix_semaphore_wrapper.hpp         | 52 +++++++++++++------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 941cba1..a3d28a6 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -50,6 +50,7 @@ namespace oqpi {
         posix_semaphore_wrapper(posix_semaphore_wrapper &&other)
             : handle_(other.handle_)
             , name_(other.name_)
+            , owner_(other.owner_)
         {
             other.handle_ = nullptr;
         }
@@ -62,6 +63,7 @@ namespace oqpi {
                 release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
+                owner_      = rhs.owner_;
                 rhs.handle_ = nullptr;
             }
             return (*this);
@@ -202,28 +204,36 @@ namespace oqpi {
                 return false;
             }
 
-            // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
-            // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
-
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
+            auto retry = false;
+            do
             {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
-            }
+                handle_ = SEM_FAILED;
+                errno   = EEXIST;
 
-            // Open a semaphore
-            if (handle_ == SEM_FAILED &&
-                (creationOption == sync_object_creation_options::open_existing
-                    || creationOption == sync_object_creation_options::open_or_create))
-            {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
-            }
+                if (creationOption != sync_object_creation_options::open_existing)
+                {
+                    // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
+                    // name already exists. Otherwise it creates it.
+                    handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                    owner_  = handle_ != SEM_FAILED;
+                }
+
+                if (handle_ == SEM_FAILED && errno == EEXIST
+                    && creationOption != sync_object_creation_options::create_if_nonexistent)
+                {
+                    // Without O_CREAT this only opens a semaphore that exists.
+                    handle_ = sem_open(name_.c_str(), 0);
+                }
+
+                // Someone else could have unlinked the semaphore right after we failed to create it.
+                retry = handle_ == SEM_FAILED && errno == ENOENT
+                    && creationOption == sync_object_creation_options::open_or_create;
+            } while (retry);
 
             if (handle_ == SEM_FAILED)
             {
                 oqpi_error("sem_open failed with error %d", errno);
+                handle_ = nullptr;
                 return false;
             }
 
@@ -269,7 +279,12 @@ namespace oqpi {
         void releaseGlobalSemaphore()
         {
             sem_close(handle_);
-            sem_unlink(name_.c_str());
+            // Only the creator removes the name: those who merely opened the semaphore must not take it
+            // away from everyone else.
+            if (owner_)
+            {
+                sem_unlink(name_.c_str());
+            }
         }
 
 
@@ -285,6 +300,9 @@ namespace oqpi {
         sem_t       *handle_;
         //------------------------------------------------------------------------------------------
         std::string name_;
+        //------------------------------------------------------------------------------------------
+        // Whether or not this object created the named semaphore
+        bool        owner_ = false;
     };
 
 } /*oqpi*/
-- 
2.43.0


From 64b9dc7931a742f48f3daaa2d1fdb90dba46bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 14/33] fix: lock the concurrent queue to tell whether it is
 empty

---
 include/oqpi/concurrent_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..c508a75 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
-    std::queue<T>   queue_;
+    mutable std::mutex  mutex_;
+    std::queue<T>       queue_;
 };
-- 
2.43.0


From 390b998bd9f0b9b77307663452c0c4e6d27d94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 15/33] fix: don't block in the reset of a manual reset event

A waiter taking the last token between getValue() and wait() left reset() blocked until the next
notify.
---
 include/oqpi/synchronization/posix/posix_event.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..9a8d3d8 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -140,19 +140,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            // Never wait for it: someone else could take the last token in the meantime.
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 78bb1df10c565f06e633edbf282455227b916670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 16/33] fix: don't read the parent of a task that is being
 executed

A thread in activeWait() can execute a task while it is being added to the scheduler. Resolving its
inherited priority read its parent group while the other thread was resetting it.
---
 include/oqpi/scheduling/scheduler.hpp       | 12 +++++++-----
 include/oqpi/scheduling/task_base.hpp       |  5 +++--
 include/oqpi/scheduling/task_group_base.hpp |  2 +-
 include/oqpi/scheduling/task_handle.hpp     |  2 +-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 8ab5f22..ad75d8e 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -198,17 +198,19 @@ namespace oqpi {
 
             if (priority == task_priority::inherit)
             {
-                auto pParentGroup = hTask.getParentGroup().get();
+                auto spParentGroup = hTask.getParentGroup();
                 do 
                 {
-                    if (oqpi_failedf(pParentGroup != nullptr, "One parent group is invalid for this task: %d", hTask.getUID()))
+                    if (spParentGroup == nullptr)
                     {
-                         priority = task_priority::normal;
+                        // Fine if the task has been executed in the meantime, it won't be executed again
+                        oqpi_checkf(hTask.isDone(), "One parent group is invalid for this task: %d", hTask.getUID());
+                        priority = task_priority::normal;
                         break;
                     }
 
-                    priority     = pParentGroup->getPriority();
-                    pParentGroup = pParentGroup->getParentGroup().get();
+                    priority      = spParentGroup->getPriority();
+                    spParentGroup = spParentGroup->getParentGroup();
 
                 } while (priority == task_priority::inherit);
             }
diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 69f16f8..fa2accf 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -96,9 +96,10 @@ namespace oqpi {
             onParentGroupSet();
         }
 
-        inline const task_group_sptr& getParentGroup() const
+        // By value, as the parent is reset by the thread executing the task once it's done
+        inline task_group_sptr getParentGroup() const
         {
-            return spParentGroup_;
+            return std::atomic_load(&spParentGroup_);
         }
 
         inline task_priority getPriority() const
diff --git a/include/oqpi/scheduling/task_group_base.hpp b/include/oqpi/scheduling/task_group_base.hpp
index 800ad37..e5436fb 100644
--- a/include/oqpi/scheduling/task_group_base.hpp
+++ b/include/oqpi/scheduling/task_group_base.hpp
@@ -44,7 +44,7 @@ namespace oqpi {
         if (spParentGroup_)
         {
             spParentGroup_->oneTaskDone();
-            spParentGroup_.reset();
+            std::atomic_store(&spParentGroup_, task_group_sptr());
         }
     }
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/task_handle.hpp b/include/oqpi/scheduling/task_handle.hpp
index cc0c20e..6f229e6 100644
--- a/include/oqpi/scheduling/task_handle.hpp
+++ b/include/oqpi/scheduling/task_handle.hpp
@@ -139,7 +139,7 @@ namespace oqpi {
         }
 
         //------------------------------------------------------------------------------------------
-        const task_group_sptr& getParentGroup() const
+        task_group_sptr getParentGroup() const
         {
             validate();
             return spTask_->getParentGroup();
-- 
2.43.0


From 395c595a63ddac7eb4dfa508d6ddb8fa7c70f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 17/33] fix: don't count a task that could not be queued as
 unfinished

When the queue ran out of memory the exception left the count of unfinished tasks incremented, and the
scheduler never reported itself as idle again.
---
 include/oqpi/scheduling/scheduler.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index ad75d8e..bd413f5 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -182,7 +182,16 @@ namespace oqpi {
             {
                 const auto priority = resolveTaskPriority(hTask);
                 unfinishedTasksCount_.fetch_add(1);
-                pendingTasks_[int(priority)].push(hTask);
+                try
+                {
+                    pendingTasks_[int(priority)].push(hTask);
+                }
+                catch (...)
+                {
+                    // The task has not been queued, no one is ever going to finish it
+                    signalTaskFinished();
+                    throw;
+                }
                 wakeUpWorkersWithPriority(priority);
             }
             return hTask;
-- 
2.43.0


From 1fb5da6457ded6d35118b185579f45e643f15832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 18/33] fix: don't bind a task to a group it could not be added
 to

---
 include/oqpi/scheduling/task_group.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 84f517d..cff9ac0 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -40,8 +40,9 @@ namespace oqpi {
                 if (oqpi_ensuref(hTask.getParentGroup() == nullptr,
                     "This task (%d) is already bound to a group: %d", hTask.getUID(), hTask.getParentGroup()->getUID()))
                 {
-                    hTask.setParentGroup(shared_from_this());
                     addTaskImpl(hTask);
+                    // Only once it's in the group: adding it could have run out of memory
+                    hTask.setParentGroup(shared_from_this());
                     _GroupContext::group_onTaskAdded(hTask);
                 }
             }
-- 
2.43.0


From 8a7550ca23a19a67cd8d3a46b214e730e416dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 19/33] fix: start threads whose priority the system doesn't
 grant

With a real time priority limit (RLIMIT_RTPRIO) that is neither 0 nor high enough for the
requested priority, pthread_create fails with EPERM and no thread could be created at all.
---
 include/oqpi/threading/posix_thread.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 8d51e2a..09c8c2e 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -149,6 +149,16 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
+            if(error == EPERM && pThreadAttr != nullptr)
+            {
+                // The priority may be higher than what the system grants (see RLIMIT_RTPRIO),
+                // this must not prevent the thread from running.
+                oqpi_warning("The thread priority isn't permitted, using the one of the creating thread.");
+
+                pthread_attr_setinheritsched(pThreadAttr, PTHREAD_INHERIT_SCHED);
+                error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
+            }
+
             if(pThreadAttr != nullptr)
             {
                 pthread_attr_destroy(pThreadAttr);
-- 
2.43.0


From 0a969c55dab500636bffcde272af3e146c1a279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 20/33] fix: a task moved from doesn't keep its identifier

As in the move assignment, or two tasks have the same one.
---
 include/oqpi/scheduling/task_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index fa2accf..1ab19db 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -48,7 +48,9 @@ namespace oqpi {
             , priority_(other.priority_)
             , grabbed_(other.grabbed_.load())
             , done_(other.done_.load())
-        {}
+        {
+            other.uid_ = invalid_task_uid;
+        }
 
         //------------------------------------------------------------------------------------------
         task_base& operator =(task_base &&rhs)
-- 
2.43.0


From 133f32b960a5d905a641ae9716ad9bf78c3f74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 21/33] fix: move the result along with the task it is the
 result of

---
 include/oqpi/scheduling/task.hpp        | 2 ++
 include/oqpi/scheduling/task_result.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..6f2cc80 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
diff --git a/include/oqpi/scheduling/task_result.hpp b/include/oqpi/scheduling/task_result.hpp
index b831af8..c5397b3 100644
--- a/include/oqpi/scheduling/task_result.hpp
+++ b/include/oqpi/scheduling/task_result.hpp
@@ -25,7 +25,7 @@ namespace oqpi {
         }
 
     protected:
-        _ReturnType result_;
+        _ReturnType result_{};
     };
     //----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From bbc40a3de731ed5ff3a687be043b6ac08183c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 22/33] fix: release threads that have been terminated

---
 include/oqpi/threading/posix_thread.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 09c8c2e..821c5d0 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -247,6 +247,8 @@ namespace oqpi {
             const auto error = pthread_cancel(handle_);
             if (error == 0)
             {
+                // Nobody is going to join it, let the system release it once it's over
+                pthread_detach(handle_);
                 handle_ = 0;
             }
             else
-- 
2.43.0


From 62ffb1004f9fe2d3609b8d2ac9af4941d4a22aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 23/33] fix: all_cores are all the cores of a machine with more
 than 32, and a machine with 64 cores or more accepts masks

---
 include/oqpi/threading/posix_thread.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 821c5d0..fdc2d39 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -309,8 +309,14 @@ namespace oqpi {
             CPU_ZERO(&set);
             memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
 
+            if (affinityMask == core_affinity::all_cores)
+            {
+                // There may be more cores than the mask has bits
+                memset(&set.__bits, 0xff, sizeof(set.__bits));
+            }
+
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            oqpi_check(hardware_concurrency() >= 32 || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
 
             const auto error = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &set);
             if(error != 0)
-- 
2.43.0


From eaeb762ba90fa9b13c28dce5ddc4bcb680218dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 24/33] fix: waiting or sleeping until a time far in the past
 returns at once

The difference between the first time point there is and now overflows, so that waits until
then never timed out.
---
 include/oqpi/synchronization/interface/interface_event.hpp   | 5 +++++
 include/oqpi/synchronization/interface/interface_mutex.hpp   | 5 +++++
 .../oqpi/synchronization/interface/interface_semaphore.hpp   | 5 +++++
 include/oqpi/threading/this_thread.hpp                       | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/include/oqpi/synchronization/interface/interface_event.hpp b/include/oqpi/synchronization/interface/interface_event.hpp
index bd8cd0c..011971c 100644
--- a/include/oqpi/synchronization/interface/interface_event.hpp
+++ b/include/oqpi/synchronization/interface/interface_event.hpp
@@ -89,6 +89,11 @@ namespace oqpi { namespace itfc {
         template<typename _Clock, typename _Duration>
         inline bool waitUntil(const std::chrono::time_point<_Clock, _Duration>& absTime)
         {
+            // The time elapsed since a point far in the past may not be representable
+            if (absTime <= _Clock::now())
+            {
+                return waitFor(_Duration::zero());
+            }
             return waitFor(absTime - _Clock::now());
         }
     };
diff --git a/include/oqpi/synchronization/interface/interface_mutex.hpp b/include/oqpi/synchronization/interface/interface_mutex.hpp
index a3ec6ee..e835841 100644
--- a/include/oqpi/synchronization/interface/interface_mutex.hpp
+++ b/include/oqpi/synchronization/interface/interface_mutex.hpp
@@ -110,6 +110,11 @@ namespace oqpi { namespace itfc {
         template<typename _Clock, typename _Duration>
         inline bool tryLockUntil(const std::chrono::time_point<_Clock, _Duration>& absTime)
         {
+            // The time elapsed since a point far in the past may not be representable
+            if (absTime <= _Clock::now())
+            {
+                return tryLockFor(_Duration::zero());
+            }
             return tryLockFor(absTime - _Clock::now());
         }
     };
diff --git a/include/oqpi/synchronization/interface/interface_semaphore.hpp b/include/oqpi/synchronization/interface/interface_semaphore.hpp
index bf93a9c..b734fb3 100644
--- a/include/oqpi/synchronization/interface/interface_semaphore.hpp
+++ b/include/oqpi/synchronization/interface/interface_semaphore.hpp
@@ -91,6 +91,11 @@ namespace oqpi { namespace itfc {
         template<typename _Clock, typename _Duration>
         inline bool waitUntil(const std::chrono::time_point<_Clock, _Duration>& absTime)
         {
+            // The time elapsed since a point far in the past may not be representable
+            if (absTime <= _Clock::now())
+            {
+                return waitFor(_Duration::zero());
+            }
             return waitFor(absTime - _Clock::now());
         }
     };
diff --git a/include/oqpi/threading/this_thread.hpp b/include/oqpi/threading/this_thread.hpp
index 6f957f9..366aa99 100644
--- a/include/oqpi/threading/this_thread.hpp
+++ b/include/oqpi/threading/this_thread.hpp
@@ -45,6 +45,11 @@ namespace oqpi { namespace this_thread {
     template<typename _Clock, typename _Duration>
     inline void sleep_until(const std::chrono::time_point<_Clock, _Duration>& absTime)
     {
+        // The time elapsed since a point far in the past may not be representable
+        if (absTime <= _Clock::now())
+        {
+            return;
+        }
         sleep_for(absTime - _Clock::now());
     }
     //----------------------------------------------------------------------------------------------
-- 
2.43.0


From bcb692de2696bddff29679c7229784d48848f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 25/33] fix: timed waits and sleeps last as long as asked for
 on Windows

The duration was cut to whole milliseconds and then to 32 bits: less than a millisecond didn't
wait at all, 1.9ms waited for 1ms, a negative duration waited for 49 days, 50 days waited for
hours and exactly 0xffffffff milliseconds for ever.
---
 .../oqpi/synchronization/win/win_event.hpp    | 14 ++++-
 .../oqpi/synchronization/win/win_mutex.hpp    | 14 ++++-
 .../synchronization/win/win_semaphore.hpp     | 14 ++++-
 include/oqpi/synchronization/win/win_wait.hpp | 57 +++++++++++++++++++
 include/oqpi/threading/win_thread.hpp         |  7 ++-
 5 files changed, 95 insertions(+), 11 deletions(-)
 create mode 100644 include/oqpi/synchronization/win/win_wait.hpp

diff --git a/include/oqpi/synchronization/win/win_event.hpp b/include/oqpi/synchronization/win/win_event.hpp
index 98738ef..6b68871 100644
--- a/include/oqpi/synchronization/win/win_event.hpp
+++ b/include/oqpi/synchronization/win/win_event.hpp
@@ -3,6 +3,7 @@
 #include "oqpi/platform.hpp"
 #include "oqpi/error_handling.hpp"
 #include "oqpi/synchronization/sync_common.hpp"
+#include "oqpi/synchronization/win/win_wait.hpp"
 
 
 namespace oqpi {
@@ -111,8 +112,10 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            const auto dwMilliseconds = DWORD(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
-            return internalWait(dwMilliseconds, TRUE);
+            return checkResult(win_wait::wait_for(relTime, [this](DWORD dwMilliseconds)
+            {
+                return WaitForSingleObjectEx(handle_, dwMilliseconds, TRUE);
+            }));
         }
 
         //------------------------------------------------------------------------------------------
@@ -129,7 +132,12 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            const auto result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+        }
+
+        //------------------------------------------------------------------------------------------
+        bool checkResult(DWORD result)
+        {
             if (oqpi_failed(result == WAIT_OBJECT_0 || result == WAIT_TIMEOUT))
             {
                 oqpi_error("WaitForSingleObjectEx failed with error code 0x%x", GetLastError());
diff --git a/include/oqpi/synchronization/win/win_mutex.hpp b/include/oqpi/synchronization/win/win_mutex.hpp
index e8c0b4c..e10756d 100644
--- a/include/oqpi/synchronization/win/win_mutex.hpp
+++ b/include/oqpi/synchronization/win/win_mutex.hpp
@@ -3,6 +3,7 @@
 #include "oqpi/platform.hpp"
 #include "oqpi/error_handling.hpp"
 #include "oqpi/synchronization/sync_common.hpp"
+#include "oqpi/synchronization/win/win_wait.hpp"
 
 
 namespace oqpi {
@@ -98,8 +99,10 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool tryLockFor(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            const auto dwMilliseconds = DWORD(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
-            return internalWait(dwMilliseconds, TRUE);
+            return checkResult(win_wait::wait_for(relTime, [this](DWORD dwMilliseconds)
+            {
+                return WaitForSingleObjectEx(handle_, dwMilliseconds, TRUE);
+            }));
         }
 
         //------------------------------------------------------------------------------------------
@@ -112,7 +115,12 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            const auto result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+        }
+
+        //------------------------------------------------------------------------------------------
+        bool checkResult(DWORD result)
+        {
             if (result == WAIT_FAILED)
             {
                 oqpi_error("WaitForSingleObjectEx failed with error code 0x%x", GetLastError());
diff --git a/include/oqpi/synchronization/win/win_semaphore.hpp b/include/oqpi/synchronization/win/win_semaphore.hpp
index 5c7021a..7abc4bc 100644
--- a/include/oqpi/synchronization/win/win_semaphore.hpp
+++ b/include/oqpi/synchronization/win/win_semaphore.hpp
@@ -3,6 +3,7 @@
 #include "oqpi/platform.hpp"
 #include "oqpi/error_handling.hpp"
 #include "oqpi/synchronization/sync_common.hpp"
+#include "oqpi/synchronization/win/win_wait.hpp"
 
 
 namespace oqpi {
@@ -117,15 +118,22 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            const auto dwMilliseconds = DWORD(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
-            return internalWait(dwMilliseconds, TRUE);
+            return checkResult(win_wait::wait_for(relTime, [this](DWORD dwMilliseconds)
+            {
+                return WaitForSingleObjectEx(handle_, dwMilliseconds, TRUE);
+            }));
         }
 
     private:
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            const auto result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+        }
+
+        //------------------------------------------------------------------------------------------
+        bool checkResult(DWORD result)
+        {
             if (oqpi_failed(result == WAIT_OBJECT_0 || result == WAIT_TIMEOUT))
             {
                 oqpi_error("WaitForSingleObjectEx failed with error code 0x%x", GetLastError());
diff --git a/include/oqpi/synchronization/win/win_wait.hpp b/include/oqpi/synchronization/win/win_wait.hpp
new file mode 100644
index 0000000..5ba65af
--- /dev/null
+++ b/include/oqpi/synchronization/win/win_wait.hpp
@@ -0,0 +1,57 @@
+#pragma once
+
+#include <chrono>
+
+#include "oqpi/platform.hpp"
+
+
+namespace oqpi { namespace win_wait {
+
+    //----------------------------------------------------------------------------------------------
+    using float_milliseconds = std::chrono::duration<double, std::milli>;
+
+    //----------------------------------------------------------------------------------------------
+    // Win32 counts in milliseconds and gives INFINITE a special meaning: rounds up not to return
+    // before the time is over, and limits the result to what can be waited for in one go.
+    inline DWORD to_win_milliseconds(float_milliseconds time)
+    {
+        constexpr auto longest = DWORD{ INFINITE - 1 };
+        if (!(time.count() > 0.0))
+        {
+            return 0;
+        }
+        if (time.count() >= double(longest))
+        {
+            return longest;
+        }
+        const auto milliseconds = DWORD(time.count());
+        return (double(milliseconds) < time.count()) ? milliseconds + 1 : milliseconds;
+    }
+
+    //----------------------------------------------------------------------------------------------
+    // Calls a Win32 function that takes a number of milliseconds and returns one of the WAIT_*
+    // values, until it returns something else than WAIT_TIMEOUT or the given time has passed.
+    template<typename _Wait, typename _Rep, typename _Period>
+    inline DWORD wait_for(const std::chrono::duration<_Rep, _Period> &relTime, const _Wait &wait)
+    {
+        const auto startTime    = std::chrono::steady_clock::now();
+        const auto totalTime    = float_milliseconds(relTime);
+        auto remainingTime      = totalTime;
+        for (;;)
+        {
+            const auto dwMilliseconds   = to_win_milliseconds(remainingTime);
+            const auto result           = wait(dwMilliseconds);
+            if (result != WAIT_TIMEOUT || dwMilliseconds == 0)
+            {
+                return result;
+            }
+            // The system's timer may fire a bit early, and a long time may take several waits
+            remainingTime = totalTime - float_milliseconds(std::chrono::steady_clock::now() - startTime);
+            if (remainingTime.count() <= 0.0)
+            {
+                return result;
+            }
+        }
+    }
+
+} /*win_wait*/ } /*oqpi*/
diff --git a/include/oqpi/threading/win_thread.hpp b/include/oqpi/threading/win_thread.hpp
index f5c2ae8..3575237 100644
--- a/include/oqpi/threading/win_thread.hpp
+++ b/include/oqpi/threading/win_thread.hpp
@@ -3,6 +3,7 @@
 #include <chrono>
 #include "oqpi/platform.hpp"
 #include "oqpi/error_handling.hpp"
+#include "oqpi/synchronization/win/win_wait.hpp"
 
 
 namespace oqpi {
@@ -362,8 +363,10 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            const auto dwMilliseconds = static_cast<DWORD>(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
-            SleepEx(dwMilliseconds, TRUE);
+            win_wait::wait_for(relTime, [](DWORD dwMilliseconds)
+            {
+                return SleepEx(dwMilliseconds, TRUE) == 0 ? DWORD{ WAIT_TIMEOUT } : DWORD{ WAIT_IO_COMPLETION };
+            });
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From 0ea7d3f01063bcbf94fc7393e774ab19a99bd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 26/33] fix: asynchronous procedure calls don't end waits and
 sleeps on Windows

The waits are alertable, so a procedure call queued to the waiting thread made the wait return
before its object was signalled: wait() and lock() returned false, asserting in debug, and
sleep_for() came back early.
---
 include/oqpi/synchronization/win/win_event.hpp     | 8 +++++++-
 include/oqpi/synchronization/win/win_mutex.hpp     | 8 +++++++-
 include/oqpi/synchronization/win/win_semaphore.hpp | 8 +++++++-
 include/oqpi/synchronization/win/win_wait.hpp      | 5 +++--
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/synchronization/win/win_event.hpp b/include/oqpi/synchronization/win/win_event.hpp
index 6b68871..d7e691c 100644
--- a/include/oqpi/synchronization/win/win_event.hpp
+++ b/include/oqpi/synchronization/win/win_event.hpp
@@ -132,7 +132,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+            auto result = DWORD{ WAIT_IO_COMPLETION };
+            // The execution of an asynchronous procedure call isn't what is being waited for
+            while (result == WAIT_IO_COMPLETION)
+            {
+                result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            }
+            return checkResult(result);
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/synchronization/win/win_mutex.hpp b/include/oqpi/synchronization/win/win_mutex.hpp
index e10756d..e0f7594 100644
--- a/include/oqpi/synchronization/win/win_mutex.hpp
+++ b/include/oqpi/synchronization/win/win_mutex.hpp
@@ -115,7 +115,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+            auto result = DWORD{ WAIT_IO_COMPLETION };
+            // The execution of an asynchronous procedure call isn't what is being waited for
+            while (result == WAIT_IO_COMPLETION)
+            {
+                result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            }
+            return checkResult(result);
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/synchronization/win/win_semaphore.hpp b/include/oqpi/synchronization/win/win_semaphore.hpp
index 7abc4bc..37bf577 100644
--- a/include/oqpi/synchronization/win/win_semaphore.hpp
+++ b/include/oqpi/synchronization/win/win_semaphore.hpp
@@ -128,7 +128,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool internalWait(DWORD dwMilliseconds, BOOL bAlertable)
         {
-            return checkResult(WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable));
+            auto result = DWORD{ WAIT_IO_COMPLETION };
+            // The execution of an asynchronous procedure call isn't what is being waited for
+            while (result == WAIT_IO_COMPLETION)
+            {
+                result = WaitForSingleObjectEx(handle_, dwMilliseconds, bAlertable);
+            }
+            return checkResult(result);
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/synchronization/win/win_wait.hpp b/include/oqpi/synchronization/win/win_wait.hpp
index 5ba65af..de97dda 100644
--- a/include/oqpi/synchronization/win/win_wait.hpp
+++ b/include/oqpi/synchronization/win/win_wait.hpp
@@ -31,6 +31,7 @@ namespace oqpi { namespace win_wait {
     //----------------------------------------------------------------------------------------------
     // Calls a Win32 function that takes a number of milliseconds and returns one of the WAIT_*
     // values, until it returns something else than WAIT_TIMEOUT or the given time has passed.
+    // An asynchronous procedure call executed meanwhile doesn't end the wait.
     template<typename _Wait, typename _Rep, typename _Period>
     inline DWORD wait_for(const std::chrono::duration<_Rep, _Period> &relTime, const _Wait &wait)
     {
@@ -41,13 +42,13 @@ namespace oqpi { namespace win_wait {
         {
             const auto dwMilliseconds   = to_win_milliseconds(remainingTime);
             const auto result           = wait(dwMilliseconds);
-            if (result != WAIT_TIMEOUT || dwMilliseconds == 0)
+            if (result != WAIT_IO_COMPLETION && (result != WAIT_TIMEOUT || dwMilliseconds == 0))
             {
                 return result;
             }
             // The system's timer may fire a bit early, and a long time may take several waits
             remainingTime = totalTime - float_milliseconds(std::chrono::steady_clock::now() - startTime);
-            if (remainingTime.count() <= 0.0)
+            if (remainingTime.count() <= 0.0 && result == WAIT_TIMEOUT)
             {
                 return result;
             }
-- 
2.43.0


From 9a4514a4621bb79b9d729280ee0867f1cd486913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 27/33] fix: a mutex taken over from a thread that ended is
 locked on Windows

The wait grants the ownership of an abandoned mutex with WAIT_ABANDONED, which was taken for a
failure: lock() returned false although the mutex was held, and never released.
---
 include/oqpi/synchronization/win/win_mutex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/win/win_mutex.hpp b/include/oqpi/synchronization/win/win_mutex.hpp
index e0f7594..bc30ed8 100644
--- a/include/oqpi/synchronization/win/win_mutex.hpp
+++ b/include/oqpi/synchronization/win/win_mutex.hpp
@@ -131,7 +131,8 @@ namespace oqpi {
             {
                 oqpi_error("WaitForSingleObjectEx failed with error code 0x%x", GetLastError());
             }
-            return (result == WAIT_OBJECT_0);
+            // The ownership of a mutex whose owner ended without unlocking it is granted as well
+            return (result == WAIT_OBJECT_0 || result == WAIT_ABANDONED);
         }
 
     private:
-- 
2.43.0


From ee5bbac6a39f83dcfea434b3b82e302a3dd2ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 28/33] fix: assigning to a synchronization object closes its
 handle on Windows

The handle of the object assigned to was overwritten, it stayed open until the end of the
process and kept the name of a global object taken.
---
 include/oqpi/synchronization/win/win_event.hpp     | 1 +
 include/oqpi/synchronization/win/win_mutex.hpp     | 4 ++++
 include/oqpi/synchronization/win/win_semaphore.hpp | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/include/oqpi/synchronization/win/win_event.hpp b/include/oqpi/synchronization/win/win_event.hpp
index d7e691c..96133b4 100644
--- a/include/oqpi/synchronization/win/win_event.hpp
+++ b/include/oqpi/synchronization/win/win_event.hpp
@@ -70,6 +70,7 @@ namespace oqpi {
         {
             if (this != &rhs)
             {
+                close();
                 handle_ = rhs.handle_;
                 rhs.handle_ = nullptr;
             }
diff --git a/include/oqpi/synchronization/win/win_mutex.hpp b/include/oqpi/synchronization/win/win_mutex.hpp
index bc30ed8..d2c0fd9 100644
--- a/include/oqpi/synchronization/win/win_mutex.hpp
+++ b/include/oqpi/synchronization/win/win_mutex.hpp
@@ -63,6 +63,10 @@ namespace oqpi {
         {
             if (this != &rhs)
             {
+                if (handle_)
+                {
+                    CloseHandle(handle_);
+                }
                 handle_ = rhs.handle_;
                 rhs.handle_ = nullptr;
             }
diff --git a/include/oqpi/synchronization/win/win_semaphore.hpp b/include/oqpi/synchronization/win/win_semaphore.hpp
index 37bf577..9c07ce4 100644
--- a/include/oqpi/synchronization/win/win_semaphore.hpp
+++ b/include/oqpi/synchronization/win/win_semaphore.hpp
@@ -67,6 +67,10 @@ namespace oqpi {
         {
             if (this != &rhs)
             {
+                if (handle_)
+                {
+                    CloseHandle(handle_);
+                }
                 handle_     = rhs.handle_;
                 initCount_  = rhs.initCount_;
                 maxCount_   = rhs.maxCount_;
-- 
2.43.0


From c5f06081946932e82fe7561891d816af03ed6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 29/33] fix: terminating a thread closes its handle on Windows

---
 include/oqpi/threading/win_thread.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/oqpi/threading/win_thread.hpp b/include/oqpi/threading/win_thread.hpp
index 3575237..3ef37c0 100644
--- a/include/oqpi/threading/win_thread.hpp
+++ b/include/oqpi/threading/win_thread.hpp
@@ -182,8 +182,7 @@ namespace oqpi {
             const auto result = TerminateThread(handle_, EXIT_FAILURE);
             if (result == TRUE)
             {
-                handle_ = nullptr;
-                id_ = 0;
+                detach();
             }
             else
             {
-- 
2.43.0


From 12e127739fb0339dd5cdca0bb214a3f7903a80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 30/33] fix: all_cores are the cores of the process on Windows

The 32 bits of all_cores name cores most machines don't have, and leave out those above the
32nd: SetThreadAffinityMask refuses the former. A refused mask, the process may well be
restricted to some cores, is an error to log as on posix, not an assertion. With 64 cores and
more the check of the mask shifted by the width of the type.
---
 include/oqpi/threading/win_thread.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/win_thread.hpp b/include/oqpi/threading/win_thread.hpp
index 3ef37c0..f69985a 100644
--- a/include/oqpi/threading/win_thread.hpp
+++ b/include/oqpi/threading/win_thread.hpp
@@ -239,8 +239,24 @@ namespace oqpi {
         static void set_core_affinity_mask(native_handle_type handle, core_affinity affinityMask)
         {
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
-            oqpi_verify(SetThreadAffinityMask(handle, static_cast<DWORD_PTR>(affinityMask)) != 0);
+            oqpi_check(hardware_concurrency() >= 32 || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+
+            auto dwAffinityMask = static_cast<DWORD_PTR>(affinityMask);
+            if (affinityMask == core_affinity::all_cores)
+            {
+                // A thread cannot be given cores that don't exist or that its process cannot use
+                auto dwProcessMask = DWORD_PTR{ 0 };
+                auto dwSystemMask  = DWORD_PTR{ 0 };
+                if (GetProcessAffinityMask(GetCurrentProcess(), &dwProcessMask, &dwSystemMask) != FALSE && dwProcessMask != 0)
+                {
+                    dwAffinityMask = dwProcessMask;
+                }
+            }
+
+            if (SetThreadAffinityMask(handle, dwAffinityMask) == 0)
+            {
+                oqpi_error("SetThreadAffinityMask failed with error code: %d", GetLastError());
+            }
         }
         //------------------------------------------------------------------------------------------
         static core_affinity get_core_affinity_mask(native_handle_type handle)
-- 
2.43.0


From a9f758e962c0f4402e0b18ac417246ad4ea5f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:14 +0000
Subject: [PATCH 31/33] fix: notifying a semaphore zero times does nothing on
 Windows

ReleaseSemaphore fails for a count of zero, which was an assertion in debug.
---
 include/oqpi/synchronization/win/win_semaphore.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/oqpi/synchronization/win/win_semaphore.hpp b/include/oqpi/synchronization/win/win_semaphore.hpp
index 9c07ce4..a51f8fa 100644
--- a/include/oqpi/synchronization/win/win_semaphore.hpp
+++ b/include/oqpi/synchronization/win/win_semaphore.hpp
@@ -96,6 +96,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void notify(int32_t count)
         {
+            // ReleaseSemaphore refuses to release nothing
+            if (count == 0)
+            {
+                return;
+            }
             auto previousCount = LONG{ 0 };
             oqpi_verify(ReleaseSemaphore(handle_, LONG{ count }, &previousCount) != 0);
         }
-- 
2.43.0


From 34bd2bed78087ffd5429d82c3e8f97bc2845ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 32/33] fix: measure the time limit of waitUntilIdle on the
 steady clock

high_resolution_clock may be the system clock, as it is with libstdc++: setting the clock
forward made waitUntilIdle return although neither the scheduler was idle nor the limit
had passed, setting it back prolonged the wait.
---
 include/oqpi/scheduling/scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index bd413f5..1edc803 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -135,12 +135,12 @@ namespace oqpi {
         template <class _Rep1, class _Period1, class _Rep2, class _Period2>
         void waitUntilIdle(std::chrono::duration<_Rep1, _Period1> sleepPeriod, std::chrono::duration<_Rep2, _Period2> maxWaitTime) const
         {
-            const auto then = std::chrono::high_resolution_clock::now();
+            const auto then = std::chrono::steady_clock::now();
 
             while (!isIdle())
             {
                 this_thread::sleep_for(sleepPeriod);
-                if (std::chrono::high_resolution_clock::now() - then > maxWaitTime)
+                if (std::chrono::steady_clock::now() - then > maxWaitTime)
                 {
                     break;
                 }
-- 
2.43.0


From 86a27361f0691c506230a27284a6e9ad444b25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 33/33] fix: sleep until the time is reached when the clock is
 set back meanwhile

sleep_until computed the time left once: when the clock the time belongs to was set back
during the sleep, it returned before that time.
---
 include/oqpi/threading/this_thread.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/oqpi/threading/this_thread.hpp b/include/oqpi/threading/this_thread.hpp
index 366aa99..05089eb 100644
--- a/include/oqpi/threading/this_thread.hpp
+++ b/include/oqpi/threading/this_thread.hpp
@@ -45,12 +45,12 @@ namespace oqpi { namespace this_thread {
     template<typename _Clock, typename _Duration>
     inline void sleep_until(const std::chrono::time_point<_Clock, _Duration>& absTime)
     {
-        // The time elapsed since a point far in the past may not be representable
-        if (absTime <= _Clock::now())
+        // The time elapsed since a point far in the past may not be representable, and the clock
+        // may be set back in the meantime
+        while (absTime > _Clock::now())
         {
-            return;
+            sleep_for(absTime - _Clock::now());
         }
-        sleep_for(absTime - _Clock::now());
     }
     //----------------------------------------------------------------------------------------------
 
-- 
2.43.0

