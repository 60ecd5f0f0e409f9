From 6eaf2802a3d6ce68e878e30acf35708105b45876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 01/57] fix: client collector returns the remaining finished
 tasks when it is told to stop

---
 src/hypershell/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..673261a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,10 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        if self.tasks:
+            self.pack_bundle()
+            if self.put_remote() is CollectorState.PUT_REMOTE:
+                return CollectorState.FINAL
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From 2143d891d289c5199f2f4c16432a1f27a297d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 02/57] fix: live submitter retries its last bundle when the
 server queue is full

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..618d717 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -460,7 +460,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        if self.commit() is QueueCommitterState.COMMIT:
+            return QueueCommitterState.FINAL
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From d5a21f954f4fea3a7abd1d867d6431d9fcb80f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 03/57] fix: submitters flush buffered tasks after the waiting
 period when the source is silent

---
 src/hypershell/submit.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 618d717..f55373a 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -230,17 +230,16 @@ class DatabaseCommitter(StateMachine):
         """Get tasks from local queue and check buffer."""
         try:
             task = self.queue.get(timeout=1)
-        except QueueEmpty:
-            return DatabaseCommitterState.GET
-        if task is not None:
+            if task is None:
+                return DatabaseCommitterState.FINAL
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return DatabaseCommitterState.COMMIT
-            else:
-                return DatabaseCommitterState.GET
+        except QueueEmpty:
+            pass  # NOTE: buffered tasks must still be flushed after the waiting period
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
+            return DatabaseCommitterState.COMMIT
         else:
-            return DatabaseCommitterState.FINAL
+            return DatabaseCommitterState.GET
 
     def commit(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Commit tasks to database."""
@@ -423,17 +422,16 @@ class QueueCommitter(StateMachine):
         """Get tasks from local queue and check buffer."""
         try:
             task = self.local.get(timeout=1)
-        except QueueEmpty:
-            return QueueCommitterState.GET
-        if task is not None:
+            if task is None:
+                return QueueCommitterState.FINAL
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return QueueCommitterState.PACK
-            else:
-                return QueueCommitterState.GET
+        except QueueEmpty:
+            pass  # NOTE: buffered tasks must still be flushed after the waiting period
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
+            return QueueCommitterState.PACK
         else:
-            return QueueCommitterState.FINAL
+            return QueueCommitterState.GET
 
     def pack_bundle(self: QueueCommitter) -> QueueCommitterState:
         """Pack tasks into bundle for remote queue."""
-- 
2.43.0


From 10ab2feed850be36578852a482889ed4d92fb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 04/57] fix: client heartbeat retries when the heartbeat queue
 is full

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 673261a..a9129ab 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -756,7 +756,7 @@ class ClientHeartbeat(StateMachine):
             else:
                 log.trace(f'Heartbeat - final ({heartbeat.host}: {heartbeat.uuid})')
                 return HeartbeatState.FINAL
-        except QueueEmpty:
+        except QueueFull:
             return HeartbeatState.SUBMIT
 
     def wait(self: ClientHeartbeat) -> HeartbeatState:
-- 
2.43.0


From 6ba69bf66a74464e38cf861d98c7d05d7b532e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 05/57] fix: executor does not close output streams shared with
 other executors

---
 src/hypershell/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index a9129ab..ecd0528 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -657,10 +657,11 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
-            self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
-            self.redirect_errors.close()
+        if self.capture:  # NOTE: otherwise the streams are shared and not ours to close
+            if self.redirect_output is not sys.stdout:
+                self.redirect_output.close()
+            if self.redirect_errors is not sys.stderr:
+                self.redirect_errors.close()
         return TaskState.HALT
 
 
-- 
2.43.0


From e4511abdea0dc80cb602e967d13a4c879a6ba12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 06/57] fix: a task that cannot be started is returned as
 failed instead of ending its executor

---
 src/hypershell/client.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index ecd0528..7670123 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -552,19 +552,25 @@ class TaskExecutor(StateMachine):
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
         self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())
-        env = task_env(self.task)
-        if self.capture:
-            self.task.outpath = env['TASK_OUTPATH']
-            self.task.errpath = env['TASK_ERRPATH']
-            self.redirect_output = open(self.task.outpath, mode='w')
-            self.redirect_errors = open(self.task.errpath, mode='w')
         self.stop_requested = None
         self.attempted_sigint = False
         self.attempted_sigterm = False
         self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            env = task_env(self.task)
+            if self.capture:
+                self.task.outpath = env['TASK_OUTPATH']
+                self.task.errpath = env['TASK_ERRPATH']
+                self.redirect_output = open(self.task.outpath, mode='w')
+                self.redirect_errors = open(self.task.errpath, mode='w')
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=self.redirect_output, stderr=self.redirect_errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            log.error(f'{error.__class__.__name__}: {error}')
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
-- 
2.43.0


From d9e417eed1d88c79f18ac15828196b7d997b980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 07/57] fix: server disconnects clients that register late and
 is not blocked by a full queue when signaling

---
 src/hypershell/server.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..7a854da 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -42,7 +42,7 @@ Warning:
 
 # type annotations
 from __future__ import annotations
-from typing import List, Dict, Tuple, Iterable, IO, Optional, Callable, Type, Final
+from typing import List, Dict, Set, Tuple, Iterable, IO, Optional, Callable, Type, Final
 from types import TracebackType
 
 # standard libs
@@ -454,6 +454,7 @@ class HeartMonitor(StateMachine):
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
+    signaled: Set[str]  # clients that have been sent the shutdown signal
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -465,6 +466,7 @@ class HeartMonitor(StateMachine):
         self.queue = queue
         self.last_check = datetime.now().astimezone()
         self.beats = {}
+        self.signaled = set()
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -522,6 +524,9 @@ class HeartMonitor(StateMachine):
                         Client.update(old_client.id, disconnected_at=None, evicted=False)
                     except Client.NotFound:
                         Client.add(new_client)
+                if self.scheduler_done:
+                    self.should_signal = True  # registered too late for the initial shutdown signal
+                    self.signaled.discard(hb.uuid)
             self.beats[hb.uuid] = hb
             return HeartbeatState.SWITCH
         else:
@@ -536,14 +541,14 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if self.should_signal:
-            return HeartbeatState.SIGNAL
-        if not self.beats and self.scheduler_done:
-            return HeartbeatState.FINAL
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
+        if self.should_signal:
+            return HeartbeatState.SIGNAL
+        if not self.beats and self.scheduler_done:
+            return HeartbeatState.FINAL
         else:
             return HeartbeatState.NEXT
 
@@ -566,9 +571,14 @@ class HeartMonitor(StateMachine):
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to all connected clients."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
+        try:
+            for hb in self.beats.values():
+                if hb.uuid not in self.signaled:
+                    self.queue.scheduled.put(None, timeout=2)
+                    self.signaled.add(hb.uuid)
+                    log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
+        except QueueFull:
+            return HeartbeatState.NEXT  # NOTE: continue with heartbeats (and eviction) until there is room
         self.should_signal = False
         return HeartbeatState.SWITCH
 
-- 
2.43.0


From 357a00727aceb636b7fb97615c21e1228c640060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 08/57] fix: server does not end scheduling while its source
 still yields tasks

---
 src/hypershell/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 7a854da..79f0c53 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submitting: bool = False  # set by parent thread while tasks are still being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -179,7 +180,7 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        elif not self.forever_mode and not self.submitting and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
@@ -223,6 +224,10 @@ class SchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_submitting(self: SchedulerThread, submitting: bool) -> None:
+        """Set flag to tell scheduler whether more tasks are still to be submitted."""
+        self.machine.submitting = submitting
+
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -759,6 +764,7 @@ class ServerThread(Thread):
         if self.submitter is not None:
             self.submitter.start()
         if self.scheduler is not None:
+            self.scheduler.signal_submitting(self.submitter is not None)
             self.scheduler.start()
         if not self.no_confirm:
             self.confirm.start()
@@ -770,6 +776,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+        if self.scheduler is not None:
+            self.scheduler.signal_submitting(False)
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 22b8bf13ea9cebb4f60fe832a506cadb62181848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 09/57] fix: scheduler looks for failed tasks again before it
 ends

---
 src/hypershell/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 79f0c53..5776bc1 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -126,6 +126,7 @@ class Scheduler(StateMachine):
 
     startup_phase: bool = True
     submitting: bool = False  # set by parent thread while tasks are still being submitted
+    drained: bool = False  # no unfinished tasks when last checked
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -178,11 +179,17 @@ class Scheduler(StateMachine):
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         if self.tasks:
             self.startup_phase = False
+            self.drained = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
         elif not self.forever_mode and not self.submitting and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
-            return SchedulerState.FINAL
+            if self.drained:
+                return SchedulerState.FINAL
+            # The last task may have failed since our query and need a retry, look again
+            self.drained = True
+            return SchedulerState.LOAD
         else:
+            self.drained = False
             time.sleep(DEFAULT_QUERY_PAUSE)
             return SchedulerState.LOAD
 
-- 
2.43.0


From 64d2568c6cec28508471633be8da93369d58f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 10/57] fix: cancelled tasks are not scheduled again, retried
 or waited for

---
 src/hypershell/data/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..68a6549 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -315,6 +315,7 @@ class Task(Entity):
         """Select failed tasks for retry up to some `limit` under given number of `attempts`."""
         return (cls.query()
                 .order_by(cls.completion_time)
+                .filter(cls.completion_time.isnot(None))
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
                 .filter(cls.attempt < attempts)
@@ -376,7 +377,8 @@ class Task(Entity):
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        # NOTE: cancelled tasks have an exit status but no completion time
+        return cls.query().filter(cls.completion_time.is_(None)).filter(cls.exit_status.is_(None)).count()
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -385,6 +387,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .count()
         )
 
@@ -396,6 +399,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .limit(limit)
             .all()
         )
@@ -463,6 +467,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From db258a2f0cd9491909c40116fad921b9bf3bc670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 11/57] fix: eager selection does not return a retried task
 twice

---
 src/hypershell/data/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 68a6549..f0d5d32 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -366,6 +366,7 @@ class Task(Entity):
             new_tasks = [cls.new(args=task.args,
                                  attempt=task.attempt + 1,
                                  previous_id=task.id,
+                                 schedule_time=datetime.now().astimezone(),
                                  tag=task.tag)
                          for task in failed_tasks]
             tasks.extend(new_tasks)
-- 
2.43.0


From f11932e8c5e9f26e11a307b4253695f1aaf86f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 12/57] fix: retrying a failed task is recorded in one
 transaction

---
 src/hypershell/data/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index f0d5d32..15e25e5 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -370,9 +370,11 @@ class Task(Entity):
                                  tag=task.tag)
                          for task in failed_tasks]
             tasks.extend(new_tasks)
-            cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
+            # NOTE: part of the same transaction as the selection (see `next`)
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
+            Session.add_all(new_tasks)
         return tasks
 
     @classmethod
-- 
2.43.0


From 9ab312403f740dccb990ab0233e7fb057ea01c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 13/57] fix: a failed update or selection is rolled back

---
 src/hypershell/data/model.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 15e25e5..db89c33 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -171,8 +171,12 @@ class Entity(DeclarativeBase):
     def update_all(cls: Type[Entity], changes: List[Dict[str, Any]]) -> None:
         """Bulk update."""
         if changes:
-            Session.bulk_update_mappings(cls, changes)
-            Session.commit()  # NOTE: why is this necessary?
+            try:
+                Session.bulk_update_mappings(cls, changes)
+                Session.commit()  # NOTE: why is this necessary?
+            except Exception:
+                Session.rollback()
+                raise
             log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
 
     @classmethod
@@ -325,15 +329,19 @@ class Task(Entity):
     @classmethod
     def next(cls: Type[Task], limit: int, attempts: int = 1, eager: bool = False) -> List[Task]:
         """Select tasks for scheduling including failed tasks for re-scheduling."""
-        if eager:
-            tasks = cls.__next_eager(attempts=attempts, limit=limit)
-        else:
-            tasks = cls.__next_not_eager(attempts, limit)
-        for task in tasks:
-            task.server_id = INSTANCE
-            task.server_host = HOSTNAME
-            task.schedule_time = datetime.now().astimezone()
-        Session.commit()
+        try:
+            if eager:
+                tasks = cls.__next_eager(attempts=attempts, limit=limit)
+            else:
+                tasks = cls.__next_not_eager(attempts, limit)
+            for task in tasks:
+                task.server_id = INSTANCE
+                task.server_host = HOSTNAME
+                task.schedule_time = datetime.now().astimezone()
+            Session.commit()
+        except Exception:
+            Session.rollback()
+            raise
         return tasks
 
     @classmethod
-- 
2.43.0


From a3766f1f5fd91a1ac62321fc2fd00c4503f64058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 14/57] fix: server schedules eagerly when given --eager

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 5776bc1..c268482 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1125,7 +1125,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From 1fbf96b5188e1c11e3da09fa21d10698504eb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 15/57] fix: server needs no database with --no-db and
 initializes it with --initdb

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index c268482..79c7572 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1221,7 +1221,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From 9c8e11d31b2ae037165c597ed76acbc1e138be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 16/57] fix: server does not close standard output

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 79c7572..63a510b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1232,5 +1232,5 @@ class ServerApp(Application):
         """Clean up IO if necessary."""
         if self.input_stream is not None and self.input_stream is not sys.stdin:
             self.input_stream.close()
-        if self.failure_stream is not None and self.failure_path is not sys.stdout:
+        if self.failure_stream is not None and self.failure_stream is not sys.stdout:
             self.failure_stream.close()
-- 
2.43.0


From 793a5b6372d77e8174642f702cae7171b8d6fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 17/57] fix: server without database does not record clients in
 one

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 63a510b..c3f94fa 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -751,7 +751,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 5757a28160b9209691525fcf24151616ccfba20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 18/57] fix: scheduler waits between queries as configured

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index c3f94fa..7783ebc 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -190,7 +190,7 @@ class Scheduler(StateMachine):
             return SchedulerState.LOAD
         else:
             self.drained = False
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
-- 
2.43.0


From 237ddfc4bffdfb89e4e4858d485813c631af6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 19/57] fix: client accepts --signalwait as documented

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 7670123..2c5f6a6 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1188,7 +1188,7 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
-- 
2.43.0


From 5eb911ccabc09f680d3e42df678007b6416f0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 20/57] fix: client uses the configured bundle size and wait of
 the client

---
 src/hypershell/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 2c5f6a6..2ebf347 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1173,10 +1173,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
-- 
2.43.0


From 22b8f6d293da58cee11c255a8b8df1058f25baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 21/57] fix: queue configuration is loaded from the bind
 address

---
 src/hypershell/core/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..46942cc 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -40,7 +40,7 @@ class QueueConfig:
     def load(cls: Type[QueueConfig]) -> QueueConfig:
         """Initialize from global configuration."""
         return cls.from_dict({
-            'host': _config.server.host,
+            'host': _config.server.bind,
             'port': _config.server.port,
             'auth': _config.server.auth,
             'size': _config.server.queuesize,
-- 
2.43.0


From 76d23ac08cdd1602b41feb21a33772e520f15baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 22/57] fix: cluster schedules eagerly when given --eager

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..b9c0582 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -211,7 +211,7 @@ class ClusterApp(Application):
         """Run cluster."""
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
-                 bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
+                 bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries, eager=self.eager_mode,
                  in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
-- 
2.43.0


From 47cb3c7bfe09d1712949fba248cc6299be89422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 23/57] fix: local cluster uses the given port

---
 src/hypershell/cluster/__init__.py |  5 +++--
 src/hypershell/cluster/local.py    | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index b9c0582..21a5f9e 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -26,7 +26,7 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.data import initdb, checkdb
 from hypershell.client import DEFAULT_NUM_TASKS, DEFAULT_DELAY, DEFAULT_SIGNALWAIT
-from hypershell.server import DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import DEFAULT_BIND, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.submit import DEFAULT_BUNDLEWAIT
 from hypershell.cluster.ssh import run_ssh, SSHCluster, NodeList, DEFAULT_REMOTE_EXE
 from hypershell.cluster.local import run_local, LocalCluster
@@ -220,7 +220,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream,
+                  bind=(DEFAULT_BIND, self.port))
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..827e055 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Iterable, Tuple, IO
 
 # standard libs
 import time
@@ -17,7 +17,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -76,6 +76,10 @@ class LocalCluster(Thread):
             Waiting period in seconds before forcing return of task bundle to server.
             See :const:`~hypershell.server.DEFAULT_BUNDLEWAIT`.
 
+        bind (tuple, optional):
+            Bind address for server with port number.
+            See :const:`~hypershell.server.DEFAULT_BIND` and :const:`~hypershell.server.DEFAULT_PORT`.
+
         in_memory (bool, optional):
             If True, revert to basic in-memory queue.
 
@@ -151,6 +155,7 @@ class LocalCluster(Thread):
                  template: str = DEFAULT_TEMPLATE,
                  bundlesize: int = DEFAULT_BUNDLESIZE,
                  bundlewait: int = DEFAULT_BUNDLEWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT),
                  in_memory: bool = False,
                  no_confirm: bool = False,
                  forever_mode: bool = False,
@@ -170,6 +175,7 @@ class LocalCluster(Thread):
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -182,6 +188,7 @@ class LocalCluster(Thread):
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
-- 
2.43.0


From 9fd30cce837904c55c3e6c67da0a4a9be1996e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 24/57] fix: cluster uses the configured attempts, eager mode
 and port

---
 src/hypershell/cluster/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 21a5f9e..48423d3 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    eager_mode: bool = config.server.eager
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
-- 
2.43.0


From a58dfaf807db4db383b95a7d2a9d3e457774ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 25/57] fix: cluster uses the configured eviction period and
 heart rate

---
 src/hypershell/cluster/__init__.py |  4 ++--
 src/hypershell/cluster/local.py    | 22 ++++++++++++++++++----
 src/hypershell/cluster/remote.py   | 20 ++++++++++++++++----
 src/hypershell/cluster/ssh.py      | 12 +++++++++---
 4 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 48423d3..897c12b 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -216,12 +216,12 @@ class ClusterApp(Application):
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
-                 task_signalwait=self.task_signalwait)
+                 task_signalwait=self.task_signalwait, evict_after=config.server.evict)
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
         run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream,
-                  bind=(DEFAULT_BIND, self.port))
+                  bind=(DEFAULT_BIND, self.port), heartrate=config.client.heartrate)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 827e055..aa40595 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -17,8 +17,10 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
-from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
+from hypershell.server import (ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS,
+                               DEFAULT_EVICT)
+from hypershell.client import (ClientThread, DEFAULT_DELAY, DEFAULT_HEARTRATE, DEFAULT_SIGNALWAIT,
+                               set_client_standalone)
 
 # public interface
 __all__ = ['run_local', 'LocalCluster']
@@ -132,6 +134,14 @@ class LocalCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        heartrate (int, optional):
+            Period in seconds to wait between heartbeats.
+            See :const:`~hypershell.client.DEFAULT_HEARTRATE`.
+
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
     Example:
         >>> from hypershell.cluster import LocalCluster
         >>> cluster = LocalCluster.new(
@@ -169,7 +179,9 @@ class LocalCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 heartrate: int = DEFAULT_HEARTRATE,
+                 evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize with server and single client thread."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
@@ -183,7 +195,8 @@ class LocalCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
@@ -193,6 +206,7 @@ class LocalCluster(Thread):
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
                                    redirect_errors=redirect_errors,
+                                   heartrate=heartrate,
                                    delay_start=delay_start,
                                    capture=capture,
                                    client_timeout=client_timeout,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..306e982 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -28,7 +28,7 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.data.model import Task, Client
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_cluster', 'RemoteCluster', 'AutoScalingCluster',
@@ -170,6 +170,10 @@ class RemoteCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
     Example:
         >>> from hypershell.cluster import RemoteCluster
         >>> cluster = RemoteCluster.new(
@@ -208,7 +212,8 @@ class RemoteCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize server and client threads with external launcher."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
@@ -222,7 +227,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -607,6 +613,10 @@ class AutoScalingCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         policy (str, optional):
             Autoscaling policy (either 'fixed' or 'dynamic').
             See :const:`~hypershell.cluster.remote.DEFAULT_AUTOSCALE_POLICY`
@@ -677,12 +687,14 @@ class AutoScalingCluster(Thread):
                  init_size: int = DEFAULT_AUTOSCALE_INIT_SIZE,
                  min_size: int = DEFAULT_AUTOSCALE_MIN_SIZE,
                  max_size: int = DEFAULT_AUTOSCALE_MAX_SIZE,
+                 evict_after: int = DEFAULT_EVICT,
                  ) -> None:
         """Initialize server and autoscaler."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..e32779c 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -26,7 +26,7 @@ from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_ssh', 'SSHCluster', 'NodeList', 'DEFAULT_REMOTE_EXE']
@@ -161,6 +161,10 @@ class SSHCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
     Example:
         >>> from hypershell.cluster import SSHCluster
         >>> cluster = SSHCluster.new(
@@ -202,7 +206,8 @@ class SSHCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize server and client threads."""
         if nodelist is None:
             raise AttributeError('Expected nodelist')
@@ -218,7 +223,8 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         launcher_env = shlex.split('' if not export_env else compile_env())
         if launcher_args is None:
-- 
2.43.0


From 837bb01b20471c2901faef66a4f36a2fbd8049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 26/57] fix: clusters do not retry failed tasks by default

---
 src/hypershell/cluster/local.py  | 2 +-
 src/hypershell/cluster/remote.py | 4 ++--
 src/hypershell/cluster/ssh.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index aa40595..5b0a1a0 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -170,7 +170,7 @@ class LocalCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  redirect_output: IO = None,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 306e982..076f36d 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -205,7 +205,7 @@ class RemoteCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -673,7 +673,7 @@ class AutoScalingCluster(Thread):
                  no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index e32779c..b1bfce1 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -199,7 +199,7 @@ class SSHCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
-- 
2.43.0


From e8510aee1df4b1f828401f4d4eb229e4e0d2f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 27/57] fix: cluster does not use the database with --no-db

---
 src/hypershell/cluster/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 897c12b..16c1997 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -358,9 +358,11 @@ class ClusterApp(Application):
     def __enter__(self: ClusterApp) -> ClusterApp:
         """Set up resources and attributes."""
         self.check_arguments()
-        if config.database.provider == 'sqlite' or self.auto_initdb:
+        if self.in_memory:
+            pass  # Database is not used
+        elif config.database.provider == 'sqlite' or self.auto_initdb:
             initdb()  # Auto-initialize if local sqlite provider
-        elif not self.in_memory:
+        else:
             checkdb()
         return self
 
-- 
2.43.0


From a86dadd47c3645058c75cfec29492ffcf58750c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 28/57] fix: a cluster whose clients cannot be launched stops
 its server and reports the error

---
 src/hypershell/cluster/remote.py | 7 ++++---
 src/hypershell/cluster/ssh.py    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 076f36d..d386a84 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Final
+from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Final, Optional
 
 # standard libs
 import os
@@ -188,7 +188,7 @@ class RemoteCluster(Thread):
     """
 
     server: ServerThread
-    clients: Popen
+    clients: Optional[Popen] = None
     client_argv: List[str]
 
     def __init__(self: RemoteCluster,
@@ -264,7 +264,8 @@ class RemoteCluster(Thread):
     def stop(self: RemoteCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        self.clients.terminate()
+        if self.clients is not None:
+            self.clients.terminate()
         super().stop(wait=wait, timeout=timeout)
 
 
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index b1bfce1..bfcabca 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -245,13 +245,13 @@ class SSHCluster(Thread):
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
+        self.clients = []
         super().__init__(name='hypershell-cluster')
 
     def run_with_exceptions(self: SSHCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
-        self.clients = []
         for argv in self.client_argv:
             log.debug(f'Launching client: {argv}')
             self.clients.append(Popen(argv, stdout=sys.stdout, stderr=sys.stderr))
-- 
2.43.0


From d0133b4662a08a95f7825d3ccf537e48f601209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 29/57] fix: cluster uses the configured SSH arguments when
 none are given

---
 src/hypershell/cluster/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 16c1997..0e0d1ab 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -239,7 +239,8 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        launcher_args = shlex.split(self.ssh_args) if self.ssh_args else None
+        run_ssh(**options, launcher='ssh', launcher_args=launcher_args, nodelist=nodelist,
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
-- 
2.43.0


From fdad351c7d937d8316386ca8af7c1e4fde28d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 30/57] fix: SSH cluster passes templates with quotes to its
 clients as they are

---
 src/hypershell/cluster/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index bfcabca..1ebaf8d 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -241,7 +241,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
-- 
2.43.0


From 5773930e9f317575c763758d41af01bb1671810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 31/57] fix: SSH cluster exports environment variables as they
 are

---
 src/hypershell/cluster/ssh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 1ebaf8d..a7394a7 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -226,7 +226,7 @@ class SSHCluster(Thread):
                                    redirect_failures=redirect_failures,
                                    evict_after=evict_after)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else [compile_env(), ]
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -354,4 +354,4 @@ class NodeList(list):
 
 def compile_env() -> str:
     """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+    return ' '.join([f'{key}={shlex.quote(str(value))}' for key, value in Namespace.from_env('HYPERSHELL').items()])
-- 
2.43.0


From bbfff9ff1b0f04bfcbb8ebbe1ca14ec7711bad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 32/57] fix: only timestamps are converted when tasks are
 received

---
 src/hypershell/data/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index db89c33..a8e8e45 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,8 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From 2de068796172a774b21301d9ff70641afef7cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 33/57] fix: conditions with >= and <= are recognized

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..81a6ec4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1057,7 +1057,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 134231eb2c0d39aaadbf62e3318f423cd191c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 34/57] fix: searching for several tags without value requires
 all of them

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 81a6ec4..3025cd4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -428,11 +428,11 @@ class SearchableMixin:
             if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
                 tags_name_only.append(name)
                 tags_with_value.pop(name)
-        for name in tags_name_only:
+        for i, name in enumerate(tags_name_only):
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                query = query.filter(text(f'json_extract(task.tag, :key{i}) is not null')).params({f'key{i}': f'$."{name}"'})
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-- 
2.43.0


From c281da92b93a8c3b004d2799f7a586a01c1dd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 35/57] fix: tags after one without value are checked

---
 src/hypershell/data/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a8e8e45..ce97c49 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -300,7 +300,7 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
                 if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
-- 
2.43.0


From 2cffd56c57d8c6f09f3467c48c50e7db739f9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 36/57] fix: tag names with dots are updated and removed as
 given

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 3025cd4..f032da3 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -924,7 +924,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                 tag_changes = {}
                 change_expr = 'json_set(task.tag'
                 for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
+                    tag_changes[f'k{i}'] = f'$."{k}"'
                     tag_changes[f'v{i}'] = v
                     change_expr += f', :k{i}, :v{i}'
                 change_expr += ')'
@@ -942,7 +942,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                 tag_changes = {}
                 change_expr = 'json_remove(task.tag'
                 for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
+                    tag_changes[f'k{i}'] = f'$."{name}"'
                     change_expr += f', :k{i}'
                 change_expr += ')'
                 query.update({Task.tag: text(change_expr).params(tag_changes)})
-- 
2.43.0


From 2a8ea2b7cc732238bd98eb07891ee681a39d15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 37/57] fix: tasks can be deleted with a limit

---
 src/hypershell/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index f032da3..1380e5c 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -861,7 +861,12 @@ class TaskUpdateApp(Application, SearchableMixin):
                 return
 
         if self.delete_mode:
-            query.delete()
+            if self.limit is not None:
+                # We cannot apply a DELETE query with a LIMIT field
+                for task in query.all():
+                    Session.delete(task)
+            else:
+                query.delete()
             Session.commit()
             log.info(f'Deleted {count} tasks')
             return
-- 
2.43.0


From fdfcd6beb775af62ae25e59ce7392ec2fb21c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 38/57] fix: all changes of an update are made to the same
 tasks

---
 src/hypershell/task.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 1380e5c..ff53a50 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -896,28 +896,19 @@ class TaskUpdateApp(Application, SearchableMixin):
             field_updates['waited'] = None
             field_updates['duration'] = None
 
-        if self.limit is not None:
+        # Any one change might alter which tasks match for the next
+        if config.database.provider == 'sqlite':
+            count_changes = bool(field_updates) + bool(tag_updates) + bool(self.remove_tag)
+        else:
+            count_changes = bool(field_updates) + len(tag_updates) + len(self.remove_tag or [])
+
+        if self.limit is not None or count_changes > 1:
             # We cannot apply an UPDATE query with a LIMIT field
             # The alternative is to pull the data and batch the update
             # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
+            tasks_it = iter(query.all())
+            while batch := tuple(itertools.islice(tasks_it, 100)):
+                Task.update_all([self.build_changes(task, field_updates, tag_updates) for task in batch])
             log.info(f'Updated {count} tasks')
             return
 
@@ -997,6 +988,14 @@ class TaskUpdateApp(Application, SearchableMixin):
 
         return field_updates, tag_updates
 
+    def build_changes(self: TaskUpdateApp, task: Task,
+                      field_updates: Dict[str, Any], tag_updates: Dict[str, Any]) -> Dict[str, Any]:
+        """Build dictionary of all changes for a single `task`."""
+        changes = {'id': task.id, **field_updates}
+        if tag_updates or self.remove_tag:
+            changes['tag'] = self.drop_items({**task.tag, **tag_updates}, *(self.remove_tag or []))
+        return changes
+
     @staticmethod
     def drop_items(d: dict, *keys: str) -> dict:
         """Drop items by key if they exist."""
-- 
2.43.0


From 40ae700555b1c1284d78a8e64d76cb6f856e93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 39/57] fix: tags with decimal values are found in SQLite

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index ff53a50..0abac87 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -436,7 +436,7 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
+            if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
-- 
2.43.0


From 0708ba4cd754871d55636003c4134a31d407d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 40/57] fix: tags with null value are told from missing ones in
 SQLite

---
 src/hypershell/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 0abac87..aead9fd 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -432,10 +432,14 @@ class SearchableMixin:
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text(f'json_extract(task.tag, :key{i}) is not null')).params({f'key{i}': f'$."{name}"'})
+                query = query.filter(text(f'json_type(task.tag, :key{i}) is not null')).params({f'key{i}': f'$."{name}"'})
             else:
                 query = query.filter(Task.tag[name].isnot(None))
-        for name, value in tags_with_value.items():
+        for i, (name, value) in enumerate(tags_with_value.items()):
+            if config.database.provider == 'sqlite' and value is None:
+                # NOTE: SQLite extracts NULL both for JSON null and for a missing key
+                query = query.filter(text(f"json_type(task.tag, :null{i}) = 'null'")).params({f'null{i}': f'$."{name}"'})
+                continue
             if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
-- 
2.43.0


From f2474a670b2acbc1d8fc1c3188dc3397fb751452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 41/57] fix: task fields are shown as they are

---
 src/hypershell/task.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index aead9fd..4c150f1 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -26,6 +26,7 @@ import yaml
 from rich.console import Console
 from rich.syntax import Syntax
 from rich.table import Table
+from rich.text import Text
 from cmdkit.app import Application, ApplicationGroup, exit_status
 from cmdkit.cli import Interface, ArgumentError
 from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
@@ -179,7 +180,7 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(self.task.to_json().get(self.extract_field)))
         elif self.output_format == 'normal':
             print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
         else:
@@ -644,7 +645,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[Text(format_value(value)) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -657,8 +658,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
-            print(self.output_delimiter.join(map(str, data)))
+            print(self.output_delimiter.join(map(format_value, record)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print in output in JSON format."""
@@ -1134,7 +1134,7 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
     task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
     task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
@@ -1158,6 +1158,12 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format field as text, strings as they are and anything else as JSON."""
+    value = to_json_type(value)
+    return value if isinstance(value, str) else json.dumps(value)
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From 774666ecc4e4831a2eb81a5107dd3f24b6713c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 42/57] fix: tags with the value zero or false are shown with
 it

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 4c150f1..35df2f0 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -182,7 +182,7 @@ class TaskInfoApp(Application):
         if self.extract_field != 'tag':
             print(format_value(self.task.to_json().get(self.extract_field)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
-- 
2.43.0


From f47e0ccec89aa4b95b08fe13e61cd51d9f039e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 43/57] fix: waiting times and durations of zero are shown

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 35df2f0..4329f3d 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1135,8 +1135,8 @@ class Tag:
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
     task_data = {k: format_value(v) for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=int(task_data['waited']))
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
-- 
2.43.0


From da249227c84556d6508f7d6782a2258fe2cb3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 44/57] fix: task updates cannot replace all tags by a text

---
 src/hypershell/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 4329f3d..23b7ec0 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -967,6 +967,8 @@ class TaskUpdateApp(Application, SearchableMixin):
                 field, value = arg.split('=', 1)
                 if field == 'id':
                     raise ArgumentError(f'Cannot alter task "id" (given: {field}={value})')
+                if field == 'tag':
+                    raise ArgumentError(f'Cannot assign "tag" directly, use KEY:VALUE (given: {field}={value})')
                 if field not in Task.columns:
                     raise ArgumentError(f'Unrecognized task field "{field}"')
                 if Task.columns.get(field) is str:
-- 
2.43.0


From 5a4c34f740ab2e767cfb062d688618668517f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 45/57] fix: exported variables reach tasks as they are

---
 src/hypershell/core/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..8ab1ec7 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -354,4 +354,8 @@ def __collapse_lists(ns: Namespace) -> Namespace:
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    env = __collapse_lists(config.export).to_env().flatten()
+    # NOTE: the configuration coerces values (e.g., '007') and cannot hold both FOO and FOO_BAR
+    prefix = 'HYPERSHELL_EXPORT_'
+    env.update({name[len(prefix):]: value for name, value in os.environ.items() if name.startswith(prefix) and name != prefix})
+    return env
-- 
2.43.0


From e5c4fd8a48ab10ba45968915717136a4889ddd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 46/57] fix: accept negative indices in template slices

---
 src/hypershell/core/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..177d9e1 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.match(r'(-?\d+)?(:(-?\d+)?){0,2}$', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 8d6696376314d4301531a5b3382c0cd6cffa5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 47/57] fix: do not cut template expressions and commands at an
 inner "=" or "%"

---
 src/hypershell/core/template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 177d9e1..4b691ea 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -124,9 +124,9 @@ class Template:
     def complex_patterns(self: Template) -> Dict[str, Callable[[str, str], str]]:
         """Map of complex patterns to their expansion routines."""
         return {
-            r'\[(.*?)]': self.expand_slice,
-            '=(.*?)=': self.expand_lambda,
-            '%(.*?)%': self.expand_shell,
+            r'\[(.*?)]$': self.expand_slice,
+            '=(.*?)=$': self.expand_lambda,
+            '%(.*?)%$': self.expand_shell,
         }
 
     @staticmethod
-- 
2.43.0


From 963e281eda9310980dee79c2d9619754e76613a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:34 +0000
Subject: [PATCH 48/57] fix: config get prints values as they are (sections
 lost a closing quote, text was escaped)

---
 src/hypershell/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..a302679 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -218,15 +218,14 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
         if sys.stdout.isatty() and not self.raw_mode:
-            output = Syntax(value, 'toml', word_wrap=True,
+            output = Syntax(self.format_output(value), 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
             # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            print(value if isinstance(value, str) else self.format_output(value), file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
-- 
2.43.0


From 7d3b89c98a51ff03614f7fc6127760100c67ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:34 +0000
Subject: [PATCH 49/57] fix: config which knows settings that come from the
 logging style (KeyError before)

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index a302679..f143a26 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -381,7 +381,7 @@ class ConfigWhichApp(Application):
             value = '[...]'
         if '[' in default_value:
             default_value = '[...]'
-        if site in ('default', 'logging', ):
+        if site in ('default', 'preload', 'logging', ):
             print(f'{value} ({site})')
         elif site == 'env':
             env_varname = 'HYPERSHELL_' + self.varpath.upper().replace('.', '_')
-- 
2.43.0


From fbbd8cf1cf5ba0ca397fbe02459b2d5b2d2eb8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 50/57] fix: encode user and password within database URL

The URL is parsed and decoded again by SQLAlchemy. Without encoding, a password
with special characters (e.g., '@' or '%41') ended up as a different password or host.
---
 src/hypershell/data/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..38ad2ba 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,7 +11,7 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
+from urllib.parse import quote, urlencode
 
 # external libs
 from cmdkit.app import exit_status
@@ -138,7 +138,9 @@ class DatabaseURL(dict):
 
     def _format_user_and_password(self: DatabaseURL) -> str:
         if self.user and self.password:
-            return f'{self.user}:{self.password}@'
+            # NOTE: special characters are decoded again when the URL is parsed
+            user, password = quote(str(self.user), safe=''), quote(str(self.password), safe='')
+            return f'{user}:{password}@'
         else:
             return ''
 
-- 
2.43.0


From c0c18c6de610242b13a509f580992e8973952464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 51/57] fix: consider special variants of the database file

With `file_env` or `file_eval` (any parameter can be given like that) the
database was taken as missing and tasks were only kept in memory.
---
 src/hypershell/data/__init__.py | 3 +--
 src/hypershell/data/core.py     | 3 ++-
 src/hypershell/submit.py        | 5 ++---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..1d32f66 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -66,8 +66,7 @@ def ensuredb(auto_init: bool = False) -> None:
 
     If SQLite and `auto_init` we run :meth:`initdb`, else :meth:`checkdb`.
     """
-    db = config.database.get('file', None) or config.database.get('database', None)
-    if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+    if in_memory:
         raise ConfigurationError('Missing database configuration')
     if config.database.provider == 'sqlite' or auto_init is True:
         initdb()
diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 38ad2ba..523017c 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -189,7 +189,8 @@ engine_config = {}
 # sqlite specific configuration
 in_memory = False
 if config.provider == 'sqlite':
-    in_memory = (config.get('file', None) or config.get('database', None)) in ('', ':memory:', None)
+    # NOTE: attribute access also considers the special variants (e.g., `file_env`)
+    in_memory = (getattr(config, 'file', None) or getattr(config, 'database', None)) in ('', ':memory:', None)
     if in_memory:
         engine_config['poolclass'] = StaticPool
     if 'check_same_thread' not in connect_args:
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f55373a..5559e04 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -65,7 +65,7 @@ from hypershell.core.template import Template, DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.core.types import JSONValue
 from hypershell.data.model import Task
-from hypershell.data import initdb, checkdb
+from hypershell.data import initdb, checkdb, DATABASE_ENABLED
 from hypershell.task import Tag
 
 # public interface
@@ -782,8 +782,7 @@ class SubmitApp(Application):
     @staticmethod
     def check_config():
         """Halt if we are not connected to database."""
-        db = config.database.get('file', None) or config.database.get('database', None)
-        if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+        if not DATABASE_ENABLED:
             raise ConfigurationError('Submitting tasks to in-memory database has no effect')
 
     def __enter__(self: SubmitApp) -> SubmitApp:
-- 
2.43.0


From c1bcf995a15e9b2e0deaa2273c537ab92ace2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 52/57] fix: effective rate of clients with SQLite

SQLite has no intervals, so the query failed as soon as any task had finished,
which ended the autoscaler of a cluster with dynamic policy.
---
 src/hypershell/data/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index ce97c49..820d01c 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -509,10 +509,13 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
+            # NOTE: SQLite has no intervals (difference of timestamps must not be part of the query)
+            return {id: count / (last - first).total_seconds() for id, first, last, count in (
                 cls.query(
                     cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
+                    func.min(cls.start_time),
+                    func.max(cls.completion_time),
+                    func.count(cls.id)
                 )
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
-- 
2.43.0


From 44f8cca7dad7048575762c6f380fd08feb04eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:43 +0000
Subject: [PATCH 53/57] fix: config which of an unknown variable ends with a
 failure status

---
 src/hypershell/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index f143a26..535ff89 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -355,9 +355,8 @@ class ConfigWhichApp(Application):
         """Business logic for `config which`."""
         try:
             site = full_config.which(*self.varpath.split('.'))
-        except KeyError:
-            log.critical(f'"{self.varpath}" not found')
-            return
+        except KeyError as error:
+            raise ConfigurationError(f'"{self.varpath}" not found') from error
         if self.site_only:
             print(site)
             return
-- 
2.43.0


From 1f7e2ba9ee497066fb053925d08b69a87930fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:37 +0000
Subject: [PATCH 54/57] fix: server refuses --no-db with --forever or --restart
 as documented

---
 src/hypershell/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 7783ebc..e6993f3 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1199,6 +1199,10 @@ class ServerApp(Application):
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
+        if self.in_memory and self.forever_mode:
+            raise ArgumentError('Using --forever with --no-db is invalid')
+        if self.in_memory and self.restart_mode:
+            raise ArgumentError('Using --restart with --no-db is invalid')
 
     @cached_property
     def input_stream(self: ServerApp) -> Optional[IO]:
-- 
2.43.0


From d97f2160d6e30c921b1ba9b3daf10e39238c0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:39 +0000
Subject: [PATCH 55/57] fix: cluster with --autoscaling, --restart and a task
 file ends with an AttributeError

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 0e0d1ab..be3e7c9 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -308,7 +308,7 @@ class ClusterApp(Application):
             log.warning('Using --restart is redundant with --autoscaling (implies --forever)')
         if self.autoscaling_policy is not None and self.forever_mode:
             log.warning('Using --forever is redundant with --autoscaling')
-        if self.autoscaling_policy is not None and given_filepath:
+        if self.autoscaling_policy is not None and given_filepath and not self.restart_mode:
             log.warning(f'Task file ({self.input_stream.name}) in use but server will '
                         f'not halt (--autoscaling implies --forever)')
         if self.autoscaling_policy is not None and self.client_timeout is not None and self.autoscaling_minimum > 0:
-- 
2.43.0


From e783b4da5c375b5bdce0fcde0ab15104631bc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:13 +0000
Subject: [PATCH 56/57] fix: refused client command empties the output file

The arguments were checked in `run`, after which `__exit__` opened (and so
truncated) the files given with --output and --errors in order to close them.
Check them on entry like the server and cluster commands do.
---
 src/hypershell/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 2ebf347..ceb8e05 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1217,7 +1217,6 @@ class ClientApp(Application):
     def run(self: ClientApp) -> None:
         """Run client."""
         try:
-            self.check_args()
             run_client(num_tasks=self.num_tasks,
                        bundlesize=self.bundlesize,
                        bundlewait=self.bundlewait,
@@ -1255,6 +1254,11 @@ class ClientApp(Application):
         """IO stream for task errors."""
         return sys.stderr if not self.errors_path else open(self.errors_path, mode='w')
 
+    def __enter__(self: ClientApp) -> ClientApp:
+        """Check arguments before any files are opened."""
+        self.check_args()
+        return self
+
     def __exit__(self: ClientApp,
                  exc_type: Optional[Type[Exception]],
                  exc_val: Optional[Exception],
-- 
2.43.0


From 5c9678451e676f0ed26deed62a13c7460747dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:07 +0000
Subject: [PATCH 57/57] fix: refuse tag values that end with a line break

The pattern was anchored with $, which also matches before a final newline.
---
 src/hypershell/data/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 820d01c..119cbef 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -303,7 +303,7 @@ class Task(Entity):
                     continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
-                if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
+                if not re.fullmatch(r'[A-Za-z0-9_.+-]+', value):
                     raise ValueError(f'Tag must only contain alphanumerics and basic symbols [+._-]: '
                                      f'({key}: {value})')
 
-- 
2.43.0

