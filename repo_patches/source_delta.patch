From 4fd6eb7f8d18926654c2d7863c059c256bb5c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 001/146] fix: reserve an idle parallel domain atomically in
 wake_up_domain

---
 skdecide/domains.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..36c44f9 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -419,10 +419,13 @@ class ParallelDomain:
     def wake_up_domain(self, i=None):
         if i is None:
             while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
+                # The lock makes "find an idle domain and reserve it" atomic: otherwise
+                # two concurrent callers can reserve the same domain.
+                with self._active_domains.get_lock():
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From f1e0836200e9460c73e6ddf71005fa9c96404345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 002/146] fix: advance by the register size when encoding
 several results of one type

---
 skdecide/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 36c44f9..ca918ed 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -669,7 +669,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                         res_name = type(r).__name__
                         (start, end) = shm_registers[res_name]
                         if res_name in type_counters:
-                            type_counters[res_name] += 1
+                            type_counters[res_name] += shm_sizes[res_name]
                             k = type_counters[res_name]
                             if (k >= end):
                                 raise IndexError('''No more available register for type {}. 
-- 
2.43.0


From 1a547a18c123890fab2a82814cd2fdbdad685ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 003/146] fix: decode a method name that fills its
 shared-memory buffer

---
 skdecide/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index ca918ed..0b69854 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -633,7 +633,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
         for i, c in enumerate(s):
             if c == b'\x00':
                 return s[:i].decode()
-        return s.decode()
+        return s[:].decode()
 
     while True:
         with cond:
-- 
2.43.0


From 406f2ccbfc1ab1d87dcc36be639dde73738dffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 004/146] fix: do not return the arguments of a failed
 shared-memory job as its result

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 0b69854..6405092 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -688,6 +688,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                 if ipc_conn is not None:
                     pusher.send(b'0')  # send success
             except Exception as e:
+                shm_params[i][:] = [-1]*len(shm_params[i])  # a failed job has no result
                 if int(shm_lambdas[i].value) == -1:
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
-- 
2.43.0


From f946ff387ccb889b9fc774451dc9cdc995b44e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 005/146] fix: release the reserved parallel domain when a job
 cannot be launched

---
 skdecide/domains.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 6405092..33705fd 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -579,11 +579,15 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            if mi is not None and not isinstance(e, OSError):
+                # Nothing was sent, so the domain is still idle (unless its pipe is broken)
+                self._active_domains[mi] = False
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -758,6 +762,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -794,6 +799,8 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # the job was not activated: the domain is still idle
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From da9feb637b902a085820306e2e366282818d65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 006/146] fix: complete a failed piped job also when
 notifications are enabled

---
 skdecide/domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 33705fd..88a2b69 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -553,8 +553,7 @@ def _launch_domain_server_(domain_factory, lambdas, i,
                 logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
+                conn.send(str(e))  # send failure (!= 0)
 
 class PipeParallelDomain(ParallelDomain):
     """This class can be used to create and launch n domains in separate processes.
-- 
2.43.0


From c86dad8d1956960846c851af837763ec7d4c1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 007/146] fix: close every parallel domain even if one of their
 processes is dead

---
 skdecide/domains.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 88a2b69..d992432 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -615,7 +615,10 @@ class PipeParallelDomain(ParallelDomain):
     
     def close(self):
         for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
+            try:
+                self._waiting_jobs[i].send(None)
+            except OSError:
+                pass  # the process is already dead
             self._processes[i].join()
             self._processes[i].close()
             self._waiting_jobs[i].close()
-- 
2.43.0


From e222409f15ae5dddec3959c316f1d4ee512b3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 008/146] fix: forget unclaimed jobs when closing a parallel
 domain so that it can be launched again

---
 skdecide/domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index d992432..7e69e97 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -624,6 +624,7 @@ class PipeParallelDomain(ParallelDomain):
             self._waiting_jobs[i].close()
             self._processes[i] = None
             self.close_ipc_connection(i)
+            self._active_domains[i] = False
 
 
 def _shm_launch_domain_server_(domain_factory, lambdas, i,
@@ -857,3 +858,6 @@ class ShmParallelDomain(ParallelDomain):
             self._processes[i].close()
             self._processes[i] = None
             self.close_ipc_connection(i)
+            self._activations[i].value = False
+            self._dones[i].value = False
+            self._active_domains[i] = False
-- 
2.43.0


From 9a09dc1a7fba0fd91f7ac08ab867387fc876d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 009/146] fix: closing a parallel domain that is not launched
 does nothing

---
 skdecide/domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 7e69e97..181a426 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -615,6 +615,8 @@ class PipeParallelDomain(ParallelDomain):
     
     def close(self):
         for i in range(len(self._job_results)):
+            if self._processes[i] is None:
+                continue  # not launched, or already closed
             try:
                 self._waiting_jobs[i].send(None)
             except OSError:
@@ -848,6 +850,8 @@ class ShmParallelDomain(ParallelDomain):
     
     def close(self):
         for i in range(len(self._processes)):
+            if self._processes[i] is None:
+                continue  # not launched, or already closed
             self._shm_lambdas[i].value = -1
             self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
             self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-- 
2.43.0


From 2613550efa2e97d9fd9b8bc8bdc6fcfa6b3ae008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 010/146] fix: ParallelSolver.get_domain initializes the domain
 on first use

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From d17afde6ab98f1e554cc33b263160b1b4aa49942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 011/146] fix: release the renewable resources of tasks of
 duration zero

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..99c2370 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,9 +425,16 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
+                self._release_renewable_resources(next_state, task)
                 next_state.resource_used_for_task.pop(task)
         return next_state
 
+    def _release_renewable_resources(self, state: State, task: int):
+        """Give back the renewable resources used by a task which has just been completed."""
+        for res, res_consumption in state.resource_used_for_task[task].items():
+            if self.is_renewable(res):
+                state.resource_used[res] -= res_consumption
+
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
         """In an uncertain scheduling environment, update the status of newly started tasks whose duration is 0
          from ongoing to complete."""
@@ -440,6 +447,7 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
+                    self._release_renewable_resources(next_state, task)
                     next_state.resource_used_for_task.pop(task)
         return next_states
 
-- 
2.43.0


From d5a8b1d33c9b1ac3a0e7312f0e8551c51af82cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 012/146] fix: offer every possible mode of a task, not only
 the last one

---
 skdecide/builders/scheduling/scheduling_domains.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 99c2370..c11d9c1 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -680,8 +680,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_modes = {}
+        for n, mode in possible_task_with_ressource:
+            possible_modes.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_modes
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
@@ -699,8 +701,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_modes = {}
+        for n, mode in possible_task_with_ressource:
+            possible_modes.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_modes
 
     def state_is_overconsuming(self, state: State):
         return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
-- 
2.43.0


From f65abd47c370e2ecd0e414cc5546def17af6efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 013/146] fix: look up by task whether a pause returns
 non-renewable resources

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index c11d9c1..449aac9 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -468,7 +468,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From 8d2b0ab03255f547d894a7df2425a983407c4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 014/146] fix: active time of a task which is paused

---
 skdecide/builders/scheduling/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..245fa01 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,8 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            resumed = self.resumed[i] if i < len(self.resumed) else tt  # still paused
+            time_paused += resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From b6b0a6db5c10ee681883a4f328d3c88e4e436c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 015/146] fix: resume a task in the requested or previous mode,
 and only if its resources are available

---
 .../builders/scheduling/scheduling_domains.py     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 449aac9..1ce4dc3 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -496,13 +496,13 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
             b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
             if not b:
                 return next_state
+            next_state.tasks_mode[resumed_task] = mode
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
@@ -550,8 +550,11 @@ class SchedulingDomain(WithPrecedence,
         if not action.action == SchedulingActionEnum.START and not action.action == SchedulingActionEnum.RESUME:
             return True, {}
         started_task = action.task
+        mode = action.mode
+        if mode is None and action.action == SchedulingActionEnum.RESUME:
+            mode = state.tasks_mode[started_task]
         resource_to_use = self.get_resource_used(task=started_task,
-                                                 mode=action.mode,
+                                                 mode=mode,
                                                  resource_unit_names=action.resource_unit_names,
                                                  time_since_start=
                                                  state.tasks_details[started_task].get_task_active_time(state.t))
@@ -560,7 +563,7 @@ class SchedulingDomain(WithPrecedence,
                for r in resource_to_use):
             return False, resource_to_use
         b = self.check_if_skills_are_fulfilled(task=started_task,
-                                               mode=action.mode,
+                                               mode=mode,
                                                resource_used=resource_to_use)
         return b, resource_to_use
 
-- 
2.43.0


From 05dada2fa28b80338766dfd54721cc35793f56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 016/146] fix: a resumed task of type Restart starts again from
 the beginning

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 1ce4dc3..7bd9215 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -8,7 +8,7 @@ from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTrans
 from skdecide.builders.scheduling.modes import SingleMode, MultiMode
 from skdecide.builders.scheduling.resource_consumption import VariableResourceConsumption, ConstantResourceConsumption
 from skdecide.builders.scheduling.precedence import WithPrecedence
-from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity
+from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
 from skdecide.builders.scheduling.resource_type import WithResourceTypes, WithResourceUnits, WithoutResourceUnit
 from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
 from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum, State, \
@@ -503,6 +503,8 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(resumed_task)
             next_state.tasks_paused.remove(resumed_task)
             next_state.tasks_details[resumed_task].resumed.append(next_state.t)
+            if self.get_task_resuming_type()[resumed_task] == ResumeType.Restart:
+                next_state.tasks_progress[resumed_task] = 0.
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From 5e921d17b497a2f30ac7a4ee79d96c78df87d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 017/146] fix: offer to resume a task only if its resources are
 available

---
 skdecide/builders/scheduling/scheduling_domains.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 7bd9215..1a49b84 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -937,10 +937,12 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
                 task_possible_to_resume = self.state.tasks_paused
-                list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
-                                                 mode=self.state.tasks_mode[t],
-                                                 time_progress=False)
-                                for t in task_possible_to_resume]
+                resume_actions = [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
+                                                   mode=self.state.tasks_mode[t],
+                                                   time_progress=False)
+                                  for t in task_possible_to_resume]
+                list_action += [a for a in resume_actions
+                                if self.domain.check_if_action_can_be_started(self.state, a)[0]]
             if choice == SchedulingActionEnum.TIME_PR:
                 list_action.append(SchedulingAction(task=None,
                                                     action=SchedulingActionEnum.TIME_PR,
-- 
2.43.0


From aa64adb52f886cd331c3e2b474414ed009bd17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 018/146] fix: a paused task does not wait for tasks which do
 not exist

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 1a49b84..c0393ba 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -695,7 +695,7 @@ class SchedulingDomain(WithPrecedence,
                                     for n in state.tasks_paused
                                     for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
-- 
2.43.0


From 222975cd549456bcd024307d129d794c4b016d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 019/146] fix: read a varying consumption at the active time of
 the task, while it runs

---
 skdecide/builders/scheduling/scheduling_domains.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index c0393ba..54fd871 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -682,7 +682,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_modes = {}
@@ -703,7 +704,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_modes = {}
-- 
2.43.0


From ad6d7931193cbc3ab39d466d7ce43dab63bb449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 020/146] fix: cost of non-renewable resources reads the
 previous state, not an item of it

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 54fd871..f25b6c9 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -803,14 +803,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 8499ab93605c6f2549116499ec8cc269d118e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 021/146] fix: record the resources of a started task in each
 outcome, without sharing them

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f25b6c9..adb9d1c 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -597,7 +597,7 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(started_task)
             next_state.tasks_remaining.remove(started_task)
             next_state.tasks_details[started_task].start = next_state.t
-            next_state.tasks_details[started_task].resources = resource_to_use
+            next_state.tasks_details[started_task].resources = dict(resource_to_use)
             next_state.tasks_details[started_task].sampled_duration = \
                 self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
             for res in resource_to_use:
@@ -629,10 +629,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 30b8df3fde9d1249388da171504eaad3f1075fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 022/146] fix: conditional tasks exist as soon as their
 conditions hold

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index adb9d1c..e443d03 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
@@ -135,8 +135,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks(next_state, action)
         next_state = self.update_start_tasks(next_state, action)
         next_state = self.update_complete_dummy_tasks(next_state, action)
-        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_time(next_state, action)
+        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_resource_availability(next_state, action)  # maybe this should be done after self.update_time too ??
 
         return next_state
-- 
2.43.0


From 0d74f4f116ccf669e8d1effec991caf3b82248a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 023/146] fix: outcomes of tasks which add conditions keep
 their probabilities and are complete

---
 .../builders/scheduling/scheduling_domains.py | 50 ++++++++-----------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index e443d03..a9e7cbd 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,15 +360,13 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
                     next_state.tasks_progress[task_id] = 1
                     completed_tmp.append(task_id)
 
-            all_values = []
-            all_models = {}
             for completed_task in completed_tmp:
                 next_state.tasks_complete.add(completed_task)
                 next_state.tasks_ongoing.remove(completed_task)
@@ -378,35 +376,27 @@ class SchedulingDomain(WithPrecedence,
                         next_state.resource_used[res] -= res_consumption
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
-                if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
-                    for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
-                        for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
-                            all_values.append({'task': completed_task,
-                                               'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][0],
-                                               'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
-
-            combinations = list(product(*all_models.values()))
-            # for comb in combinations:
-            #     next_state_2 = next_state.copy()
-            #     proba = 1.
-            #     for i in comb:
-            #         next_state_2._current_conditions.add(all_values[i]['cond'])
-            #         proba *= all_values[i]['prob']
-            #     states_and_proba += [(next_state_2, proba)]
-            for comb in combinations:
-                do_copy = len(comb) > 0
-                next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
-                for i in comb:
-                    next_state_2._current_conditions.add(all_values[i]['cond'])
-                    proba *= all_values[i]['prob']
-                states_and_proba += [(next_state_2, proba)]
+
+            states_and_proba += self._add_completion_conditions(next_state, state_proba, completed_tmp)
         return DiscreteDistribution(states_and_proba)
 
+    def _add_completion_conditions(self, state: State, proba: float, completed_tasks: List[int]) -> List[Tuple[State, float]]:
+        """Get the possible states, and their probabilities, once each on-completion distribution of the given tasks
+        has added its condition to a state which has the given probability."""
+        on_completion = self.get_task_on_completion_added_conditions()
+        distributions = [distribution.get_values()
+                         for task in completed_tasks if task in on_completion
+                         for distribution in on_completion[task]]
+        states_and_proba = []
+        for outcomes in product(*distributions):
+            next_state = state.copy() if len(outcomes) > 0 else state
+            next_proba = proba
+            for condition, condition_proba in outcomes:
+                next_state._current_conditions.add(condition)
+                next_proba *= condition_proba
+            states_and_proba += [(next_state, next_proba)]
+        return states_and_proba
+
     def update_complete_tasks_simulation(self, state: State):
         """In a simulated scheduling environment, update the status of newly completed tasks in the state from ongoing to complete
         and update resource availability. This function will also log in task_details the time it was complete"""
-- 
2.43.0


From d61f1f1b5575f750dc9648ca6755635eeca3cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 024/146] fix: tasks of duration zero add their conditions on
 completion

---
 .../builders/scheduling/scheduling_domains.py | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a9e7cbd..1525b14 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -431,20 +431,25 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            states_and_proba = []
+            for next_state, proba in next_states.get_values():
+                completed = []
                 if next_state.tasks_details[task].sampled_duration == 0:
+                    completed = [task]
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
                     self._release_renewable_resources(next_state, task)
                     next_state.resource_used_for_task.pop(task)
+                states_and_proba += self._add_completion_conditions(next_state, proba, completed)
+            next_states = DiscreteDistribution(states_and_proba)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(DiscreteDistribution([(state, 1.)]), action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
@@ -753,15 +758,13 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
-            for next_state, _ in next_states.get_values():
-                all_available_tasks = self.get_available_tasks(next_state)
-                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-                    next_state.tasks_progress).union(next_state.tasks_complete)
-                new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
-                for task in new_tasks:
-                    next_state.tasks_remaining.add(task)
-            return next_states
+        for next_state, _ in next_states.get_values():
+            all_available_tasks = self.get_available_tasks(next_state)
+            all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
+                next_state.tasks_progress).union(next_state.tasks_complete)
+            new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
+            for task in new_tasks:
+                next_state.tasks_remaining.add(task)
         return next_states
 
     def update_conditional_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From 33b1766e000e21c2b748b84cbe63b469a3984ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 025/146] fix: equality and hash of scheduling states do not
 depend on insertion order

---
 .../scheduling/scheduling_domains_modelling.py   | 16 ++++++++++++++--
 skdecide/builders/scheduling/task.py             |  5 +++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..760fac4 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -125,11 +125,23 @@ class State:
     def __repr__(self):
         return str(self)
 
+    def _key(self):
+        """Get a hashable image of the content of this state, independent of the order it was built in."""
+        return (self.t,
+                frozenset(self.tasks_remaining), frozenset(self.tasks_ongoing),
+                frozenset(self.tasks_complete), frozenset(self.tasks_paused),
+                frozenset(self.tasks_progress.items()), frozenset(self.tasks_mode.items()),
+                frozenset(self.resource_to_task.items()), frozenset(self.resource_availability.items()),
+                frozenset(self.resource_used.items()),
+                frozenset((task, frozenset(used.items())) for task, used in self.resource_used_for_task.items()),
+                frozenset((task, details._key()) for task, details in self.tasks_details.items()),
+                frozenset(self._current_conditions))
+
     def __hash__(self):
-        return hash(str(self))
+        return hash(self._key())
 
     def __eq__(self, other):
-        return self.__hash__() == other.__hash__()
+        return isinstance(other, State) and self._key() == other._key()
 
 
 # class SamplableAction:
diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index 245fa01..e8845c8 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -46,6 +46,11 @@ class Task:
         total_active_time = time_since_start - time_paused
         return total_active_time
 
+    def _key(self):
+        """Get a hashable image of the content of this task."""
+        return (self.id, self.start, self.end, self.sampled_duration, self.mode, tuple(self.paused),
+                tuple(self.resumed), frozenset(self.resources.items()))
+
     def __str__(self):
         out = ""
         for key in sorted(self.__dict__.keys()):
-- 
2.43.0


From 420637262b7c3c53c477d9cefb51af7014de5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 026/146] fix: in place scheduling environments can be reset
 and count the makespan

---
 skdecide/builders/scheduling/scheduling_domains.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 1525b14..76666dd 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -157,6 +157,11 @@ class SchedulingDomain(WithPrecedence,
         s.resource_used = {r: 0 for r in s.resource_availability}
         return s
 
+    def _state_reset(self) -> D.T_state:
+        initial_state = super()._state_reset()
+        # the cached initial state must not be modified by in place transitions
+        return initial_state.copy() if self.inplace_environment else initial_state
+
     def _get_action_space_(self) -> D.T_agent[Space[D.T_event]]:
         """
         To be implemented if needed one day.
@@ -785,7 +790,7 @@ class SchedulingDomain(WithPrecedence,
         transition_cost = 0.
 
         if SchedulingObjectiveEnum.MAKESPAN in self.get_objectives():
-            transition_makespan = next_state.t - memory.t
+            transition_makespan = 1. if action.time_progress else 0.  # also right if next_state is memory (in place)
 
         if SchedulingObjectiveEnum.COST in self.get_objectives():
             mode_cost_val = 0.
-- 
2.43.0


From 1f792ffbefcbd277d910eaf0afee0d16ba610762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 027/146] fix: a varying consumption is zero after its last
 time step

---
 skdecide/builders/scheduling/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/modes.py b/skdecide/builders/scheduling/modes.py
index 3651719..39307b8 100644
--- a/skdecide/builders/scheduling/modes.py
+++ b/skdecide/builders/scheduling/modes.py
@@ -36,7 +36,7 @@ class VaryingModeConsumption(ModeConsumption):
     def _get_resource_need_at_time(self, resource_name: str, time: int):
         """Return the resource consumption for the given resource at the given time.
         Note that the time should be the time from the start of the execution of the task (starting from 0)."""
-        if resource_name in self.mode_details:
+        if resource_name in self.mode_details and time < len(self.mode_details[resource_name]):
             return self.mode_details[resource_name][time]
         else:
             return 0
-- 
2.43.0


From 46df7e89101dc3a4436593517def680f94737794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 028/146] fix: resource unit action space resumes paused tasks
 instead of starting them

---
 .../builders/scheduling/scheduling_domains.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 76666dd..04573ef 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1008,14 +1008,14 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              mode=
                                                                              self.state.tasks_mode[possible_to_resume])
 
-                    list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
-                                                     mode=self.state.tasks_mode[possible_to_resume],
-                                                     time_progress=False,
-                                                     resource_unit_names={r} if r is not None else None)
-                                    for r in possible
-                                    if r is None or self.state.resource_used[r] + 1
-                                    <= self.state.resource_availability[r]]
+                    resume_actions = [SchedulingAction(task=possible_to_resume,
+                                                       action=SchedulingActionEnum.RESUME,
+                                                       mode=self.state.tasks_mode[possible_to_resume],
+                                                       time_progress=False,
+                                                       resource_unit_names={r} if r is not None else None)
+                                      for r in possible]
+                    list_action += [a for a in resume_actions
+                                    if self.domain.check_if_action_can_be_started(self.state, a)[0]]
             if choice == SchedulingActionEnum.TIME_PR:
                 list_action.append(SchedulingAction(task=None,
                                                     action=SchedulingActionEnum.TIME_PR,
-- 
2.43.0


From fd3b2d0972236c930f76a63038f87db790927a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 029/146] fix: a failed parallel request is never notified with
 the success message

---
 skdecide/domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 181a426..6ca18ee 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -552,8 +552,8 @@ def _launch_domain_server_(domain_factory, lambdas, i,
             except Exception as e:
                 logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
                 if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                conn.send(str(e))  # send failure (!= 0)
+                    pusher.send(rf'{type(e).__name__}: {e}'.encode(encoding='UTF-8'))  # send error message
+                conn.send(rf'{type(e).__name__}: {e}')  # send failure (!= 0)
 
 class PipeParallelDomain(ParallelDomain):
     """This class can be used to create and launch n domains in separate processes.
@@ -703,7 +703,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                 else:
                     logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
                 if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                    pusher.send(rf'{type(e).__name__}: {e}'.encode(encoding='UTF-8'))  # send error message
             with cond:
                 done.value = True
                 cond.notify_all()  # send finished status (no success nor failure information)
-- 
2.43.0


From 5b6cbc290dada18a4343c09f02fcea8355a706ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 030/146] fix: a memory seen by a Markovian domain is its most
 recent state, not its oldest

---
 skdecide/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..9036e24 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -558,7 +558,7 @@ class BoundConstraint(Constraint[D.T_memory, D.T_event, D.T_state]):
 
 # (auto)cast-related objects/functions
 cast_dict = {
-    (Memory, Union): lambda obj, src, dst: cast(obj[0], src[0], dst[0]),
+    (Memory, Union): lambda obj, src, dst: cast(obj[-1], src[0], dst[0]),
     (Union, Memory): lambda obj, src, dst: Memory([cast(obj, src[0], dst[0])]),
     (Memory, Memory): lambda obj, src, dst: Memory([cast(x, src[0], dst[0]) for x in obj]),
     (StrDict, Union): lambda obj, src, dst: cast(next(iter(obj.values())), src[0], dst[0]),
-- 
2.43.0


From 2b31a950750802d802d46675e67c7a5bf5508710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 031/146] fix: domains with an unbounded or one-state history
 can be stepped

---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..c8b50c4 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import functools
 from typing import Optional
 
-from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
+from skdecide.core import D, Distribution, DiscreteDistribution, Memory, SingleValueDistribution, TransitionValue, \
     EnvironmentOutcome, TransitionOutcome, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if isinstance(self._memory, Memory):
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From 2f499a0072ba87cce6281db6fba7c33c9ae30321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 032/146] fix: stepping does not change the memory a caller has
 set

---
 skdecide/builders/domain/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index c8b50c4..4dc183a 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -155,6 +155,8 @@ class Simulation(Environment):
             simulation_domain._step(my_action)
         ```
         """
+        if isinstance(memory, Memory):
+            memory = Memory(memory, maxlen=self._get_memory_maxlen())
         self._memory = memory
 
     @autocastable
-- 
2.43.0


From fd04863de7867bf80543a4f3e9b6cba18105fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 033/146] fix: rollout_episode starts from a reset when no
 memory is given

---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From 6ddb2c56d80aebf7a498a95dc602e282c8791fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 034/146] fix: rollout_episode does not replace the memory of
 the domain by an observation

---
 skdecide/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..229f856 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -330,7 +330,6 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From 7adb9ec0068b009864d2355e439fee8f2d51839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 035/146] fix: rollouts saved within the same second do not
 fail

---
 skdecide/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 229f856..e9cf8b7 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -217,7 +217,14 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
             directory = os.path.join(save_result_directory, str_timestamp)
-            os.mkdir(directory)
+            nb_same_timestamp = 0
+            while True:
+                try:
+                    os.mkdir(directory)
+                    break
+                except FileExistsError:
+                    nb_same_timestamp += 1
+                    directory = os.path.join(save_result_directory, f'{str_timestamp}_{nb_same_timestamp}')
             try:
                 with open(os.path.join(directory, 'actions.json'), 'w') as f:
                     json.dump(actions, f, indent=2)
-- 
2.43.0


From a43a63de1592381405a8b5c1e8a360c4358aaf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 036/146] fix: saving the results of a rollout does not stop it
 after its first episode

---
 skdecide/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index e9cf8b7..43462b2 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -150,6 +150,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    directory = None
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -241,7 +242,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    return directory
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 5f6ececf1c9652556b95549e6dc08b935ab5cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 037/146] fix: the directory of saved rollouts may be created
 by another rollout meanwhile

---
 skdecide/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 43462b2..a9b1e66 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -210,11 +210,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             logger.info(f'The goal was{"" if domain.is_goal(observation) else " not"} reached '
                         f'in episode {i_episode + 1}.')
         if save_result_directory is not None:
-            if not os.path.exists(save_result_directory):
-                os.mkdir(save_result_directory)
-            elif not os.path.isdir(save_result_directory):
-                raise FileExistsError
-
+            os.makedirs(save_result_directory, exist_ok=True)
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
             directory = os.path.join(save_result_directory, str_timestamp)
-- 
2.43.0


From d1bed49ab35c77e2e126c73fd42cc84d7a4b1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:57 +0000
Subject: [PATCH 038/146] fix: a task does not wait for predecessors which do
 not exist when tasks possible to launch are listed

---
 skdecide/builders/scheduling/precedence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/precedence.py b/skdecide/builders/scheduling/precedence.py
index 82d54b2..111e6e0 100644
--- a/skdecide/builders/scheduling/precedence.py
+++ b/skdecide/builders/scheduling/precedence.py
@@ -52,20 +52,22 @@ class WithPrecedence:
         return Graph(nodes, edges, False)
 
     def _task_modes_possible_to_launch(self, state: State):
+        available_tasks = self.get_available_tasks(state)
         return [(n, mode)
                 for n in state.tasks_remaining
                 for mode in self.get_task_modes(n).keys()
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in self.ancestors[n] if m in available_tasks)]
 
     def task_modes_possible_to_launch(self, state: State):
         return self._task_modes_possible_to_launch(state=state)
 
     def _task_possible_to_launch_precedence(self, state: State):
+        available_tasks = self.get_available_tasks(state)
         return [n
                 for n in state.tasks_remaining
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in self.ancestors[n] if m in available_tasks)]
 
     def task_possible_to_launch_precedence(self, state: State):
         return self._task_possible_to_launch_precedence(state=state)
-- 
2.43.0


From a86a245c089003878a0c4091d22d608a2b7ebd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 039/146] fix: A* does not mix the costs of several searches,
 queue positions or threads

---
 cpp/src/hub/solver/astar.hh | 69 +++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index de06afb..e9b8310 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -57,22 +57,32 @@ public :
 
             // Create the root node containing the given state s
             auto si = _graph.emplace(s);
-            if (si.first->solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
                 return;
             }
-            Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            if (_goal_checker(_domain, s)) {
+                root_node.best_value = 0;
+                return;
+            }
+
+            // Forget the costs of the paths found by previous searches, which started from other states
+            for (const auto& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity();
+            }
             root_node.gscore = 0;
-            root_node.fscore = _heuristic(_domain, root_node.state);
 
-            // Priority queue used to sort non-goal unsolved tip nodes by increasing cost-to-go values (so-called OPEN container)
-            std::priority_queue<Node*, std::vector<Node*>, NodeCompare> open_queue;
-            open_queue.push(&root_node);
+            // Priority queue used to sort non-goal unsolved tip nodes by increasing f-values (so-called OPEN container);
+            // the f-value of an element is its priority at the time it was inserted
+            std::priority_queue<std::pair<double, Node*>, std::vector<std::pair<double, Node*>>, NodeCompare> open_queue;
+            open_queue.push(std::make_pair(_heuristic(_domain, root_node.state), &root_node));
 
             // Set of states for which the g-value is optimal (so-called CLOSED container)
             std::unordered_set<Node*> closed_set;
 
             while (!open_queue.empty()) {
-                auto best_tip_node = open_queue.top();
+                double best_fscore = open_queue.top().first;
+                auto best_tip_node = open_queue.top().second;
                 open_queue.pop();
 
                 // Check that the best tip node has not already been closed before
@@ -84,17 +94,17 @@ public :
 
                 if (_debug_logs) spdlog::debug("Current best tip node: " + best_tip_node->state.print() +
                                                ", gscore=" + StringConverter::from(best_tip_node->gscore) +
-                                               ", fscore=" + StringConverter::from(best_tip_node->fscore));
+                                               ", fscore=" + StringConverter::from(best_fscore));
 
                 if (_goal_checker(_domain, best_tip_node->state) || best_tip_node->solved) {
                     if (_debug_logs) spdlog::debug("Closing a goal state: " + best_tip_node->state.print());
                     auto current_node = best_tip_node;
-                    if (!(best_tip_node->solved)) { current_node->fscore = 0; } // goal state
+                    if (!(best_tip_node->solved)) { current_node->best_value = 0; } // goal state
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
-                        parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
+                        parent_node->best_value = std::get<2>(current_node->best_parent) + current_node->best_value;
                         parent_node->solved = true;
                         current_node = parent_node;
                     }
@@ -131,16 +141,24 @@ public :
                     double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                     double tentative_gscore = best_tip_node->gscore + transition_cost;
 
-                    if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                        neighbor.gscore = tentative_gscore;
-                        neighbor.fscore = tentative_gscore + _heuristic(_domain, neighbor.state);
-                        neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        _execution_policy.protect([&open_queue, &neighbor]{
-                            open_queue.push(&neighbor);
+                    bool better_path = false;
+                    _execution_policy.protect([&best_tip_node, &a, &neighbor, &transition_cost, &tentative_gscore, &better_path]{
+                        better_path = (tentative_gscore < neighbor.gscore);
+                        if (better_path) {
+                            neighbor.gscore = tentative_gscore;
+                            neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                        }
+                    });
+
+                    if (better_path) {
+                        // the cost-to-go of a node solved by a previous search is known
+                        double fscore = tentative_gscore + (neighbor.solved ? neighbor.best_value : _heuristic(_domain, neighbor.state));
+                        _execution_policy.protect([&open_queue, &neighbor, &fscore]{
+                            open_queue.push(std::make_pair(fscore, &neighbor));
                         });
                         if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
-                                                       ", gscore=" + StringConverter::from(neighbor.gscore) +
-                                                       ", fscore=" + StringConverter::from(neighbor.fscore) +
+                                                       ", gscore=" + StringConverter::from(tentative_gscore) +
+                                                       ", fscore=" + StringConverter::from(fscore) +
                                                        ExecutionPolicy::print_thread());
                     }
                 });
@@ -175,7 +193,7 @@ public :
         if (si == _graph.end()) {
             throw std::runtime_error("SKDECIDE exception: no best action found in state " + s.print());
         }
-        return si->fscore;
+        return si->best_value;
     }
 
 private :
@@ -189,15 +207,14 @@ private :
         State state;
         std::tuple<Node*, Action, double> best_parent;
         double gscore;
-        double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        double best_value; // cost-to-go, computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s)
             : state(s),
               gscore(std::numeric_limits<double>::infinity()),
-              fscore(std::numeric_limits<double>::infinity()),
-              best_action(nullptr),
+              best_value(std::numeric_limits<double>::infinity()),
               solved(false) {}
         
         struct Key {
@@ -206,8 +223,8 @@ private :
     };
 
     struct NodeCompare {
-        bool operator()(Node*& a, Node*& b) const {
-            return (a->fscore) > (b->fscore); // smallest element appears at the top of the priority_queue => cost optimization
+        bool operator()(const std::pair<double, Node*>& a, const std::pair<double, Node*>& b) const {
+            return (a.first) > (b.first); // smallest element appears at the top of the priority_queue => cost optimization
         }
     };
 
-- 
2.43.0


From cc1b794e9c5d7296733acf26b906c8e26d57b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 040/146] fix: AO* handles dead ends, goal roots and acyclic
 graphs, and its parallel expansion and backup do not race

---
 cpp/src/hub/solver/aostar.hh | 58 ++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 80e4e85..405e0ff 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -60,10 +60,15 @@ public :
             auto start_time = std::chrono::high_resolution_clock::now();
 
             auto si = _graph.emplace(s);
-            if (si.first->solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
+                return;
+            }
+            if (_goal_checker(_domain, s)) {
+                root_node.solved = true;
+                root_node.best_value = 0.0;
                 return;
             }
-            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
             std::priority_queue<StateNode*, std::vector<StateNode*>, StateNodeCompare> q; // contains only non-goal unsolved tip nodes
             q.push(&root_node);
 
@@ -85,10 +90,12 @@ public :
                     auto applicable_actions = _domain.get_applicable_actions(best_tip_node->state).get_elements();
                     std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &best_tip_node](auto a){
                         if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-                        _execution_policy.protect([&best_tip_node, &a]{
+                        ActionNode* action_node = nullptr;
+                        _execution_policy.protect([&best_tip_node, &a, &action_node]{
                             best_tip_node->actions.push_back(std::make_unique<ActionNode>(a));
+                            action_node = best_tip_node->actions.back().get();
                         });
-                        ActionNode& an = *(best_tip_node->actions.back());
+                        ActionNode& an = *action_node;
                         an.parent = best_tip_node;
                         auto next_states = _domain.get_next_state_distribution(best_tip_node->state, a).get_values();
                         for (auto ns : next_states) {
@@ -118,30 +125,35 @@ public :
                 }
 
                 // Back-propagate value function from best tip node
-                std::unique_ptr<std::unordered_set<StateNode*>> explored_states; // only for detecting cycles
-                if (_detect_cycles) explored_states = std::make_unique<std::unordered_set<StateNode*>>(frontier);
+                std::size_t nb_backups = 0; // only for detecting cycles
                 while (!frontier.empty()) {
                     std::unordered_set<StateNode*> new_frontier;
                     std::for_each(ExecutionPolicy::policy, frontier.begin(), frontier.end(), [this, &new_frontier](const auto& fs){
                         // update Q-values and V-value
-                        fs->best_value = std::numeric_limits<double>::infinity();
-                        fs->best_action = nullptr;
+                        // (other threads can read fs in the meantime so it is modified once its new value is known)
+                        double best_value = std::numeric_limits<double>::infinity();
+                        ActionNode* best_action = nullptr;
                         for (const auto& a : fs->actions) {
-                            a->value = 0.0;
+                            double value = 0.0;
                             for (const auto& ns : a->outcomes) {
-                                a->value += std::get<0>(ns) * (std::get<1>(ns) + (_discount * std::get<2>(ns)->best_value));
+                                value += std::get<0>(ns) * (std::get<1>(ns) + (_discount * std::get<2>(ns)->best_value));
                             }
-                            if (a->value < fs->best_value) {
-                                fs->best_value = a->value;
-                                fs->best_action = a.get();
+                            a->value = value;
+                            if (value < best_value) {
+                                best_value = value;
+                                best_action = a.get();
                             }
-                            fs->best_value = std::min(fs->best_value, a->value);
                         }
-                        // update solved field
-                        fs->solved = true;
-                        for (const auto& ns : fs->best_action->outcomes) {
-                            fs->solved = fs->solved && std::get<2>(ns)->solved;
+                        // update solved field (no goal can be reached from fs if it has no best action)
+                        bool solved = true;
+                        if (best_action != nullptr) {
+                            for (const auto& ns : best_action->outcomes) {
+                                solved = solved && std::get<2>(ns)->solved;
+                            }
                         }
+                        fs->best_value = best_value;
+                        fs->best_action = best_action;
+                        fs->solved = solved;
                         // update new frontier
                         _execution_policy.protect([&fs, &new_frontier]{
                             for (const auto& ps : fs->parents) {
@@ -150,13 +162,9 @@ public :
                         });
                     });
                     frontier = new_frontier;
-                    if (_detect_cycles) {
-                        for (const auto& ps : new_frontier) {
-                            if (explored_states->find(ps) != explored_states->end()) {
-                                throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + ps->state.print() + "]");
-                            }
-                            explored_states->insert(ps);
-                        }
+                    // without cycles, no chain of parents is longer than the number of nodes
+                    if (_detect_cycles && !frontier.empty() && (++nb_backups > _graph.size())) {
+                        throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + (*frontier.begin())->state.print() + "]");
                     }
                 }
 
-- 
2.43.0


From a4e8051ec3f9c9c8042befb81c1b4a28f2cec27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 041/146] fix: ILAO* tests convergence on the states its value
 iteration updated, without losing concurrent updates

---
 cpp/src/hub/solver/ilaostar.hh | 89 +++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 29 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 10a8a64..762be19 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -9,6 +9,7 @@
 #ifndef SKDECIDE_ILAOSTAR_HH
 #define SKDECIDE_ILAOSTAR_HH
 
+#include <algorithm>
 #include <functional>
 #include <memory>
 #include <unordered_set>
@@ -68,8 +69,15 @@ public :
                 root_node.best_value = _heuristic(_domain, s);
             }
 
-            if (root_node.solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
+                return;
+            }
+
+            if (_goal_checker(_domain, s)) {
                 if (_debug_logs) spdlog::debug("Found goal state " + s.print());
+                root_node.goal = true;
+                root_node.solved = true;
+                root_node.best_value = 0.0;
                 return;
             }
 
@@ -82,19 +90,26 @@ public :
                 // compute best solution graph for value iteration
                 compute_best_solution_graph(root_node);
                 // perform value iteration on the best solution graph
+                std::unordered_set<StateNode*> updated_graph(_best_solution_graph);
                 value_iteration();
                 // recompute best solution graph after value iteration updates
                 compute_best_solution_graph(root_node);
                 // compute unexpanded tip node reachability from every state in best policy
                 compute_reachability();
-                // compute mean first passage time to goal states from states in best policy
-                compute_mfpt();
-                // update solved bits; note that Hansen and Zilberstein compute only the initial
-                // state solve status but we do it for every state of the best policy (thus the
-                // computation above of tip node reachability for every state of the best policy)
-                // in order to prematurely identify solved states and speed-up the search
-                update_solved_bits();
-                
+
+                // convergence can be tested only if the best policy did not change to one that reaches
+                // unexpanded tip nodes or states whose values have not been updated by value iteration
+                if (!root_node.reach_tip_node &&
+                    std::all_of(_best_solution_graph.begin(), _best_solution_graph.end(), [&updated_graph](StateNode* bs){
+                        return updated_graph.find(bs) != updated_graph.end();
+                    })) {
+                    // compute mean first passage time to goal states from states in best policy
+                    compute_mfpt();
+                    // update solved bits; note that Hansen and Zilberstein compute only the initial
+                    // state solve status but we do it for every state of the best policy
+                    update_solved_bits();
+                }
+
                 if (_debug_logs) {
                     std::string graph_str = "{";
                     for (const auto& bs : _best_solution_graph) {
@@ -215,10 +230,12 @@ private :
         
         std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &s](auto a){
             if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-            _execution_policy.protect([&s, &a]{
+            ActionNode* action_node = nullptr;
+            _execution_policy.protect([&s, &a, &action_node]{
                 s.actions.push_back(std::make_unique<ActionNode>(a));
+                action_node = s.actions.back().get();
             });
-            ActionNode& an = *(s.actions.back());
+            ActionNode& an = *action_node;
             auto next_states = _domain.get_next_state_distribution(s.state, a).get_values();
 
             for (auto ns : next_states) {
@@ -344,12 +361,15 @@ private :
 
     void value_iteration() {
         if (_debug_logs) spdlog::debug("Running value iteration");
-        atomic_double residual = std::numeric_limits<double>::infinity();
+        double residual = std::numeric_limits<double>::infinity();
 
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update(*s));
+                double state_residual = update(*s);
+                _execution_policy.protect([&residual, &state_residual]{
+                    residual = std::max(residual, state_residual);
+                });
             });
         }
 
@@ -379,7 +399,9 @@ private :
         while (changes) {
             changes = false;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &changes](auto& s){
-                changes = update_reachability(*s) || changes;
+                if (update_reachability(*s)) {
+                    changes = true;
+                }
             });
         }
 
@@ -410,11 +432,14 @@ private :
         // precision should be acceptable.
 
         if (_debug_logs) spdlog::debug("Computing mean first passage times");
-        atomic_double residual = std::numeric_limits<double>::infinity();
+        double residual = std::numeric_limits<double>::infinity();
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update_mfpt(*s));
+                double state_residual = update_mfpt(*s);
+                _execution_policy.protect([&residual, &state_residual]{
+                    residual = std::max(residual, state_residual);
+                });
             });
         }
         if (_debug_logs) spdlog::debug("Mean first passage time computation converged with residual " +
@@ -422,23 +447,29 @@ private :
     }
 
     void update_solved_bits() {
-        // check if unexpanded tip nodes are reached by the best policy
-        // and the error bound falls below epsilon
+        // check if the error bound falls below epsilon for all the states of the best policy
         // (note: Hansen and Zilberstein seem to suggest that the convergence
-        //  test should be a disjunction but in this case the mean first
-        //  passage time computed during the evaluatiopn of the error
-        //  bound would be erroneous if the best solution graph can
-        //  can reach an unexpanded tip node)
+        //  test should be a disjunction with the reachability of unexpanded tip
+        //  nodes but in this case the mean first passage time computed during the
+        //  evaluation of the error bound would be erroneous if the best solution
+        //  graph can reach an unexpanded tip node; and a state of the best policy
+        //  is not solved if one of the states reached from it can still change its
+        //  best action)
         if (_debug_logs) spdlog::debug("Updating solved bits");
-        std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this](auto& s){
-            s->solved = !(s->reach_tip_node) &&
-                        (((s->first_passage_time) * (s->residual)) < _epsilon);
-            if (_debug_logs) spdlog::debug("Unexpanded tip node reachability and error bound of state " +
-                                            s->state.print() + " : " + StringConverter::from(s->reach_tip_node) + " ; " +
+        bool converged = true;
+        for (const auto& s : _best_solution_graph) {
+            double error_bound = (s->first_passage_time) * (s->residual);
+            if (_debug_logs) spdlog::debug("Error bound of state " + s->state.print() + " : " +
                                             StringConverter::from(s->first_passage_time) + " * " +
                                             StringConverter::from(s->residual) + " = " +
-                                            StringConverter::from((s->first_passage_time) * (s->residual)));
-        });
+                                            StringConverter::from(error_bound));
+            converged = converged && (error_bound < _epsilon);
+        }
+        if (converged) {
+            for (const auto& s : _best_solution_graph) {
+                s->solved = true;
+            }
+        }
     }
 };
 
-- 
2.43.0


From 3f92532df987f0df61c7520ddb93868496ebff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 042/146] fix: LRTDP initializes, labels and removes nodes
 safely, and handles dead ends and goals

---
 cpp/src/hub/solver/lrtdp.hh | 149 ++++++++++++++++++++++++++----------
 1 file changed, 108 insertions(+), 41 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index a093083..241d2a3 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -8,8 +8,10 @@
 #ifndef SKDECIDE_LRTDP_HH
 #define SKDECIDE_LRTDP_HH
 
+#include <algorithm>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_set>
 #include <stack>
 #include <list>
@@ -67,6 +69,7 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr;
     }
 
     // solves from state s using heuristic function h
@@ -82,12 +85,19 @@ public :
                 root_node.best_value = _heuristic(_domain, s, nullptr);
             }
 
-            if (root_node.solved || _goal_checker(_domain, s, nullptr)) { // problem already solved from this state (was present in _graph and already solved)
-                if (_debug_logs) spdlog::debug("Found goal state " + s.print());
+            _nb_rollouts = 0;
+
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
                 return;
             }
 
-            _nb_rollouts = 0;
+            if (_goal_checker(_domain, s, nullptr)) {
+                if (_debug_logs) spdlog::debug("Found goal state " + s.print());
+                root_node.goal = true;
+                root_node.solved = true;
+                root_node.best_value = 0.0;
+                return;
+            }
             boost::integer_range<std::size_t> parallel_rollouts(0, _domain.get_parallel_capacity());
 
             std::for_each(ExecutionPolicy::policy, parallel_rollouts.begin(), parallel_rollouts.end(),
@@ -138,10 +148,9 @@ public :
                     spdlog::debug("Best action's outcomes:\n" + str);
                 }
             if (_online_node_garbage && _current_state) {
-                std::unordered_set<StateNode*> root_subgraph, child_subgraph;
-                compute_reachable_subgraph(_current_state, root_subgraph);
+                std::unordered_set<StateNode*> child_subgraph;
                 compute_reachable_subgraph(const_cast<StateNode*>(&(*si)), child_subgraph); // we won't change the real key (StateNode::state) so we are safe
-                remove_subgraph(root_subgraph, child_subgraph);
+                remove_all_but_subgraph(child_subgraph);
             }
             _current_state = const_cast<StateNode*>(&(*si)); // we won't change the real key (StateNode::state) so we are safe
             return si->best_action->action;
@@ -257,28 +266,37 @@ private :
             std::vector<double> outcome_weights;
 
             for (auto ns : next_states) {
-                std::pair<typename Graph::iterator, bool> i;
-                _execution_policy.protect([this, &i, &ns]{
-                    i = _graph.emplace(ns.state());
+                typename Graph::iterator i;
+                bool new_node = false;
+                _execution_policy.protect([this, &i, &new_node, &ns]{
+                    i = _graph.find(ns.state());
+                    new_node = (i == _graph.end());
                 });
-                StateNode& next_node = const_cast<StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                if (new_node) {
+                    // other threads must not see the node before it is initialized
+                    bool goal = _goal_checker(_domain, ns.state(), thread_id);
+                    double value = goal ? 0.0 : _heuristic(_domain, ns.state(), thread_id);
+                    _execution_policy.protect([this, &i, &ns, &goal, &value]{
+                        auto r = _graph.emplace(ns.state());
+                        i = r.first;
+                        if (r.second) { // not inserted by another thread in the meantime
+                            StateNode& n = const_cast<StateNode&>(*i); // we won't change the real key (StateNode::state) so we are safe
+                            n.goal = goal;
+                            n.solved = goal;
+                            n.best_value = value;
+                            if (_debug_logs) {
+                                if (goal) spdlog::debug("Found goal state " + n.state.print() + ExecutionPolicy::print_thread());
+                                else spdlog::debug("New state " + n.state.print() +
+                                                   " with heuristic value " + StringConverter::from(value) +
+                                                   ExecutionPolicy::print_thread());
+                            }
+                        }
+                    });
+                }
+                StateNode& next_node = const_cast<StateNode&>(*i); // we won't change the real key (StateNode::state) so we are safe
                 an.outcomes.push_back(std::make_tuple(ns.probability(), _domain.get_transition_cost(s->state, a, next_node.state, thread_id), &next_node));
                 outcome_weights.push_back(std::get<0>(an.outcomes.back()));
                 if (_debug_logs) spdlog::debug("Current next state expansion: " + next_node.state.print() + ExecutionPolicy::print_thread());
-
-                if (i.second) { // new node
-                    if (_goal_checker(_domain, next_node.state, thread_id)) {
-                        if (_debug_logs) spdlog::debug("Found goal state " + next_node.state.print() + ExecutionPolicy::print_thread());
-                        next_node.goal = true;
-                        next_node.solved = true;
-                        next_node.best_value = 0.0;
-                    } else {
-                        next_node.best_value = _heuristic(_domain, next_node.state, thread_id);
-                        if (_debug_logs) spdlog::debug("New state " + next_node.state.print() +
-                                                       " with heuristic value " + StringConverter::from(next_node.best_value) +
-                                                       ExecutionPolicy::print_thread());
-                    }
-                }
             }
 
             an.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
@@ -313,7 +331,7 @@ private :
 
         if (_debug_logs) {
             spdlog::debug("Greedy action of state " + s->state.print() + ": " +
-                            best_action->action.print() + " with value " + StringConverter::from(best_value) +
+                            (best_action ? best_action->action.print() : std::string("none")) + " with value " + StringConverter::from(best_value) +
                             ExecutionPolicy::print_thread());
         }
 
@@ -324,7 +342,8 @@ private :
         if (_debug_logs) spdlog::debug("Updating state " + s->state.print() +
                                        ExecutionPolicy::print_thread());
         s->best_action = greedy_action(s, thread_id);
-        s->best_value = (double) s->best_action->value;
+        // no goal can be reached from a state without best action
+        s->best_value = s->best_action ? (double) s->best_action->value : std::numeric_limits<double>::infinity();
     }
 
     StateNode* pick_next_state(ActionNode* a) {
@@ -340,7 +359,8 @@ private :
 
     double residual(StateNode* s, const std::size_t* thread_id) {
         s->best_action = greedy_action(s, thread_id);
-        double res = std::fabs(s->best_value - s->best_action->value);
+        double value = s->best_action ? (double) s->best_action->value : std::numeric_limits<double>::infinity();
+        double res = (s->best_value == value) ? 0.0 : std::fabs(s->best_value - value);
         if (_debug_logs) spdlog::debug("State " + s->state.print() +
                                        " has residual " + StringConverter::from(res) +
                                        ExecutionPolicy::print_thread());
@@ -378,12 +398,19 @@ private :
             visited.insert(cs);
 
             _execution_policy.protect([this, &cs, &rv, &open, &visited, &thread_id](){
+                if (cs->solved) { // by another thread in the meantime
+                    return;
+                }
+
                 if (residual(cs, thread_id) > _epsilon) {
                     rv = false;
                     return;
                 }
 
                 ActionNode* a = cs->best_action; // best action updated when calling residual(cs, thread_id)
+                if (a == nullptr) { // dead end
+                    return;
+                }
                 for (const auto& o : a->outcomes) {
                     StateNode* ns = std::get<2>(o);
                     if (!(ns->solved) && (visited.find(ns) == visited.end())) {
@@ -393,19 +420,43 @@ private :
             }, cs->mutex);
         }
 
-        auto e_time = elapsed_time(start_time);
-        rv = rv && ((e_time < _time_budget) ||
-                    ((e_time >= _time_budget) && open.empty()));
+        // states still open because of the time budget or of the maximum depth have not been checked
+        rv = rv && open.empty();
 
         if (rv) {
-            while (!closed.empty()) {
-                closed.top()->solved = true;
-                closed.pop();
+            // other threads could have updated some states since they were checked above,
+            // so check them again while none of them can be updated before labeling them
+            // (always locking them in the same order prevents deadlocks)
+            std::vector<StateNode*> checked(visited.begin(), visited.end());
+            std::sort(checked.begin(), checked.end(), std::less<StateNode*>());
+            std::vector<std::unique_lock<typename ExecutionPolicy::Mutex>> locks;
+            for (auto& cs : checked) {
+                locks.emplace_back(cs->mutex);
             }
-        } else {
+            for (auto& cs : checked) {
+                if (!(cs->solved)) {
+                    rv = rv && (residual(cs, thread_id) <= _epsilon);
+                    if (cs->best_action) {
+                        for (const auto& o : cs->best_action->outcomes) {
+                            StateNode* ns = std::get<2>(o);
+                            rv = rv && (ns->solved || (visited.find(ns) != visited.end()));
+                        }
+                    }
+                }
+            }
+            if (rv) {
+                for (auto& cs : checked) {
+                    cs->solved = true;
+                }
+            }
+        }
+
+        if (!rv) {
             while (!closed.empty() && (elapsed_time(start_time) < _time_budget)) {
                 _execution_policy.protect([this, &closed, &thread_id](){
-                    update(closed.top(), thread_id);
+                    if (!(closed.top()->solved)) {
+                        update(closed.top(), thread_id);
+                    }
                 }, closed.top()->mutex);
                 closed.pop();
             }
@@ -428,23 +479,36 @@ private :
         StateNode* cs = s;
         std::size_t depth = 0;
         bool found_goal = false;
+        bool dead_end = false;
 
         while ((!_use_labels || !(cs->solved)) &&
                !found_goal &&
+               !dead_end &&
                (elapsed_time(start_time) < _time_budget) &&
                (depth < _max_depth)) {
             depth++;
             visited.push(cs);
-            _execution_policy.protect([this, &cs, &found_goal, &thread_id](){
+            StateNode* next_state = cs;
+            _execution_policy.protect([this, &cs, &next_state, &found_goal, &dead_end, &thread_id](){
                 if (cs->goal) {
                     if (_debug_logs) spdlog::debug("Found goal state " + cs->state.print() +
                                                    ExecutionPolicy::print_thread());
                     found_goal = true;
+                    return;
+                }
+
+                if (_use_labels && cs->solved) { // by another thread in the meantime
+                    return;
                 }
 
                 update(cs, thread_id);
-                cs = pick_next_state(cs->best_action);
+                if (cs->best_action == nullptr) {
+                    dead_end = true;
+                    return;
+                }
+                next_state = pick_next_state(cs->best_action);
             }, cs->mutex);
+            cs = next_state;
         }
 
         while (_use_labels && !visited.empty() && (elapsed_time(start_time) < _time_budget)) {
@@ -477,10 +541,13 @@ private :
         }
     }
 
-    void remove_subgraph(std::unordered_set<StateNode*>& root_subgraph, std::unordered_set<StateNode*>& child_subgraph) {
-        for (auto& n : root_subgraph) {
-            if (child_subgraph.find(n) == child_subgraph.end()) {
-                _graph.erase(StateNode(n->state));
+    // no node of a subgraph closed under reachability has an outcome which is removed
+    void remove_all_but_subgraph(const std::unordered_set<StateNode*>& subgraph) {
+        for (auto i = _graph.begin() ; i != _graph.end() ; ) {
+            if (subgraph.find(const_cast<StateNode*>(&(*i))) == subgraph.end()) {
+                i = _graph.erase(i);
+            } else {
+                ++i;
             }
         }
     }
-- 
2.43.0


From 55c2ccf1e54ed29c25d78a998d1ba582d42b6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 043/146] fix: BFWS does not mix the plans of several searches
 or threads, and knows the value of goals

---
 cpp/src/hub/solver/bfws.hh | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/cpp/src/hub/solver/bfws.hh b/cpp/src/hub/solver/bfws.hh
index 2e47b53..c902965 100644
--- a/cpp/src/hub/solver/bfws.hh
+++ b/cpp/src/hub/solver/bfws.hh
@@ -133,10 +133,19 @@ public :
 
             // Create the root node containing the given state s
             auto si = _graph.emplace(Node(s, _domain, _state_features));
-            if (si.first->solved || _termination_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
                 return;
             }
-            Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            if (_termination_checker(_domain, s)) {
+                root_node.fscore = 0;
+                return;
+            }
+
+            // Forget the costs of the paths found by previous searches, which started from other states
+            for (const auto& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity();
+            }
             root_node.gscore = 0;
             root_node.heuristic = _heuristic(_domain, root_node.state);
             root_node.novelty = novelty(heuristic_features_map, root_node.heuristic, root_node);
@@ -170,7 +179,7 @@ public :
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                         parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                         parent_node->solved = true;
                         current_node = parent_node;
@@ -204,15 +213,17 @@ public :
                     double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                     double tentative_gscore = best_tip_node->gscore + transition_cost;
 
-                    if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                        if (_debug_logs) spdlog::debug("New gscore: " +
-                                                       StringConverter::from(best_tip_node->gscore) + "+" +
-                                                       StringConverter::from(transition_cost) + "=" +
-                                                       StringConverter::from(tentative_gscore) +
-                                                       ExecutionPolicy::print_thread());
-                        neighbor.gscore = tentative_gscore;
-                        neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                    }
+                    _execution_policy.protect([this, &best_tip_node, &a, &neighbor, &transition_cost, &tentative_gscore]{
+                        if (tentative_gscore < neighbor.gscore) {
+                            if (_debug_logs) spdlog::debug("New gscore: " +
+                                                           StringConverter::from(best_tip_node->gscore) + "+" +
+                                                           StringConverter::from(transition_cost) + "=" +
+                                                           StringConverter::from(tentative_gscore) +
+                                                           ExecutionPolicy::print_thread());
+                            neighbor.gscore = tentative_gscore;
+                            neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                        }
+                    });
 
                     neighbor.heuristic = _heuristic(_domain, neighbor.state);
                     if (_debug_logs) spdlog::debug("Heuristic: " + StringConverter::from(neighbor.heuristic) +
@@ -277,7 +288,7 @@ private :
         double heuristic;
         double gscore;
         double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s, Domain& d,
@@ -286,7 +297,6 @@ private :
               novelty(std::numeric_limits<std::size_t>::max()),
               gscore(std::numeric_limits<double>::infinity()),
               fscore(std::numeric_limits<double>::infinity()),
-              best_action(nullptr),
               solved(false) {
             features = state_features(d, s);
         }
-- 
2.43.0


From 6b1b0fe570e80b2569a7ac1b88aa07767ceda2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 044/146] fix: IW does not mix the plans of several searches or
 threads, and stops when its time budget is over

---
 cpp/src/hub/solver/iw.hh | 76 ++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/cpp/src/hub/solver/iw.hh b/cpp/src/hub/solver/iw.hh
index 55cdffd..589eae0 100644
--- a/cpp/src/hub/solver/iw.hh
+++ b/cpp/src/hub/solver/iw.hh
@@ -230,7 +230,7 @@ private :
         double fscore; // not in A*'s meaning but rather to store cost-to-go once a solution is found
         std::size_t novelty;
         std::size_t depth;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool pruned; // true if pruned by the novelty test (used only to report nb of pruned states)
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
@@ -241,7 +241,6 @@ private :
               fscore(std::numeric_limits<double>::infinity()),
               novelty(std::numeric_limits<std::size_t>::max()),
               depth(std::numeric_limits<std::size_t>::max()),
-              best_action(nullptr),
               pruned(false),
               solved(false) {
             features = state_features(d, s);
@@ -288,12 +287,22 @@ private :
 
                 // Create the root node containing the given state s
                 auto si = _graph.emplace(Node(s, _domain, _state_features));
-                if (si.first->solved || _domain.is_goal(s)) { // problem already solved from this state (was present in _graph and already solved)
+                Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+                if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
+                    return std::make_pair(true, false);
+                } else if (_domain.is_goal(s)) {
+                    root_node.fscore = 0;
                     return std::make_pair(true, false);
                 } else if (_domain.is_terminal(s)) { // dead-end state
                     return std::make_pair(false, false);
                 }
-                Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+
+                // Forget the paths found by previous searches, which had other widths or started from other states
+                for (const auto& n : _graph) {
+                    Node& node = const_cast<Node&>(n); // we won't change the real key (Node::state) so we are safe
+                    node.gscore = std::numeric_limits<double>::infinity();
+                    node.depth = std::numeric_limits<std::size_t>::max();
+                }
                 root_node.depth = 0;
                 root_node.gscore = 0;
                 bool states_pruned = false;
@@ -314,7 +323,17 @@ private :
                 TupleVector feature_tuples(_width);
                 novelty(feature_tuples, root_node); // initialize feature_tuples with the root node's bits
 
+                // Nodes on the path of the best plan found so far by this search
+                std::vector<Node*> plan_nodes;
+
                 while (!open_queue.empty()) {
+                    if (found_goal) { // no more time for finding better plans?
+                        auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now() - start_time).count();
+                        if (static_cast<std::size_t>(duration) >= _time_budget) {
+                            break;
+                        }
+                    }
+
                     auto best_tip_node = open_queue.top();
                     open_queue.pop();
 
@@ -334,7 +353,7 @@ private :
 
                     if (_domain.is_goal(best_tip_node->state) || best_tip_node->solved) {
                         auto current_node = best_tip_node;
-                        double tentative_fscore = 0;
+                        double tentative_fscore = (best_tip_node->solved) ? best_tip_node->fscore : 0;
 
                         while (current_node != &root_node) {
                             Node* parent_node = std::get<0>(current_node->best_parent);
@@ -347,9 +366,18 @@ private :
                             if (!(best_tip_node->solved)) { current_node->fscore = 0; } // goal state
                             best_tip_node->solved = true;
 
+                            // Forget the previous worse plan, whose costs would become wrong if it shares nodes with the new one
+                            for (auto& n : plan_nodes) {
+                                n->best_action.reset();
+                                n->fscore = std::numeric_limits<double>::infinity();
+                                n->solved = false;
+                            }
+                            plan_nodes.clear();
+
                             while (current_node != &root_node) {
                                 Node* parent_node = std::get<0>(current_node->best_parent);
-                                parent_node->best_action = &std::get<1>(current_node->best_parent);
+                                plan_nodes.push_back(parent_node);
+                                parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                                 parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                                 parent_node->solved = true;
                                 current_node = parent_node;
@@ -397,24 +425,26 @@ private :
                         double tentative_gscore = best_tip_node->gscore + transition_cost;
                         std::size_t tentative_depth = best_tip_node->depth + 1;
 
-                        if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                            if (_debug_logs) spdlog::debug("New gscore: " +
-                                                           StringConverter::from(best_tip_node->gscore) + "+" +
-                                                           StringConverter::from(transition_cost) + "=" +
-                                                           StringConverter::from(tentative_gscore) +
-                                                           ExecutionPolicy::print_thread());
-                            neighbor.gscore = tentative_gscore;
-                            neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        }
+                        _execution_policy.protect([this, &best_tip_node, &a, &neighbor, &transition_cost, &tentative_gscore, &tentative_depth]{
+                            if (tentative_gscore < neighbor.gscore) {
+                                if (_debug_logs) spdlog::debug("New gscore: " +
+                                                               StringConverter::from(best_tip_node->gscore) + "+" +
+                                                               StringConverter::from(transition_cost) + "=" +
+                                                               StringConverter::from(tentative_gscore) +
+                                                               ExecutionPolicy::print_thread());
+                                neighbor.gscore = tentative_gscore;
+                                neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                            }
 
-                        if ((i.second) || (tentative_depth < neighbor.depth)) {
-                            if (_debug_logs) spdlog::debug("New depth: " +
-                                                           StringConverter::from(best_tip_node->depth) + "+" +
-                                                           StringConverter::from(1) + "=" +
-                                                           StringConverter::from(tentative_depth) +
-                                                           ExecutionPolicy::print_thread());
-                            neighbor.depth = tentative_depth;
-                        }
+                            if (tentative_depth < neighbor.depth) {
+                                if (_debug_logs) spdlog::debug("New depth: " +
+                                                               StringConverter::from(best_tip_node->depth) + "+" +
+                                                               StringConverter::from(1) + "=" +
+                                                               StringConverter::from(tentative_depth) +
+                                                               ExecutionPolicy::print_thread());
+                                neighbor.depth = tentative_depth;
+                            }
+                        });
 
                         _execution_policy.protect([this, &feature_tuples, &open_queue, &neighbor, &states_pruned]{
                             if (this->novelty(feature_tuples, neighbor) > _width) {
-- 
2.43.0


From 3b40cffc0c1779abe91d87cb657756ff8d17a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 045/146] fix: a solver or domain which is auto-cast again is
 not cast twice

solve_with with the same solver a second time, or a domain factory which
returns the same object twice, wrapped every method in another cast.
---
 skdecide/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 9036e24..df0f4e8 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -645,13 +645,15 @@ def autocast(func: Callable, src: object, dst: object, hint_obj: str = 'D') -> C
         result = func(**cast_args_dict)
         return cast(result, src_hintrees['return'], dst_hintrees['return']) if 'return' in cast_args else result
 
+    wrapper_autocast._autocast_from = func
     return wrapper_autocast if len(cast_args) > 0 else func
 
 
 def autocast_all(obj: object, src: object, dst: object):
     for name, f in inspect.getmembers(obj, lambda x: inspect.isfunction(x) or inspect.ismethod(x)):
         if getattr(f, '_autocastable', None):
-            setattr(obj, name, autocast(f, src, dst))
+            # an object which was auto-cast before is cast anew (not on top of its previous cast)
+            setattr(obj, name, autocast(getattr(f, '_autocast_from', f), src, dst))
 
 
 # autocastable (function decorator)
-- 
2.43.0


From d80d7885e8c082f79e74457ba3352789dccffaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 046/146] fix: LazyAstar plans from a goal, and forgets its
 earlier plans

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..9e58d0e 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,14 +85,16 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
                     if parent is not None:
                         path.insert(0, (parent, label))
                     node = parent
+                estim_total = dist
                 break  # return path, dist, enqueued[curnode][0], len(enqueued)
             if curnode in explored:
                 continue
@@ -115,6 +117,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
                 enqueued[neighbor] = ncost, h
                 push(queue, (ncost + (self._weight * h), next(c), neighbor, ncost, curnode, lbl))
         self._policy = {}
+        self._values = {}
+        self._plan = []
         for node, label in path:
             self._policy[node] = label['action'] if label is not None else None
             self._values[node] = estim_total - enqueued[node][0]
-- 
2.43.0


From 6f121e78c0612278900d1ba30a2afb1b4d3a716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 047/146] fix: LRTAstar may pass a state twice, knows where its
 policy is defined, and trusts no trial which was cut

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..b4bd32f 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
@@ -87,7 +88,6 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         depth = 0
         dead_end = False
         cumulated_reward = 0.
-        current_roll = [current_state]
         current_roll_and_action = []
         self.heuristic_changed = False
         while (not self._domain.is_goal(current_state)) and (depth < self.max_depth):
@@ -100,8 +100,6 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
                 r = self._domain.get_transition_value(current_state,
                                                       action,
                                                       st).cost
-                if st in current_roll:
-                    continue
                 if st not in self.values:
                     self.values[st] = self._heuristic(self._domain, st)
                 if r + self.values[st] < best_estimated_cost:
@@ -124,8 +122,10 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
                                             {"action": next_action}))
             current_state = next_state
             depth += 1
-            current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
-        cumulated_reward += self.values[current_state]
+        # a trial which was cut did not find a way to a goal
+        dead_end = dead_end or not self._domain.is_goal(current_state)
+        if current_state in self.values:
+            cumulated_reward += self.values[current_state]
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 49e31dfdc82377d8d8249319957c3f2830e78620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 048/146] fix: SimpleGreedy evaluates the actions of domains
 whose values do not depend on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From 91a8a32703f08fb0a884a3816bfe228b610dfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 049/146] fix: local searches know the sense of the objective,
 and keep the solutions they met intact

---
 .../generic_tools/ls/hill_climber.py               | 12 +++++++++---
 .../generic_tools/ls/simulated_annealing.py        | 14 +++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..be22d85 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,18 +39,21 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
@@ -70,20 +73,21 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                # taking the move back may modify the new solution in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
@@ -125,6 +129,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
@@ -132,6 +137,7 @@ class HillClimberPareto(HillClimber):
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..3be4e4d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,15 +55,18 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             local_improvement = False
@@ -86,9 +89,16 @@ class SimulatedAnnealing:
             else:
                 r = random.random()
                 fac = 1 if self.mode_optim == ModeOptim.MAXIMIZATION else -1
-                p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
+                if self.temperature_handler.temperature > 0:
+                    p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
+                else:
+                    # the temperature may underflow
+                    p = 1 if objective == cur_objective else 0
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                # taking the move back may modify the new solution in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -98,8 +108,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 885cc77a7c246cf0880c4b835f7e32dc3895f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 050/146] fix: solutions can be added to an empty result
 storage

---
 .../generic_tools/result_storage/result_storage.py          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..205ba1d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,6 +53,12 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if self.size_heap == 0:
+            # first solution of a storage which was empty
+            self.min = fitness
+            self.max = fitness
+            if self.best_solution is None:
+                self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From a587afd490ebf4c94e3214aa717d6e690141a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 051/146] fix: large neighbourhood searches survive iterations
 without solutions, count every one without improvement, and leave no
 constraints

---
 .../generic_tools/lns_cp.py                   |  6 +-
 .../generic_tools/lns_mip.py                  | 82 ++++++++++---------
 2 files changed, 45 insertions(+), 43 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py b/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
index bcae51f..86ce782 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
@@ -74,12 +74,12 @@ class LNS_CP(SolverDO):
             best_objective = float('inf') if sense==ModeOptim.MINIMIZATION else -float("inf")
             best_solution = None
             constraint_iterable = {"empty": []}
-            store_lns = None
+            store_lns = ResultStorage(list_solution_fits=[], best_solution=None, mode_optim=sense)
         for iteration in range(nb_iteration_lns):
             print('Starting iteration n°', iteration,
                   " current objective ", best_objective)
             with self.cp_solver.instance.branch() as child:
-                if iteration == 0 and not skip_first_iteration or iteration >= 1:
+                if len(store_lns.list_solution_fits) > 0:
                     constraint_iterable = self.constraint_handler \
                         .adding_constraint_from_results_store(cp_solver=self.cp_solver,
                                                               child_instance=child,
@@ -120,8 +120,6 @@ class LNS_CP(SolverDO):
                             best_objective = fit
                         elif sense == ModeOptim.MINIMIZATION:
                             current_nb_iteration_no_improvement += 1
-                        if skip_first_iteration and iteration == 0:
-                            store_lns = result_store
                         for s, f in result_store.list_solution_fits:
                             store_lns.add_solution(solution=s, fitness=f)
                         print("Satisfy : ", self.problem.satisfy(best_solution))
diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..d4e746c 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -81,58 +81,62 @@ class LNS_MILP(SolverDO):
         if not skip_first_iteration:
             store_lns = self.initial_solution_provider.get_starting_solution()
             init_solution, objective = store_lns.get_best_solution_fit()
-            constraint_iterable = self.constraint_handler\
-                .adding_constraint_from_results_store(milp_solver=self.milp_solver,
-                                                      result_storage=store_lns)
+            constraint_iterable = None
+            if nb_iteration_lns > 0:
+                constraint_iterable = self.constraint_handler\
+                    .adding_constraint_from_results_store(milp_solver=self.milp_solver,
+                                                          result_storage=store_lns)
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float("inf")
             best_solution = None
-            constraint_iterable = {"empty": []}
-            store_lns = None
+            constraint_iterable = None
+            store_lns = ResultStorage(list_solution_fits=[], best_solution=None, mode_optim=sense)
         for iteration in range(nb_iteration_lns):
             result_store = self.milp_solver.solve(parameters_milp=parameters_milp,
                                                   **args)
-            print("Solved !!!")
-            bsol, fit = result_store.get_best_solution_fit()
-            print("Fitness = ", fit)
-            print("Post Process..")
-            result_store = self.post_process_solution.build_other_solution(result_store)
-            bsol, fit = result_store.get_best_solution_fit()
-            print("After postpro = ", fit)
-            if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
-                if fit > best_objective:
-                    current_nb_iteration_no_improvement = 0
-                else:
-                    current_nb_iteration_no_improvement += 1
-                best_solution = bsol
-                best_objective = fit
-            if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
-                if fit < best_objective:
-                    current_nb_iteration_no_improvement = 0
-                else:
-                    current_nb_iteration_no_improvement += 1
-                best_solution = bsol
-                best_objective = fit
-            if skip_first_iteration and iteration == 0:
-                store_lns = result_store
-            for s, f in result_store.list_solution_fits:
-                store_lns.add_solution(solution=s, fitness=f)
-            print('Removing constraint:')
-            self.constraint_handler.remove_constraints_from_previous_iteration(milp_solver=self.milp_solver,
-                                                                               previous_constraints=constraint_iterable)
-            print('Adding constraint:')
-            constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(milp_solver=
-                                                                                               self.milp_solver,
-                                                                                               result_storage=
-                                                                                               result_store)
+            current_nb_iteration_no_improvement += 1
+            if len(result_store.list_solution_fits) > 0:
+                print("Solved !!!")
+                bsol, fit = result_store.get_best_solution_fit()
+                print("Fitness = ", fit)
+                print("Post Process..")
+                result_store = self.post_process_solution.build_other_solution(result_store)
+                bsol, fit = result_store.get_best_solution_fit()
+                print("After postpro = ", fit)
+                if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
+                    if fit > best_objective:
+                        current_nb_iteration_no_improvement = 0
+                    best_solution = bsol
+                    best_objective = fit
+                if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
+                    if fit < best_objective:
+                        current_nb_iteration_no_improvement = 0
+                    best_solution = bsol
+                    best_objective = fit
+                for s, f in result_store.list_solution_fits:
+                    store_lns.add_solution(solution=s, fitness=f)
+            else:
+                # nothing found in this neighborhood
+                result_store = store_lns
+            if constraint_iterable is not None:
+                print('Removing constraint:')
+                self.constraint_handler.remove_constraints_from_previous_iteration(milp_solver=self.milp_solver,
+                                                                                   previous_constraints=constraint_iterable)
+                constraint_iterable = None
             if time.time()-deb_time > max_time_seconds:
                 print("Finish LNS with time limit reached")
                 break
             if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
                 print("Finish LNS with maximum no improvement iteration ")
                 break
+            if iteration < nb_iteration_lns - 1 and len(result_store.list_solution_fits) > 0:
+                print('Adding constraint:')
+                constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(milp_solver=
+                                                                                                   self.milp_solver,
+                                                                                                   result_storage=
+                                                                                                   result_store)
         return store_lns
 
 
-- 
2.43.0


From 78c072d92e3c77171f82ced9a034ecf0b8e5a9fd Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 052/146] fix: MCTS expands, removes and clears nodes safely,
 and stops at the end of episodes

---
 cpp/src/hub/solver/mcts.hh | 236 ++++++++++++++++++++++---------------
 1 file changed, 144 insertions(+), 92 deletions(-)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 6a1f2ea..a4142d3 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -70,6 +70,16 @@ struct StepTransitionMode {
 
         return n;
     }
+
+    // The environment must follow the tree policy to the given known outcome
+    typename Tsolver::StateNode* move_to_node(
+            Tsolver& solver,
+            const std::size_t* thread_id,
+            typename Tsolver::ActionNode& action,
+            typename Tsolver::StateNode* node) const {
+        typename Tsolver::StateNode* n = random_next_node(solver, thread_id, action);
+        return (n != nullptr) ? n : node;
+    }
 };
 
 
@@ -100,6 +110,14 @@ struct SampleTransitionMode {
 
         return n;
     }
+
+    typename Tsolver::StateNode* move_to_node(
+            [[maybe_unused]] Tsolver& solver,
+            [[maybe_unused]] const std::size_t* thread_id,
+            [[maybe_unused]] typename Tsolver::ActionNode& action,
+            typename Tsolver::StateNode* node) const {
+        return node;
+    }
 };
 
 
@@ -130,6 +148,14 @@ struct DistributionTransitionMode {
 
         return n;
     }
+
+    typename Tsolver::StateNode* move_to_node(
+            [[maybe_unused]] Tsolver& solver,
+            [[maybe_unused]] const std::size_t* thread_id,
+            [[maybe_unused]] typename Tsolver::ActionNode& action,
+            typename Tsolver::StateNode* node) const {
+        return node;
+    }
 };
 
 
@@ -268,13 +294,14 @@ public :
                         untried_outcomes.push_back(std::make_pair(&ca, nullptr));
                         weights.push_back(1.0);
                     } else {
-                        // Check if there are next states that have been never visited
+                        // Check if there are next states that have been never visited, at least from this action
+                        // (whose visits are not backpropagated if an exception interrupted its first one)
                         std::vector<double> probs = a.dist.probabilities();
 
                         for (std::size_t p = 0 ; p < probs.size() ; p++) {
                             typename Tsolver::StateNode* on = ca.dist_to_outcome[p]->first;
 
-                            if (on->visits_count == 0) {
+                            if (on->visits_count == 0 || ca.visits_count == 0) {
                                 untried_outcomes.push_back(std::make_pair(&ca, on));
                                 weights.push_back(probs[p]);
                             }
@@ -300,7 +327,7 @@ public :
                     if (solver.debug_logs()) { spdlog::debug("Found one unexpanded action: " + uo.first->action.print() +
                                                              Tsolver::ExecutionPolicy::print_thread()); }
                     return expand_action(solver, thread_id, solver.transition_mode(), n, *(uo.first));
-                } else { // expanded action, just return the selected next state
+                } else { // expanded action, just move to the selected next state
                     if (solver.debug_logs()) {
                         solver.execution_policy().protect([&uo](){
                             spdlog::debug("Found one untried outcome: action " + uo.first->action.print() +
@@ -308,7 +335,7 @@ public :
                                           Tsolver::ExecutionPolicy::print_thread());
                         }, uo.second->mutex);
                     }
-                    return uo.second;
+                    return solver.transition_mode().move_to_node(solver, thread_id, *(uo.first), uo.second);
                 }
             }
         } catch (const std::exception& e) {
@@ -334,49 +361,31 @@ public :
             std::vector<double> weights;
             std::vector<double> outcome_weights;
 
-            for (auto ns : next_states) {
-                std::pair<typename Tsolver::Graph::iterator, bool> i;
+            std::vector<std::pair<typename Tsolver::StateNode*, double>> outcomes; // next states and rewards
 
-                solver.execution_policy().protect([&i, &solver, &ns](){
-                    i = solver.graph().emplace(ns.state());
+            for (auto ns : next_states) {
+                typename Tsolver::StateNode& next_node = get_node(solver, thread_id, ns.state(), [&solver, &ns, &thread_id]() -> bool {
+                    return solver.domain().is_terminal(ns.state(), thread_id);
                 });
-
-                typename Tsolver::StateNode& next_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
-                double reward = 0.0;
-
-                solver.execution_policy().protect([&reward, &solver, &state, &action, &next_node, &thread_id](){
-                    reward = solver.domain().get_transition_reward(state.state, action.action, next_node.state, thread_id);
-                }, next_node.mutex);
-
-                solver.execution_policy().protect([&action, &next_node, &outcome_weights, &reward, &ns](){
-                    auto ii = action.outcomes.insert(std::make_pair(&next_node, std::make_pair(reward, 1)));
-
-                    if (ii.second) { // new outcome
-                        action.dist_to_outcome.push_back(ii.first);
-                        outcome_weights.push_back(ns.probability());
-                    } else { // existing outcome (following code not efficient but hopefully very rare case if domain is well defined)
-                        for (unsigned int oid = 0 ; oid < outcome_weights.size() ; oid++) {
-                            if (action.dist_to_outcome[oid]->first == ii.first->first) { // found my outcome!
-                                std::pair<double, std::size_t>& mp = ii.first->second;
-                                mp.first = ((double) (outcome_weights[oid] * mp.first) + (reward * ns.probability())) / ((double) (outcome_weights[oid] + ns.probability()));
-                                outcome_weights[oid] += ns.probability();
-                                mp.second += 1; // useless in this mode a priori, but just keep track for coherency
-                                break;
-                            }
-                        }
+                double reward = solver.domain().get_transition_reward(state.state, action.action, next_node.state, thread_id);
+                bool new_outcome = true;
+
+                // existing outcome (following code not efficient but hopefully very rare case if domain is well defined)
+                for (std::size_t oid = 0 ; oid < outcomes.size() ; oid++) {
+                    if (outcomes[oid].first == &next_node) { // found my outcome!
+                        outcomes[oid].second = ((outcome_weights[oid] * outcomes[oid].second) + (reward * ns.probability())) / (outcome_weights[oid] + ns.probability());
+                        outcome_weights[oid] += ns.probability();
+                        new_outcome = false;
+                        break;
                     }
-                }, action.parent->mutex);
-
-                solver.execution_policy().protect([this, &next_node, &action, &i, &solver, &thread_id, &untried_outcomes, &weights, &ns](){
-                    next_node.parents.insert(&action);
+                }
 
-                    if (i.second) { // new node
-                        next_node.terminal = solver.domain().is_terminal(next_node.state, thread_id);
-                        std::pair<double, std::size_t> h = _heuristic(solver.domain(), next_node.state, thread_id);
-                        next_node.value = h.first;
-                        next_node.visits_count = h.second;
-                    }
+                if (new_outcome) {
+                    outcomes.push_back(std::make_pair(&next_node, reward));
+                    outcome_weights.push_back(ns.probability());
+                }
 
+                solver.execution_policy().protect([&next_node, &solver, &untried_outcomes, &weights, &ns](){
                     if (next_node.actions.empty()) {
                         if (solver.debug_logs()) spdlog::debug("Candidate next state: " + next_node.state.print() +
                                                                Tsolver::ExecutionPolicy::print_thread());
@@ -386,9 +395,23 @@ public :
                 }, next_node.mutex);
             }
 
-            // Record the action's outcomes distribution
-            solver.execution_policy().protect([&action, &outcome_weights](){
-                action.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
+            // The action must be a parent of its outcomes before other threads can reach them through it
+            for (auto& o : outcomes) {
+                solver.execution_policy().protect([&o, &action](){
+                    o.first->parents.insert(&action);
+                }, o.first->mutex);
+            }
+
+            // Record the action's outcomes and their distribution, all at once and only once
+            // since other threads may be expanding the same action or reading its outcomes
+            solver.execution_policy().protect([&action, &outcomes, &outcome_weights](){
+                if (action.outcomes.empty()) {
+                    for (auto& o : outcomes) {
+                        auto ii = action.outcomes.insert(std::make_pair(o.first, std::make_pair(o.second, 1)));
+                        action.dist_to_outcome.push_back(ii.first);
+                    }
+                    action.dist = std::discrete_distribution<>(outcome_weights.begin(), outcome_weights.end());
+                }
             }, action.parent->mutex);
 
             // Pick a random next state
@@ -397,8 +420,10 @@ public :
                 std::size_t outcome_id = 0;
 
                 solver.execution_policy().protect([&outcome_id, &action, &solver](){
-                    outcome_id = action.dist(solver.gen());
-                }, solver.gen_mutex());
+                    solver.execution_policy().protect([&outcome_id, &action, &solver](){
+                        outcome_id = action.dist(solver.gen());
+                    }, solver.gen_mutex());
+                }, action.parent->mutex);
 
                 typename Tsolver::StateNode* outcome = nullptr;
 
@@ -442,33 +467,22 @@ public :
             }
             // Generate the next state of this action
             typename Tsolver::Domain::TransitionOutcome to = transition_mode.random_next_outcome(solver, thread_id, state.state, action.action);
-            std::pair<typename Tsolver::Graph::iterator, bool> i;
-
-            solver.execution_policy().protect([&i, &solver, &to](){
-                i = solver.graph().emplace(to.state());
+            typename Tsolver::StateNode& next_node = get_node(solver, thread_id, to.state(), [&to]() -> bool {
+                return to.terminal();
             });
-            
-            typename Tsolver::StateNode& next_node = const_cast<typename Tsolver::StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
-            
-            solver.execution_policy().protect([&action, &next_node, &to](){
-                auto ii = action.outcomes.insert(std::make_pair(&next_node, std::make_pair(to.reward(), 1)));
-                action.dist_to_outcome.push_back(ii.first);
-            }, action.parent->mutex);
 
-            solver.execution_policy().protect([this, &next_node, &action, &i, &to, &solver, &thread_id](){
+            // The action must be a parent of its outcome before other threads can reach it through it
+            solver.execution_policy().protect([&next_node, &action](){
                 next_node.parents.insert(&action);
-
-                if (i.second) { // new node
-                    next_node.terminal = to.terminal();
-                    std::pair<double, std::size_t> h = _heuristic(solver.domain(), next_node.state, thread_id);
-                    next_node.value = h.first;
-                    next_node.visits_count = h.second;
-                }
             }, next_node.mutex);
 
-            // Record the action's outcomes distribution
-            solver.execution_policy().protect([&action](){
-                action.dist = std::discrete_distribution<>({1.0});
+            // Record the action's outcome unless another thread did it in the meantime
+            solver.execution_policy().protect([&action, &next_node, &to](){
+                auto ii = action.outcomes.insert(std::make_pair(&next_node, std::make_pair(to.reward(), 1)));
+                if (ii.second) {
+                    action.dist_to_outcome.push_back(ii.first);
+                    action.dist = std::discrete_distribution<>({1.0});
+                }
             }, action.parent->mutex);
 
             if (solver.debug_logs()) {
@@ -491,6 +505,40 @@ public :
 private :
     HeuristicFunctor _heuristic;
     mutable typename Tsolver::ExecutionPolicy::template atomic<bool> _checked_transition_mode;
+
+    // Returns the node of the given state, which other threads never see before it is initialized
+    template <typename Tterminal_checker>
+    typename Tsolver::StateNode& get_node(Tsolver& solver,
+                                          const std::size_t* thread_id,
+                                          const typename Tsolver::Domain::State& state,
+                                          const Tterminal_checker& is_terminal) const {
+        typename Tsolver::Graph::iterator i;
+        bool new_node = false;
+
+        solver.execution_policy().protect([&i, &new_node, &solver, &state](){
+            i = solver.graph().find(typename Tsolver::StateNode(state));
+            new_node = (i == solver.graph().end());
+        });
+
+        if (new_node) {
+            bool terminal = is_terminal();
+            std::pair<double, std::size_t> h = _heuristic(solver.domain(), state, thread_id);
+
+            solver.execution_policy().protect([&i, &solver, &state, &terminal, &h](){
+                auto ii = solver.graph().emplace(state);
+                i = ii.first;
+
+                if (ii.second) { // not inserted by another thread in the meantime
+                    typename Tsolver::StateNode& node = const_cast<typename Tsolver::StateNode&>(*i); // we won't change the real key (StateNode::state) so we are safe
+                    node.terminal = terminal;
+                    node.value = h.first;
+                    node.visits_count = h.second;
+                }
+            });
+        }
+
+        return const_cast<typename Tsolver::StateNode&>(*i); // we won't change the real key (StateNode::state) so we are safe
+    }
 };
 
 
@@ -767,14 +815,15 @@ public :
                     std::size_t d) const {
         try {
             typename Tsolver::Domain::State current_state;
+            bool termination = false;
 
-            solver.execution_policy().protect([&solver, &n, &current_state](){
+            solver.execution_policy().protect([&solver, &n, &current_state, &termination](){
                 if (solver.debug_logs()) { spdlog::debug("Launching default rollout policy from state " + n.state.print() +
                                                          Tsolver::ExecutionPolicy::print_thread()); }
                 current_state = n.state;
+                termination = n.terminal;
             }, n.mutex);
 
-            bool termination = false;
             std::size_t current_depth = d;
             double reward = 0.0;
             double gamma_n = 1.0;
@@ -873,7 +922,11 @@ struct GraphBackup {
         }, f->mutex);
         for (auto& a : parents) {
             solver.execution_policy().protect([&a, &solver, &f, &new_frontier](){
-                double q_value = a->outcomes[f].first + (solver.discount() * (f->value));
+                auto outcome = a->outcomes.find(f);
+                if (outcome == a->outcomes.end()) { // not yet recorded by the thread which expands the action
+                    return;
+                }
+                double q_value = outcome->second.first + (solver.discount() * (f->value));
                 a->value = (((a->visits_count) * (a->value))  + q_value) / ((double) (a->visits_count + 1));
                 a->visits_count += 1;
                 typename Tsolver::StateNode* parent_node = a->parent;
@@ -1018,6 +1071,8 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr;
+        _action_prefix.clear();
     }
 
     // solves from state s
@@ -1086,10 +1141,9 @@ public :
                 spdlog::debug("Best action's known outcomes:\n" + str);
             }
             if (_online_node_garbage && _current_state) {
-                std::unordered_set<StateNode*> root_subgraph, child_subgraph;
-                compute_reachable_subgraph(_current_state, root_subgraph);
+                std::unordered_set<StateNode*> child_subgraph;
                 compute_reachable_subgraph(const_cast<StateNode*>(&(*si)), child_subgraph); // we won't change the real key (StateNode::state) so we are safe
-                remove_subgraph(root_subgraph, child_subgraph);
+                remove_all_but_subgraph(child_subgraph);
             }
             _current_state = const_cast<StateNode*>(&(*si)); // we won't change the real key (StateNode::state) so we are safe
             _action_prefix.push_back(action->action);
@@ -1215,26 +1269,24 @@ private :
         }
     }
 
-    void remove_subgraph(std::unordered_set<StateNode*>& root_subgraph, std::unordered_set<StateNode*>& child_subgraph) {
-        std::unordered_set<StateNode*> removed_subgraph;
-        // First pass: look for nodes in root_subgraph but not child_subgraph and remove
-        // those nodes from their children's parents
-        // Don't actually remove those nodes in the first pass otherwise some children to remove
-        // won't exist anymore when looking for their parents
-        for (auto& n : root_subgraph) {
-            if (child_subgraph.find(n) == child_subgraph.end()) {
-                for (auto& action : n->actions) {
-                    for (auto& outcome : action.outcomes) {
-                        // we won't change the real key (ActionNode::action) so we are safe
-                        outcome.first->parents.erase(&const_cast<ActionNode&>(action));
-                    }
+    // no node of a subgraph closed under reachability has an outcome which is removed,
+    // but it can have parents which are
+    void remove_all_but_subgraph(const std::unordered_set<StateNode*>& subgraph) {
+        for (auto& n : subgraph) {
+            for (auto i = n->parents.begin() ; i != n->parents.end() ; ) {
+                if (subgraph.find((*i)->parent) == subgraph.end()) {
+                    i = n->parents.erase(i);
+                } else {
+                    ++i;
                 }
-                removed_subgraph.insert(n);
             }
         }
-        // Second pass: actually remove nodes in root_subgraph but not in child_subgraph
-        for (auto& n : removed_subgraph) {
-            _graph.erase(StateNode(n->state));
+        for (auto i = _graph.begin() ; i != _graph.end() ; ) {
+            if (subgraph.find(const_cast<StateNode*>(&(*i))) == subgraph.end()) {
+                i = _graph.erase(i);
+            } else {
+                ++i;
+            }
         }
     }
 
-- 
2.43.0


From 9a6c08a0b8a284e004f20d6441f42b05b1ef7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 053/146] fix: RIW ends its rollouts, keeps values and nodes
 consistent, and forgets the actions taken when cleared

---
 cpp/src/hub/solver/riw.hh | 237 +++++++++++++++++++-------------------
 1 file changed, 117 insertions(+), 120 deletions(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index c33a378..06a18cd 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -193,6 +193,7 @@ public :
     void clear() {
         _graph.clear();
         _min_reward = std::numeric_limits<double>::max();
+        _rollout_policy = RolloutPolicy();
     }
 
     // solves from state s
@@ -248,10 +249,7 @@ public :
             spdlog::error("SKDECIDE exception: no best action found in state " + s.print());
             throw std::runtime_error("SKDECIDE exception: no best action found in state " + s.print());
         }
-        _rollout_policy.advance(_domain, s, *(si->best_action), true, nullptr);
         Action best_action = *(si->best_action);
-        std::unordered_set<Node*> root_subgraph;
-        compute_reachable_subgraph(const_cast<Node&>(*si), root_subgraph); // we won't change the real key (Node::state) so we are safe
         Node* next_node = nullptr;
         for (auto& child : si->children) {
             if (&std::get<0>(child) == si->best_action) {
@@ -265,11 +263,10 @@ public :
         }
         if (_debug_logs) { spdlog::debug("Expected outcome of best action " + si->best_action->print() +
                                          ": " + next_node->state.print()); }
-        std::unordered_set<Node*> child_subgraph;
-        if (_online_node_garbage) {
-            compute_reachable_subgraph(*next_node, child_subgraph);
-        }
-        update_graph(root_subgraph, child_subgraph);
+        _rollout_policy.advance(_domain, s, best_action, true, nullptr);
+        std::unordered_set<Node*> subgraph; // nodes to keep in case of garbage collection
+        compute_reachable_subgraph(_online_node_garbage ? *next_node : const_cast<Node&>(*si), subgraph); // we won't change the real key (Node::state) so we are safe
+        update_graph(subgraph);
         return best_action;
     }
 
@@ -367,7 +364,7 @@ private :
              const std::function<std::unique_ptr<FeatureVector> (Domain&, const State&, const std::size_t*)>& state_features,
              const std::size_t* thread_id)
             : state(s),
-              value(-std::numeric_limits<double>::max()),
+              value(not_evaluated()),
               depth(std::numeric_limits<std::size_t>::max()),
               novelty(std::numeric_limits<std::size_t>::max()),
               best_action(nullptr),
@@ -535,6 +532,7 @@ private :
                                            ExecutionPolicy::print_thread());
             _rollout_policy.init_rollout(_domain, thread_id);
             bool break_loop = false;
+            std::size_t steps = 0; // can be greater than the current node's depth, which is minimal
 
             while (!(current_node->solved) && !break_loop) {
 
@@ -570,12 +568,10 @@ private :
                 }, current_node->mutex);
 
                 // In parallel execution mode, child nodes can have been solved since we have checked
-                // for this current node's solve bit
+                // for this current node's solve bit. In any mode, the node can have no applicable action or
+                // be too far from the children which have been solved to be labelled at the same time
                 if (unsolved_children.empty()) {
-                    if(std::is_same<ExecutionPolicy, SequentialExecution>::value) {
-                        throw std::runtime_error("In sequential mode, nodes labelled as unsolved must have unsolved children.");
-                    }
-                    current_node->solved = true;
+                    update_node(*current_node, true);
                     break;
                 }
 
@@ -584,6 +580,7 @@ private :
                     pick = unsolved_children[std::discrete_distribution<>(probabilities.begin(), probabilities.end())(_gen)];
                 }, _gen_mutex);
                 bool new_node = false;
+                steps++;
 
                 if (fill_child_node(current_node, pick, new_node, thread_id)) { // terminal state
                     if (_debug_logs) {
@@ -596,7 +593,9 @@ private :
                         }, current_node->mutex);
                     }
                     update_node(*current_node, true);
-                    reached_end_of_trajectory_once = true;
+                    if (current_node->terminal) { // solved nodes can have been pruned only
+                        reached_end_of_trajectory_once = true;
+                    }
                     break_loop = true;
                 } else if (!novelty(feature_tuples, *current_node, new_node)) { // no new tuple or not reached with lower depth => terminal node
                     if (_debug_logs) {
@@ -627,25 +626,18 @@ private :
                     update_node(*current_node, true);
                     reached_end_of_trajectory_once = true;
                     break_loop = true;
-                } else if (elapsed_time(start_time) >= _time_budget) {
+                } else if (steps >= _max_depth || elapsed_time(start_time) >= _time_budget) {
                     if (_debug_logs) {
                         _execution_policy.protect([&current_node](){
-                            spdlog::debug("Time budget consumed" + ExecutionPolicy::print_thread() +
+                            spdlog::debug("Time budget or rollout depth consumed" + ExecutionPolicy::print_thread() +
                                           " in state: " + current_node->state.print() +
                                           ", depth=" + StringConverter::from(current_node->depth) +
                                           ", value=" + StringConverter::from(current_node->value) +
                                           ExecutionPolicy::print_thread());
                         }, current_node->mutex);
                     }
-                    // next test: unexpanded node considered as a temporary (i.e. not solved) terminal node
-                    // don't backup expanded node at this point otherwise the fscore initialization in update_node is wrong!
-                    bool current_node_no_children = false;
-                    _execution_policy.protect([&current_node_no_children, &current_node](){
-                        current_node_no_children = current_node->children.empty();
-                    }, current_node->mutex);
-                    if (current_node_no_children) {
-                        update_node(*current_node, false);
-                    }
+                    // unexpanded node considered as a temporary (i.e. not solved) terminal node
+                    update_node(*current_node, false);
                     break_loop = true;
                 }
             }
@@ -655,31 +647,36 @@ private :
         // Returns true if at least one tuple is new or is reached with lower depth
         bool novelty(TupleVector& feature_tuples, Node& n, bool nn) const {
             // feature_tuples is a set of state variable combinations of size _width
+            // /!\ the whole test is atomic: otherwise a new node could be tested in between by another rollout
+            // that has just reached it, which would make it appear as not novel for the rollout that created it
+            bool novel_depth = false;
+            _execution_policy.protect([this, &feature_tuples, &n, &nn, &novel_depth](){
+            const std::size_t nov_max = std::numeric_limits<std::size_t>::max();
+            const bool first_test = nn && (n.novelty == nov_max);
             std::size_t nov = n.features->size() + 1;
             const FeatureVector& state_features = *n.features;
-            bool novel_depth = false;
 
             for (std::size_t k = 1 ; k <= std::min((std::size_t) _width, (std::size_t) state_features.size()) ; k++) {
                 // we must recompute combinations from previous width values just in case
                 // this state would be visited for the first time across width iterations
                 generate_tuples(k, state_features.size(),
-                                [this, &state_features, &feature_tuples, &k, &novel_depth, &n, &nn, &nov](TupleType& cv){
+                                [&state_features, &feature_tuples, &k, &novel_depth, &n, &first_test, &nov](TupleType& cv){
                     for (auto& e : cv) {
                         e.second = state_features[e.first];
                     }
-                    _execution_policy.protect([&feature_tuples, &cv, &k, &novel_depth, &n, &nn, &nov]()->void {
-                        auto it = feature_tuples[k-1].insert(std::make_pair(cv, (std::size_t) n.depth));
-                        novel_depth = novel_depth || it.second || (nn && (it.first->second > n.depth)) || (!nn && (it.first->second == n.depth));
-                        it.first->second = std::min(it.first->second, (std::size_t) n.depth);
-                        if(it.second) {
-                            nov = std::min(nov, k);
-                        }
-                    });
+                    auto it = feature_tuples[k-1].insert(std::make_pair(cv, (std::size_t) n.depth));
+                    novel_depth = novel_depth || it.second || (first_test && (it.first->second > n.depth)) ||
+                                  (!first_test && (it.first->second >= n.depth));
+                    it.first->second = std::min(it.first->second, (std::size_t) n.depth);
+                    if(it.second) {
+                        nov = std::min(nov, k);
+                    }
                 });
             }
             n.novelty = nov;
             if (_debug_logs) spdlog::debug("Novelty: " + StringConverter::from(nov));
             if (_debug_logs) spdlog::debug("Novelty depth check: " + StringConverter::from(novel_depth));
+            });
             return novel_depth;
         }
 
@@ -731,22 +728,27 @@ private :
                     outcome = _rollout_policy.progress(_domain, node->state, std::get<0>(node->children[action_number]), thread_id);
                 }, node->mutex);
                 
-                _execution_policy.protect([this, &node_child, &thread_id, &new_node, &outcome](){
-                    auto i = _graph.emplace(Node(outcome.state(), _domain, _state_features, thread_id));
+                _execution_policy.protect([this, &node, &node_child, &thread_id, &new_node, &outcome](){
+                    Node new_child(outcome.state(), _domain, _state_features, thread_id);
+                    // other threads can visit the node as soon as it is in the graph
+                    new_child.depth = node->depth + 1;
+                    new_child.terminal = outcome.terminal();
+                    auto i = _graph.emplace(new_child);
                     new_node = i.second;
                     node_child = &const_cast<Node&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                    double min_reward = outcome.terminal() ? std::min(0.0, (double) outcome.reward()) : (double) outcome.reward();
+                    if (min_reward < _min_reward) {
+                        _min_reward = min_reward;
+                        _min_reward_changed = true;
+                    }
                 });
                 Node& next_node = *node_child;
                 _execution_policy.protect([&node, &action_number, &outcome, &node_child](){
                     std::get<1>(node->children[action_number]) = outcome.reward();
                     std::get<2>(node->children[action_number]) = node_child;
                 }, node->mutex);
-                if (outcome.reward() < _min_reward) {
-                    _min_reward = outcome.reward();
-                    _min_reward_changed = true;
-                }
                 
-                _execution_policy.protect([this, &node, &next_node, &new_node, &outcome](){
+                _execution_policy.protect([this, &node, &next_node, &new_node](){
                     next_node.parents.insert(node);
                     if (new_node) {
                         if (_debug_logs) spdlog::debug("Exploring" + ExecutionPolicy::print_thread() +
@@ -754,13 +756,7 @@ private :
                                                        ", depth=" + StringConverter::from(next_node.depth) +
                                                        ", value=" + StringConverter::from(next_node.value) +
                                                        ExecutionPolicy::print_thread());
-                        next_node.depth = node->depth + 1;
                         node = &next_node;
-                        node->terminal = outcome.terminal();
-                        if (node->terminal && _min_reward > 0.0) {
-                            _min_reward = 0.0;
-                            _min_reward_changed = true;
-                        }
                     } else { // outcome already explored
                         if (_debug_logs) spdlog::debug("Exploring" + ExecutionPolicy::print_thread() +
                                                        " known outcome: " + next_node.state.print() +
@@ -778,7 +774,9 @@ private :
                     _rollout_policy.advance(_domain, node->state, std::get<0>(node->children[action_number]), false, thread_id);
                 }, node->mutex);
                 Node& next_node = *node_child;
-                next_node.depth = std::min((std::size_t) next_node.depth, (std::size_t) node->depth + 1);
+                _execution_policy.protect([&node, &next_node](){
+                    next_node.depth = std::min((std::size_t) next_node.depth, (std::size_t) node->depth + 1);
+                }, next_node.mutex);
                 node = node_child;
                 if (_debug_logs) {
                     _execution_policy.protect([&node](){
@@ -794,10 +792,20 @@ private :
         }
 
         void update_node(Node& node, bool solved) {
-            node.solved = solved;
-            node.value = 0;
+            _execution_policy.protect([&node, &solved](){
+                if (solved) {
+                    node.solved = true;
+                }
+                // don't forget what the children are worth
+                if (std::none_of(node.children.begin(), node.children.end(), [](const auto& c){
+                        return std::get<2>(c) && std::get<2>(c)->value != not_evaluated(); })) {
+                    node.value = 0;
+                }
+            }, node.mutex);
             std::unordered_set<Node*> frontier;
+            frontier.insert(&node);
             if (_min_reward_changed) {
+                _min_reward_changed = false;
                 // need for backtracking all leaf nodes in the graph
                 _execution_policy.protect([this, &frontier](){
                     for (auto& n : _graph) {
@@ -808,9 +816,6 @@ private :
                         }, n.mutex);
                     }
                 });
-                _min_reward_changed = false;
-            } else {
-                frontier.insert(&node);
             }
             _parent_solver.backup_values(frontier);
         }
@@ -835,12 +840,10 @@ private :
         while(!frontier.empty()) {
             std::unordered_set<Node*> new_frontier;
             for (auto& n : frontier) {
-                if (n) {
-                    for (auto& child : n->children) {
-                        if (subgraph.find(std::get<2>(child)) == subgraph.end()) {
-                            new_frontier.insert(std::get<2>(child));
-                            subgraph.insert(std::get<2>(child));
-                        }
+                for (auto& child : n->children) {
+                    if (std::get<2>(child) && subgraph.find(std::get<2>(child)) == subgraph.end()) {
+                        new_frontier.insert(std::get<2>(child));
+                        subgraph.insert(std::get<2>(child));
                     }
                 }
             }
@@ -848,38 +851,31 @@ private :
         }
     }
 
-    // Prune the nodes that are no more reachable from the root's chosen child and reduce the depth of the
-    // nodes reachable from the child node by 1
-    void update_graph(std::unordered_set<Node*>& root_subgraph, std::unordered_set<Node*>& child_subgraph) {
-        std::unordered_set<Node*> removed_subgraph;
-        // First pass: look for nodes in root_subgraph but not child_subgraph and remove
-        // those nodes from their children's parents
-        // Don't actually remove those nodes in the first pass otherwise some children to remove
-        // won't exist anymore when looking for their parents
-        std::unordered_set<Node*> frontier;
-        for (auto& n : root_subgraph) {
-            if (n) {
-                if (_online_node_garbage && (child_subgraph.find(n) == child_subgraph.end())) {
-                    for (auto& child : n->children) {
-                        if (std::get<2>(child)) {
-                            std::get<2>(child)->parents.erase(n);
-                        }
-                    }
-                    removed_subgraph.insert(n);
-                } else {
-                    n->depth -= 1;
-                    // if (n->solved) {
-                    if (n->children.empty()) {
-                        frontier.insert(n);
-                    }
+    // Prune the nodes that are no more reachable from the root's chosen child (in case of garbage collection)
+    // and reduce the depth of the nodes of the given subgraph, which is closed under reachability, by 1
+    void update_graph(const std::unordered_set<Node*>& subgraph) {
+        if (_online_node_garbage) {
+            // First pass: forget the parents to remove, there is no child to remove
+            for (auto& n : subgraph) {
+                for (auto p = n->parents.begin() ; p != n->parents.end() ; ) {
+                    p = (subgraph.find(*p) == subgraph.end()) ? n->parents.erase(p) : std::next(p);
                 }
             }
-        }
-        // Second pass: actually remove nodes in root_subgraph but not in child_subgraph
-        for (auto& n : removed_subgraph) {
-            _graph.erase(Node(n->state, _domain, _state_features, nullptr));
+            // Second pass: actually remove nodes not in subgraph
+            for (auto i = _graph.begin() ; i != _graph.end() ; ) {
+                i = (subgraph.find(const_cast<Node*>(&(*i))) == subgraph.end()) ? _graph.erase(i) : std::next(i);
+            }
         }
         // Third pass: recompute fscores
+        std::unordered_set<Node*> frontier;
+        for (auto& n : subgraph) {
+            if (n->depth > 0) {
+                n->depth -= 1;
+            }
+            if (n->children.empty()) {
+                frontier.insert(n);
+            }
+        }
         backup_values(frontier);
     }
 
@@ -889,10 +885,11 @@ private :
         for (auto& n : frontier) {
             _execution_policy.protect([this, &n](){
                 if (n->pruned) {
-                    n->value = 0;
-                    for (std::size_t d = 0 ; d < (_max_depth - n->depth) ; d++) {
-                        n->value = _min_reward + (_discount * (n->value));
+                    double value = 0;
+                    for (std::size_t d = n->depth ; d < _max_depth ; d++) {
+                        value = _min_reward + (_discount * value);
                     }
+                    n->value = value;
                 }
             }, n->mutex);
         }
@@ -911,19 +908,7 @@ private :
               std::enable_if_t<std::is_same<TTexecution_policy, SequentialExecution>::value, int> = 0>
     void update_frontier(std::unordered_set<Node*>& new_frontier, Node* n, [[maybe_unused]] TTexecution_policy* execution_policy) {
         for (auto& p : n->parents) {
-            p->solved = true;
-            p->value = -std::numeric_limits<double>::max();
-            p->best_action = nullptr;
-            for (auto& nn : p->children) {
-                p->solved = p->solved && std::get<2>(nn) && std::get<2>(nn)->solved;
-                if (std::get<2>(nn)) {
-                    double tentative_value = std::get<1>(nn) + (_discount * std::get<2>(nn)->value);
-                    if (p->value < tentative_value) {
-                        p->value = tentative_value;
-                        p->best_action = &std::get<0>(nn);
-                    }
-                }
-            }
+            update_parent(p);
             new_frontier.insert(p);
         }
     }
@@ -936,24 +921,36 @@ private :
             std::copy(n->parents.begin(), n->parents.end(), std::back_inserter(parents));
         }, n->mutex);
         for (auto& p : parents) {
-            p->solved = true;
-            p->value = -std::numeric_limits<double>::max();
-            p->best_action = nullptr;
-            _execution_policy.protect([this, &p](){
-                for (auto& nn : p->children) {
-                    p->solved = p->solved && std::get<2>(nn) && std::get<2>(nn)->solved;
-                    if (std::get<2>(nn)) {
-                        double tentative_value = std::get<1>(nn) + (_discount * std::get<2>(nn)->value);
-                        if (p->value < tentative_value) {
-                            p->value = tentative_value;
-                            p->best_action = &std::get<0>(nn);
-                        }
-                    }
-                }
-            }, p->mutex);
+            _execution_policy.protect([this, &p](){ update_parent(p); }, p->mutex);
             new_frontier.insert(p);
         }
     }
+
+    // The best of the children evaluated so far, which replaces the current value at once
+    // since other threads can read it meanwhile
+    void update_parent(Node* p) {
+        bool solved = true;
+        double value = not_evaluated();
+        Action* best_action = nullptr;
+        for (auto& nn : p->children) {
+            Node* child = std::get<2>(nn);
+            solved = solved && child && child->solved;
+            if (child && child->value != not_evaluated()) {
+                double tentative_value = std::get<1>(nn) + (_discount * child->value);
+                if (best_action == nullptr || value < tentative_value) {
+                    value = tentative_value;
+                    best_action = &std::get<0>(nn);
+                }
+            }
+        }
+        p->solved = solved;
+        if (best_action) { // otherwise keep what the node is worth as the temporary end of a rollout
+            p->value = value;
+            p->best_action = best_action;
+        }
+    }
+
+    static constexpr double not_evaluated() { return -std::numeric_limits<double>::max(); }
 }; // RIWSolver class
 
 } // namespace skdecide
-- 
2.43.0


From afc7e85d5734aea564364bca9b3adb8455799b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 054/146] fix: empty spaces say that they contain nothing

---
 skdecide/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index df0f4e8..207c296 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -102,7 +102,7 @@ class EnumerableSpace(Space[T]):
         return x in self.get_elements()
 
 
-class EmptySpace(Space[T]):
+class EmptySpace(EnumerableSpace[T]):
     """A space which elements can be enumerated."""
 
     def get_elements(self) -> Iterable[T]:
-- 
2.43.0


From 667f66540819a090b6ea34b9f2b36774807c00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 055/146] fix: numpy has no int of its own any more

---
 .../facility/solvers/facility_lp_solver.py                    | 2 +-
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 .../discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py | 2 +-
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py        | 2 +-
 .../discrete_optimization/tsp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py     | 4 ++--
 .../discrete_optimization/vrp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py    | 2 +-
 skdecide/hub/solver/cgp/pycgp/cgp.py                          | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 72d0c43..321a643 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -172,7 +172,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index ed7ce34..675ad94 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -221,7 +221,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..83e7816 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix.astype(int))
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index ff50f4c..681b633 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -72,7 +72,7 @@ def parse(file_path)->TTPModel:
                 edgeWeightType = line[0]
             elif line.startswith("NODE_COORD_SECTION"):
                 nodes = []
-                nodes_array = np.zeros((numberOfNodes, 3), dtype=np.int)
+                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                 for i in range(numberOfNodes):
                     line = fp.readline()
                     line = line.split()
@@ -88,7 +88,7 @@ def parse(file_path)->TTPModel:
                     nodes += [n]
             elif line.startswith("ITEMS SECTION"):
                 items = []
-                items_array = np.zeros((numberOfItems, 4), dtype=np.int)
+                items_array = np.zeros((numberOfItems, 4), dtype=int)
                 for j in range(numberOfItems):
                     line = fp.readline()
                     line = line.split()
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..d7c1ae1 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 9ba477c..5b83c89 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -37,7 +37,7 @@ class CGP:
 		self.to_evaluate = np.zeros(self.max_graph_length, dtype=bool)
 		self.node_output = np.zeros(self.max_graph_length + self.num_inputs, dtype=np.float64)
 		self.nodes_used = []
-		self.output_genes = np.zeros(self.num_outputs, dtype=np.int)
+		self.output_genes = np.zeros(self.num_outputs, dtype=int)
 		self.nodes = np.empty(0, dtype=self.CGPNode)
 		for i in range(0, self.num_outputs):
 			self.output_genes[i] = self.genome[len(self.genome)-self.num_outputs+i]
-- 
2.43.0


From f9210b3c119d3499567ba615dd5a56839685c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 056/146] fix: knapsack solutions forget the value of the items
 taken before, and mutations report that of the new solution

---
 .../generic_tools/mutations/mutation_bool.py  |  1 +
 .../knapsack/knapsack_model.py                | 14 ++++++++---
 .../knapsack/mutation/mutation_knapsack.py    | 25 ++++++++-----------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
index 7bcae2f..5bd98b5 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
@@ -19,6 +19,7 @@ class BitFlipMove(LocalMove):
         l = getattr(solution, self.attribute)
         for index in self.list_index_flip:
             l[index] = (1-l[index])
+        setattr(solution, self.attribute, l)
         return solution
     
     def backtrack_local_move(self, solution: Solution) -> Solution:
diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..2f54b34 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -21,9 +21,16 @@ class KnapsackSolution(Solution):
 
     def __init__(self, problem, list_taken, value=None, weight=None):
         self.problem = problem
+        self.list_taken = list_taken
         self.value = value
         self.weight = weight
-        self.list_taken = list_taken
+
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "list_taken":
+            # the stored value and weight were those of the items taken before.
+            self.value = None
+            self.weight = None
 
     def copy(self):
         return KnapsackSolution(problem=self.problem, 
@@ -38,8 +45,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
@@ -154,7 +159,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..0fcff41 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -48,10 +48,9 @@ class KnapsackMutationSingleBitFlip(Mutation):
             else:
                 new_weight = solution.weight + self.problem.list_items[i].weight
                 new_value = solution.value + self.problem.list_items[i].value
-            obj = {'value': new_value,
-                   'weight_violation': max(0, new_weight - self.problem.max_capacity)}
-        else:
-            obj = self.problem.evaluate(solution)
+            new_sol.value = new_value
+            new_sol.weight = new_weight
+        obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
@@ -99,7 +98,9 @@ class MutationKnapsack(Mutation):
         self.knapsack_model = knapsack_model
         self.nb_items = knapsack_model.nb_items
         self.list_items = knapsack_model.list_items
-        self.profit_per_capacity = [self.list_items[i].value / self.list_items[i].weight for i in range(self.nb_items)]
+        # items of no weight or of no value are very useful or useless, but their utility stays a positive number.
+        self.profit_per_capacity = np.array([max(self.list_items[i].value, 1e-9) / max(self.list_items[i].weight, 1e-9)
+                                             for i in range(self.nb_items)])
         self.sum = np.sum(self.profit_per_capacity)
         self.profit_per_capacity /= self.sum
         self.sorted_by_utility = np.argsort(self.profit_per_capacity)
@@ -118,13 +119,10 @@ class MutationKnapsack(Mutation):
             index = np.random.choice(not_used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
             sol = move.apply_local_move(variable)
-            return sol, move, {'value': sol.value,
-                               'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)}
+            return sol, move, self.knapsack_model.evaluate(sol)
         else:
             if come_from_outside:
-                return variable, LocalMoveDefault(variable, variable), {'value': variable.value,
-                                                                        'weight_violation': max(0,
-                                                                                                variable.weight - self.knapsack_model.max_capacity)}
+                return variable, LocalMoveDefault(variable, variable), self.knapsack_model.evaluate(variable)
             return self.switch_off(variable, True)
 
     def switch_off(self, variable: KnapsackSolution, come_from_outside=False):
@@ -135,13 +133,10 @@ class MutationKnapsack(Mutation):
             index = np.random.choice(used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
             sol = move.apply_local_move(variable)
-            return sol, move, {'value': sol.value,
-                               'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)}
+            return sol, move, self.knapsack_model.evaluate(sol)
         else:
             if come_from_outside:
-                return variable, LocalMoveDefault(variable, variable), {'value': variable.value,
-                                                                        'weight_violation': max(0,
-                                                                                                variable.weight - self.knapsack_model.max_capacity)}
+                return variable, LocalMoveDefault(variable, variable), self.knapsack_model.evaluate(variable)
             return self.switch_on(variable, come_from_outside=True)
 
     def mutate(self, variable: KnapsackSolution) -> KnapsackSolution:
-- 
2.43.0


From 7f9d2d44e1c1d54c2fbf45fb4163e5261de68c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 057/146] fix: swaps of a permutation reach its last element,
 are taken back in reverse and are told to the solution

---
 .../generic_tools/mutations/permutation_mutations.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..45971b3 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,13 +142,15 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
@@ -178,7 +180,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
@@ -231,8 +233,8 @@ class TwoOptMutation(LocalMove):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        i = random.randint(0, self.length-2)
-        j = random.randint(i+1, self.length-1)
+        i = random.randint(0, max(self.length-2, 0))
+        j = random.randint(min(i+1, self.length-1), self.length-1)
         two_opt_move = TwoOptMove(self.attribute, [(i, j)])
         new_sol = two_opt_move.apply_local_move(solution)
         return (new_sol, two_opt_move)
-- 
2.43.0


From fb028b465391b945fad6f614bc3268bdc906336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 058/146] fix: tours and their lengths stay together through
 moves, copies and changes of problem

---
 .../tsp/mutation/mutation_tsp.py              | 43 ++++++++++++-----
 .../discrete_optimization/tsp/tsp_model.py    | 46 +++++++++++++------
 2 files changed, 62 insertions(+), 27 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..fc073ae 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,7 +72,7 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = min(nb_test, self.node_count-1) if nb_test is not None else None
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
@@ -112,6 +112,10 @@ class Mutation2Opt(Mutation):
         return i_before, i, j, j_after
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
+        if variable.lengths is None:
+            self.tsp_model.evaluate(variable)
+        if self.length_permutation < 2:
+            return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         it = random.randint(0, self.length_permutation-2)
         jt = random.randint(it+1, self.length_permutation-1)
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
@@ -144,17 +148,23 @@ class Mutation2Opt(Mutation):
                     it = i
                     jt = j
                     min_change = change
-        fitness = variable.length+min_change
         i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
+        if min_change == float('inf'):
+            # nothing was tested : take the random move.
+            min_change = self.evaluate_function_indexes(i_before, j_)-\
+                         self.evaluate_function_indexes(i_before, i_)-\
+                         self.evaluate_function_indexes(j_, j_after)+\
+                         self.evaluate_function_indexes(i_, j_after)
+        fitness = variable.length+min_change
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
         if jt < self.length_permutation-1:
-            lengths += variable.lengths[jt+2:]
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
@@ -204,13 +214,15 @@ class Mutation2OptIntersection(Mutation2Opt):
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
         reset_end = False
+        if variable.lengths is None:
+            self.tsp_model.evaluate(variable)
         if True:
             reset_end = True
             ints = find_intersection(variable, self.points, 
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -228,10 +240,12 @@ class Mutation2OptIntersection(Mutation2Opt):
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        if jt < self.length_permutation-1:
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
@@ -268,10 +282,15 @@ class SwapTSPMove(LocalMove):
         self.swap = swap
 
     def apply_local_move(self, solution: SolutionTSP) -> SolutionTSP:
+        if solution.lengths is None:
+            self.tsp_model.evaluate(solution)
         current = getattr(solution, self.attribute)
         i1, i2 = self.swap
-        v1, v2 = current[i1], current[i2]
-        current[i1], current[i2] = v2, v1
+        if i1 == i2:
+            return solution
+        # both permutations describe the same tour.
+        for tour in (solution.permutation, solution.permutation_from0):
+            tour[i1], tour[i2] = tour[i2], tour[i1]
         i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
         previous = solution.lengths[i1], solution.lengths[i1+1], solution.lengths[i2], solution.lengths[i2+1]
         solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
@@ -303,8 +322,8 @@ class MutationSwapTSP(Mutation):
         self.length_permutation = tsp_model.length_permutation
 
     def mutate(self, solution: SolutionTSP)->Tuple[SolutionTSP, LocalMove]:
-        i = random.randint(0, self.length_permutation-2)
-        j = random.randint(i+1, min(self.length_permutation-1, i+1+3))
+        i = random.randint(0, max(self.length_permutation-2, 0))
+        j = random.randint(min(i+1, self.length_permutation-1), min(self.length_permutation-1, i+1+3))
         two_opt_move = SwapTSPMove("permutation", self.tsp_model, (i, j))
         new_sol = two_opt_move.apply_local_move(solution)
         return new_sol, two_opt_move
diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..bdce7f9 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -49,15 +49,27 @@ class SolutionTSP(Solution):
         # print('problem__:', problem)
         # print('permutation_from0__:', self.permutation_from0)
         # TODO: Think about moving this into another function (to prevent unecessary calls to evaluate()
-        if self.length is None:
+        if self.length is None or self.lengths is None:
             self.problem.evaluate(self)
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        # the two permutations are the same tour, and the lengths are those of this tour:
+        # once the solution is built, a new permutation renews the other one and forgets the lengths.
+        if key in {"permutation", "permutation_from0"} and getattr(self, "problem", None) is not None:
+            if key == "permutation":
+                other, tour = "permutation_from0", self.problem.convert_original_perm_to_perm_from0(value)
+            else:
+                other, tour = "permutation", self.problem.convert_perm_from0_to_original_perm(value)
+            super().__setattr__(other, tour)
+            self.lengths, self.length = None, None
+
     def copy(self):
         return SolutionTSP(problem=self.problem,
                            start_index=self.start_index,
                            end_index=self.end_index,
                            permutation=list(self.permutation),
-                           lengths=list(self.lengths),
+                           lengths=list(self.lengths) if self.lengths is not None else None,
                            length=self.length,
                            permutation_from0=deepcopy(self.permutation_from0))
 
@@ -74,13 +86,13 @@ class SolutionTSP(Solution):
         return "perm :"+str(self.permutation)+"\nobj="+str(self.length)
 
     def change_problem(self, new_problem):
+        # neither the lengths nor the indexes from 0 need to be the same for the new problem.
+        tour = list(self.permutation)
+        self.problem = None
         self.__init__(problem=new_problem,
                       start_index=self.start_index,
                       end_index=self.end_index,
-                      permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
-                      permutation_from0=deepcopy(self.permutation_from0))
+                      permutation=tour)
 
 class Point:
     ...
@@ -153,9 +165,9 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        # the permutation is made of the points between the start and the end.
+        return var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index \
+            and sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
@@ -202,11 +214,15 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class _Point2D(NamedTuple):
     x: float
     y: float
 
 
+class Point2D(_Point2D, Point):
+    ...
+
+
 class TSPModel2D(TSPModel):
     def __init__(self, list_points: List[Point2D], 
                  node_count: int, 
@@ -263,17 +279,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
-                                    (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+                                          (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From f108fb75282cbb2fdee470760cb87395f7da40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 059/146] fix: colorings, facility choices and routes forget
 what was computed for other contents or problems

---
 .../discrete_optimization/coloring/coloring_model.py  | 11 ++++++++---
 .../discrete_optimization/facility/facility_model.py  | 11 ++++++++---
 .../builders/discrete_optimization/vrp/vrp_model.py   | 11 +++++++++--
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..d960eae 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -25,6 +25,13 @@ class ColoringSolution(Solution):
         # if self.colors_from0 is None:
         #     self.colors_from0 = self.problem.convert_original_node_list_to_list_from0(self.colors)
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "colors":
+            # the stored numbers were those of the colors before.
+            self.nb_color = None
+            self.nb_violations = None
+
     def copy(self):
         return ColoringSolution(problem=self.problem,
                                 colors=list(self.colors),
@@ -51,10 +58,8 @@ class ColoringSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      colors=list(self.colors),
                       # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      colors=list(self.colors))
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..62a1e5f 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -27,6 +27,12 @@ class FacilitySolution(Solution):
         self.facility_for_customers = facility_for_customers
         self.dict_details = dict_details
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "facility_for_customers":
+            # the stored details were those of the facilities chosen before.
+            self.dict_details = None
+
     def copy(self):
         return FacilitySolution(self.problem, facility_for_customers=list(self.facility_for_customers),
                                 dict_details=deepcopy(self.dict_details))
@@ -38,8 +44,7 @@ class FacilitySolution(Solution):
     
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      facility_for_customers=list(self.facility_for_customers))
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
@@ -61,7 +66,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..f62536b 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -42,6 +42,14 @@ class VrpSolution(Solution):
         self.lengths = lengths
         self.capacities = capacities
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "list_paths":
+            # the stored lengths and capacities were those of the paths before.
+            self.length = None
+            self.lengths = None
+            self.capacities = None
+
     def __str__(self):
         return "\n".join([str(self.list_paths[i]) for i in range(len(self.list_paths))])
 
@@ -49,8 +57,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From fe043079ad5b2dd0d3333cc58b52b3bfd1ffb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 060/146] fix: schedules follow the permutation, the modes and
 the calendars of their solution, and copies share none of them

---
 .../rcpsp/mutations/mutation_rcpsp.py         |  3 +-
 .../rcpsp/rcpsp_model.py                      | 53 ++++++++++++-------
 .../discrete_optimization/ttp/ttp_model.py    |  3 +-
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
index 2d78cb6..1bfa631 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
@@ -22,8 +22,8 @@ class PermutationMutationRCPSP(Mutation):
     def mutate(self, solution: RCPSPSolution) -> Tuple[Solution, LocalMove]:
         s, lm = self.other_mutation.mutate(solution)
         try:
+            s.generate_schedule_from_permutation_serial_sgs()
             s.standardised_permutation = s.generate_permutation_from_schedule()
-            s._schedule_to_recompute = True
         except:
             pass
         return s, lm
@@ -31,7 +31,6 @@ class PermutationMutationRCPSP(Mutation):
     def mutate_and_compute_obj(self, solution: Solution) -> Tuple[Solution, LocalMove, Dict[str, float]]:
         s, lm, fit = self.other_mutation.mutate_and_compute_obj(solution)
         try:
-            s._schedule_to_recompute = True
             s.standardised_permutation = s.generate_permutation_from_schedule()
         except:
             pass
diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..28c27fc 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -48,7 +47,7 @@ class RCPSPSolution(Solution):
                 self.rcpsp_modes = [1 for i in range(self.problem.n_jobs)]
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
-                self.rcpsp_modes = self.problem.fixed_modes
+                self.rcpsp_modes = deepcopy(self.problem.fixed_modes)
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -56,7 +55,8 @@ class RCPSPSolution(Solution):
             if self.rcpsp_schedule is not None:
                 self.standardised_permutation = self.generate_permutation_from_schedule()
                 self.rcpsp_permutation = deepcopy(self.standardised_permutation)
-                self._schedule_to_recompute = False
+        # a given schedule is taken as it is.
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if rcpsp_schedule is None:
             if not isinstance(problem, Aggreg_RCPSPModel):
@@ -75,24 +75,28 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in {"rcpsp_permutation", "rcpsp_modes"}:
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
@@ -118,7 +122,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:makespan+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:makespan+1])
             else:
                 resource_avail_in_time[res] = np.full(makespan, self.problem.resources[res], dtype=int).tolist()
         for act_id in self.problem.mode_details.keys():
@@ -144,7 +148,12 @@ class RCPSPSolution(Solution):
         for res in list(self.problem.resources.keys()):
             mean_avail[res] = np.mean(resource_avail_in_time[res])
 
-        mean_resource_reserve = np.mean([mean_avail[res] / self.problem.resources[res] for res in list(self.problem.resources.keys())])
+        mean_total = {res: np.mean(self.problem.resources[res][:makespan+1])
+                      if isinstance(self.problem, RCPSPModelCalendar) else self.problem.resources[res]
+                      for res in mean_avail}
+        # a resource that is never there has no reserve.
+        mean_resource_reserve = np.mean([mean_avail[res] / mean_total[res] if mean_total[res] > 0 else 0.
+                                         for res in list(self.problem.resources.keys())])
         # print('mean_avail: ', mean_avail)
         # print('original_avail: ', self.problem.resources)
         # print('val: ', mean_resource_reserve)
@@ -161,7 +170,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if  isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:new_horizon+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
         # 3
@@ -279,7 +288,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:new_horizon+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
         # 3
@@ -540,6 +549,8 @@ class RCPSPModel(Problem):
                             2)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
@@ -720,6 +731,8 @@ class RCPSPModelCalendar(RCPSPModel):
                                   name_ressource_to_index=self.name_ressource_to_index)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_model.py b/skdecide/builders/discrete_optimization/ttp/ttp_model.py
index b401adc..fb3f1ed 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_model.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_model.py
@@ -33,7 +33,8 @@ class TTPSolution(Solution):
                 "Objective : "+str(self.objective)
 
     def change_problem(self, new_problem):
-        raise NotImplementedError
+        # evaluate() computes all the values again.
+        ...
 
 def distance(point1, point2):
     return math.sqrt((point1["x"]-point2["x"])**2+(point1["y"]-point2["y"])**2)
-- 
2.43.0


From 13324e710c57732312798fff2945855c454afb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 061/146] fix: robust problems evaluate a solution anew for
 each of their problems, and shuffles leave the solution they start from alone

---
 .../discrete_optimization/generic_tools/do_problem.py  | 10 ++++++++--
 .../generic_tools/mutations/permutation_mutations.py   |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
index 37d0e35..22e6920 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
@@ -170,8 +170,14 @@ class RobustProblem(Problem):
         return func
 
     def evaluate(self, variable: Solution) -> Dict[str, float]:
-        fits = [self.list_problem[i].evaluate(variable) for i in range(self.nb_problem)]
-        keys = fits[0].keys()
+        fits = []
+        for i in range(self.nb_problem):
+            # what a solution stores about one problem is not true for the others.
+            var = variable.copy()
+            var.change_problem(self.list_problem[i])
+            fits += [self.list_problem[i].evaluate(var)]
+        # only objectives can be aggregated, not the details some problems add.
+        keys = [k for k in fits[0] if k in self.get_objective_register().dict_objective_to_doc]
         aggreg = {}
         for k in keys:
             vals = np.array([fit[k] for fit in fits])
diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 45971b3..a4013bd 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -112,11 +112,11 @@ class PermutationPartialShuffleMutation(Mutation):
         self.range_int_total = list(range(len(self.range_shuffle)))
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        previous = deepcopy(getattr(solution, self.attribute))
+        previous = getattr(solution, self.attribute)
         random.shuffle(self.range_int_total)
         int_to_move = self.range_int_total[:self.n_to_move]
         random.shuffle(self.range_int)
-        new = getattr(solution, self.attribute)
+        new = deepcopy(previous)
         for k in range(self.n_to_move):
             #prevs += [new[int_to_move[k]]]
             new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
-- 
2.43.0


From b76261206ad51df181d148167c5caecc8d32b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 062/146] fix: genetic solvers of schedules use the parameters
 they are given

---
 .../rcpsp/solver/rcpsp_ga_solver.py                   | 11 +++++++++++
 .../rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py    |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
index a27c412..bdc8478 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_ga_solver.py
@@ -26,6 +26,12 @@ class GA_RCPSP_Solver(SolverDO):
                        objectives=parameters_ga.objectives,
                        objective_weights=parameters_ga.objective_weights,
                        mutation=parameters_ga.mutation,
+                       crossover=parameters_ga.crossover,
+                       selection=parameters_ga.selection,
+                       pop_size=parameters_ga.pop_size,
+                       mut_rate=parameters_ga.mut_rate,
+                       crossover_rate=parameters_ga.crossover_rate,
+                       deap_verbose=parameters_ga.deap_verbose,
                        max_evals=parameters_ga.max_evals)
         return ga_solver.solve()
 
@@ -46,6 +52,11 @@ class GA_MRCPSP_Solver(SolverDO):
                                   objective_weights=parameters_ga.objective_weights,
                                   mutations=parameters_ga.mutations,
                                   crossovers=parameters_ga.crossovers,
+                                  selections=[parameters_ga.selection]*len(parameters_ga.encodings),
+                                  pop_size=parameters_ga.pop_size,
+                                  mut_rate=parameters_ga.mut_rate,
+                                  crossover_rate=parameters_ga.crossover_rate,
+                                  deap_verbose=parameters_ga.deap_verbose,
                                   max_evals=parameters_ga.max_evals,
                                   sub_evals=parameters_ga.sub_evals)
         return ga_solver.solve()
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py
index e0c98ba..07ebc53 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_ga_solver.py
@@ -27,6 +27,11 @@ class GA_MSRCPSP_Solver(SolverDO):
                                   objective_weights=parameters_ga.objective_weights,
                                   mutations=parameters_ga.mutations,
                                   crossovers=parameters_ga.crossovers,
+                                  selections=[parameters_ga.selection]*len(parameters_ga.encodings),
+                                  pop_size=parameters_ga.pop_size,
+                                  mut_rate=parameters_ga.mut_rate,
+                                  crossover_rate=parameters_ga.crossover_rate,
+                                  deap_verbose=parameters_ga.deap_verbose,
                                   max_evals=parameters_ga.max_evals,
                                   sub_evals=parameters_ga.sub_evals)
         return ga_solver.solve()
-- 
2.43.0


From 46e29ffbee60e9d01748e4e18551430cd14b7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 063/146] fix: alternating genetic searches alternate between
 their encodings and keep the best they found

---
 .../generic_tools/ea/alternating_ga.py        | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
index 72f3cab..cbfd3b9 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
@@ -70,22 +70,33 @@ class AlternatingGa():
         for i in range(len(self.encodings)):
             self.problem.set_fixed_attributes(self.encodings[i], self.problem.get_dummy_solution())
 
+        problem_sol, best_value = None, None
         while count_evals < self.max_evals:
-
+            mutation, crossover, selection = [l[current_encoding_index] if l is not None else None
+                                              for l in (self.mutations, self.crossovers, self.selections)]
             ga_solver = Ga(problem=self.problem,
                            encoding=self.encodings[current_encoding_index],
                            objective_handling=self.objective_handling,
                            objectives=self.objectives,
                            objective_weights=self.objective_weights,
-                           mutation=self.mutations[current_encoding_index],
+                           mutation=mutation,
+                           crossover=crossover,
+                           selection=selection,
+                           pop_size=self.pop_size,
+                           mut_rate=self.mut_rate,
+                           crossover_rate=self.crossover_rate,
+                           tournament_size=self.tournament_size,
+                           deap_verbose=self.deap_verbose,
                            max_evals=self.sub_evals[current_encoding_index])
             tmp_sol = ga_solver.solve().get_best_solution()
             count_evals += self.sub_evals[current_encoding_index]
 
-            # TODO: implement function below (1 in rcpsp domains, 1 in rcpsp solutions)
-            self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
-
-        problem_sol = tmp_sol
+            value = ga_solver.aggregate_objectives(self.problem.evaluate(tmp_sol))
+            if best_value is None or value > best_value:
+                problem_sol, best_value = tmp_sol, value
+                # TODO: implement function below (1 in rcpsp domains, 1 in rcpsp solutions)
+                self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
+            current_encoding_index = (current_encoding_index + 1) % len(self.encodings)
 
         result_storage = ResultStorage(list_solution_fits=[(problem_sol,
                                                             self.aggreg_from_sol(problem_sol))],
-- 
2.43.0


From 1cb2dd716bdff24782ad5a870c206ebca3789ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 064/146] fix: two-opt mutations are mutations

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index a4013bd..a8d06ba 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -209,7 +209,7 @@ class TwoOptMove(LocalMove):
         return solution
 
 
-class TwoOptMutation(LocalMove):
+class TwoOptMutation(Mutation):
     @staticmethod
     def build(problem: Problem, solution: Solution, 
               **kwargs):
-- 
2.43.0


From 1ea75508fbdde117f4c391a93b3fac070495cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 065/146] fix: genetic searches stay within their encodings,
 return what they found best and use the objectives of the problem

---
 .../generic_tools/do_problem.py               |  7 +++
 .../generic_tools/ea/deap_wrappers.py         | 10 ++--
 .../generic_tools/ea/ga.py                    | 58 ++++++++++++++-----
 .../generic_tools/ea/nsga.py                  | 49 +++++++++++-----
 .../rcpsp/rcpsp_model.py                      | 12 +++-
 5 files changed, 100 insertions(+), 36 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
index 22e6920..37a79c8 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
@@ -119,6 +119,13 @@ class Problem:
     def get_solution_type(self):
         ...
 
+    def build_solution_from_encoding(self, int_vector, encoding_name: str) -> Solution:
+        # the solution that evaluate_from_encoding evaluates
+        return self.get_solution_type()(**{encoding_name: int_vector, "problem": self})
+
+    def get_encoding_from_solution(self, variable: Solution, encoding_name: str):
+        return getattr(variable, encoding_name)
+
     @abstractmethod
     def get_objective_register(self)->ObjectiveRegister:
         ...
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/deap_wrappers.py b/skdecide/builders/discrete_optimization/generic_tools/ea/deap_wrappers.py
index e76eff8..8602cb3 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/deap_wrappers.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/deap_wrappers.py
@@ -1,10 +1,10 @@
-def generic_mutate_wrapper(individual, problem, encoding_name, indpb, solution_fn, custom_mutation):
-    kwargs = {encoding_name: individual, 'problem': problem}
-    custom_sol = solution_fn(**kwargs)
+def generic_mutate_wrapper(individual, problem, encoding_name, indpb, solution_fn, custom_mutation, values=None):
+    vector = list(individual) if values is None else [values[i] for i in individual]
+    custom_sol = problem.build_solution_from_encoding(vector, encoding_name)
     new_custom_sol = custom_mutation.mutate(custom_sol)[0]
     new_individual = individual  # TODO: check if that is correct (only way to keep the individual type I found so far)
-    tmp_vector = getattr(new_custom_sol, encoding_name)
+    tmp_vector = problem.get_encoding_from_solution(new_custom_sol, encoding_name)
     for i in range(len(tmp_vector)):
-        new_individual[i] = tmp_vector[i]
+        new_individual[i] = tmp_vector[i] if values is None else values.index(tmp_vector[i])
     return new_individual,
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index e4d6414..5ebeac4 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -143,7 +143,7 @@ class Ga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
@@ -172,11 +172,31 @@ class Ga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
+
+        # permutations are handled as permutations of indexes, of the values they are made of.
+        self._permutation_values = None
+        if self._encoding_type == TypeAttribute.PERMUTATION:
+            details = encoding if self._encoding_name == "custom" \
+                else register_solution.dict_attribute_to_type[self._encoding_name]
+            self._permutation_values = list(details.get('range', range(self.n)))
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
         # set objective handling stuff
+        if isinstance(objectives, str):
+            objectives = [objectives]
+        if objectives is None:
+            # the objectives of the problem, the search maximizes them.
+            default = get_default_objective_setup(problem)
+            objectives = default.objectives
+            if objective_weights is None:
+                sign = -1 if default.sense_function == ModeOptim.MINIMIZATION else 1
+                objective_weights = [sign*w for w in default.weights]
+            if objective_handling is None:
+                objective_handling = default.objective_handling
+        if objective_handling == ObjectiveHandling.MULTI_OBJ:
+            objective_handling = ObjectiveHandling.AGGREGATE
         if objective_handling is None:
             self._objective_handling = ObjectiveHandling.SINGLE
         else:
@@ -271,7 +291,8 @@ class Ga():
 
         if isinstance(self._mutation, Mutation):
             self._toolbox.register("mutate", generic_mutate_wrapper, problem=self.problem, encoding_name=self._encoding_variable_name, indpb=self._mut_rate,
-                                   solution_fn=self.problem.get_solution_type(), custom_mutation=mutation)
+                                   solution_fn=self.problem.get_solution_type(), custom_mutation=mutation,
+                                   values=self._permutation_values)
         elif isinstance(self._mutation, DeapMutation):
             if self._mutation == DeapMutation.MUT_FLIP_BIT:
                 self._toolbox.register("mutate", tools.mutFlipBit, indpb=self._mut_rate)  # Choice of mutation operator
@@ -282,11 +303,12 @@ class Ga():
                 # print('DEAP-GA - self.arrity: ', self.arrity)
 
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[a-1 for a in self.arrities],
+                                       indpb=self._mut_rate)
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
-            self._toolbox.register("select", tools.selTournament, tournsize=int(self._tournament_size*self._pop_size))
+            self._toolbox.register("select", tools.selTournament, tournsize=max(1, int(self._tournament_size*self._pop_size)))
         elif self._selection_type == DeapSelection.SEL_RANDOM:
             self._toolbox.register("select", tools.selRandom)
         elif self._selection_type == DeapSelection.SEL_BEST:
@@ -303,21 +325,28 @@ class Ga():
                                                        params_objective_function=
                                                        None)  # TODO: That should probably be set to somthing else than None.
 
+    def decode(self, individual):
+        if self._permutation_values is not None:
+            return [self._permutation_values[i] for i in individual]
+        return list(individual)
+
     def evaluate_problem(self, int_vector):
         # encoding_name = self._encoding_name
-        objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
+        objective_values = self.problem.evaluate_from_encoding(self.decode(int_vector), self._encoding_variable_name)
+        return (self.aggregate_objectives(objective_values),)
+
+    def aggregate_objectives(self, objective_values):
         if self._objective_handling == ObjectiveHandling.SINGLE:
-            if (self._objectives is None) or (self._objectives[0] not in list(objective_values.keys())):
-                default_key = list(objective_values.keys())[0]
-                val = self._objectives[0] * objective_values[default_key]
-            else:
-                val = objective_values[self._objectives[0]]
+            key = self._objectives[0]
+            if key not in objective_values:
+                key = list(objective_values.keys())[0]
+            val = self._objective_weights[0] * objective_values[key]
         elif self._objective_handling == 'aggregate':
             val = sum([objective_values[self._objectives[i]] * self._objective_weights[i]
                        for i in range(len(self._objectives))])
         elif self._objective_handling == ObjectiveHandling.AGGREGATE:
             val = sum([objective_values[self._objectives[i]] * self._objective_weights[i] for i in range(len(self._objectives))])
-        return (val,)
+        return val
 
     def solve(self, **kwargs):
         # Initialise the population (here at random)
@@ -349,9 +378,8 @@ class Ga():
 
         best_vector = hof[0]
 
-        s_pure_int = [i for i in best_vector]
-        kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
-        problem_sol = self.problem.get_solution_type()(**kwargs)
+        s_pure_int = self.decode(best_vector)
+        problem_sol = self.problem.build_solution_from_encoding(s_pure_int, self._encoding_variable_name)
 
         result_storage = ResultStorage(list_solution_fits=[(problem_sol,
                                                             self.aggreg_from_sol(problem_sol))],
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index ca6deed..1c27a51 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -1,5 +1,5 @@
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Problem, EncodingRegister, TypeAttribute, ObjectiveHandling, \
-    ParamsObjectiveFunction, ModeOptim, build_evaluate_function_aggregated
+    ParamsObjectiveFunction, ModeOptim, build_evaluate_function_aggregated, get_default_objective_setup
 from deap import creator, base, tools, algorithms
 import random
 from typing import Union, Optional, Any, Dict, List
@@ -46,6 +46,18 @@ class Nsga():
                                    TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapMutation.MUT_UNIFORM_INT,
                                    TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES}
         self._default_selection = DeapSelection.SEL_TOURNAMENT
+        if isinstance(objectives, str):
+            objectives = [objectives]
+        if objectives is None:
+            default = get_default_objective_setup(problem)
+            objectives = default.objectives
+            if objective_weights is None:
+                sign = -1 if default.sense_function == ModeOptim.MINIMIZATION else 1
+                objective_weights = [sign*w for w in default.weights]
+        if objective_weights is None or len(objective_weights) != len(objectives):
+            print('Objective weight issue: no weight given or size of weights and objectives lists mismatch. '
+                  'Setting all weights to default 1 value.')
+            objective_weights = [1 for i in range(len(objectives))]
         self.params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ,
                                                                  objectives=objectives,
                                                                  weights=objective_weights,
@@ -117,7 +129,7 @@ class Nsga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
@@ -146,7 +158,14 @@ class Nsga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
+
+        # permutations are handled as permutations of indexes, of the values they are made of.
+        self._permutation_values = None
+        if self._encoding_type == TypeAttribute.PERMUTATION:
+            details = encoding if self._encoding_name == "custom" \
+                else register_solution.dict_attribute_to_type[self._encoding_name]
+            self._permutation_values = list(details.get('range', range(self.n)))
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
@@ -154,12 +173,6 @@ class Nsga():
         self._objectives = objectives
         print('_objectives: ', self._objectives)
         self._objective_weights = objective_weights
-        if (self._objective_weights is None) \
-                or self._objective_weights is not None \
-                and(len(self._objective_weights) != len(self._objectives)):
-            print('Objective weight issue: no weight given or size of weights and objectives lists mismatch. '
-                  'Setting all weights to default 1 value.')
-            self._objective_weights = [1 for i in range(len(self._objectives))]
 
         if selection is None:
             self._selection_type = self._default_selection
@@ -237,7 +250,8 @@ class Nsga():
 
         if isinstance(self._mutation, Mutation):
             self._toolbox.register("mutate", generic_mutate_wrapper, problem=self.problem, encoding_name=self._encoding_variable_name, indpb=self._mut_rate,
-                                   solution_fn=self.problem.get_solution_type(), custom_mutation=mutation)
+                                   solution_fn=self.problem.get_solution_type(), custom_mutation=mutation,
+                                   values=self._permutation_values)
         elif isinstance(self._mutation, DeapMutation):
             if self._mutation == DeapMutation.MUT_FLIP_BIT:
                 self._toolbox.register("mutate", tools.mutFlipBit, indpb=self._mut_rate)  # Choice of mutation operator
@@ -245,13 +259,19 @@ class Nsga():
                 self._toolbox.register("mutate", tools.mutShuffleIndexes, indpb=self._mut_rate)  # Choice of mutation operator
             elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[a-1 for a in self.arrities],
+                                       indpb=self._mut_rate)
 
         # No choice of selection: In NSGA, only 1 selection: Non Dominated Sorted Selection
         self._toolbox.register("select", tools.selNSGA3, ref_points=ref_points)
 
+    def decode(self, individual):
+        if self._permutation_values is not None:
+            return [self._permutation_values[i] for i in individual]
+        return list(individual)
+
     def evaluate_problem(self, int_vector):
-        objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
+        objective_values = self.problem.evaluate_from_encoding(self.decode(int_vector), self._encoding_variable_name)
         # print('objective_values:', objective_values)
         # val = tuple([objective_values[obj_name] for obj_name in objective_values.keys()])
         val = tuple([objective_values[obj_name] for obj_name in self._objectives])
@@ -305,9 +325,8 @@ class Nsga():
 
         sols = []
         for s in pop:
-            s_pure_int = [i for i in s]
-            kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
-            problem_sol = self.problem.get_solution_type()(**kwargs)
+            s_pure_int = self.decode(s)
+            problem_sol = self.problem.build_solution_from_encoding(s_pure_int, self._encoding_variable_name)
             fits = self.evaluate_sol(problem_sol)
             #fits = TupleFitness(np.array(s.fitness.values), len(s.fitness.values))
             sols.append((problem_sol, fits))
diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 28c27fc..bcf84cb 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -51,7 +51,7 @@ class RCPSPSolution(Solution):
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
-                self.rcpsp_permutation = self.problem.fixed_permutation
+                self.rcpsp_permutation = deepcopy(self.problem.fixed_permutation)
             if self.rcpsp_schedule is not None:
                 self.standardised_permutation = self.generate_permutation_from_schedule()
                 self.rcpsp_permutation = deepcopy(self.standardised_permutation)
@@ -866,6 +866,16 @@ class MultiModeRCPSPModel(RCPSPModel):
         objectives = self.evaluate(rcpsp_sol)
         return objectives
 
+    # modes are numbered from 0 in the encoding, from 1 in solutions
+    def build_solution_from_encoding(self, int_vector, encoding_name):
+        if encoding_name == 'rcpsp_modes':
+            int_vector = [x+1 for x in int_vector]
+        return super().build_solution_from_encoding(int_vector, encoding_name)
+
+    def get_encoding_from_solution(self, variable, encoding_name):
+        vector = super().get_encoding_from_solution(variable, encoding_name)
+        return [x-1 for x in vector] if encoding_name == 'rcpsp_modes' else vector
+
     def copy(self):
         mm = MultiModeRCPSPModel(resources=self.resources,
                                  non_renewable_resources=self.non_renewable_resources,
-- 
2.43.0


From a30777d40d8b21c91ba06dc1810c16ab66ed2397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 066/146] fix: projects with uncertain durations keep their
 non-renewable resources, those with calendars know their quantities

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..0d6ae12 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -206,6 +206,15 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
     def _get_resource_types_names(self) -> List[str]:
         return self.resource_names
 
+    # contrary to what the parent class says, some resources may not be renewable
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        if self.resource_renewable is None:
+            return super()._get_resource_renewability()
+        return self.resource_renewable
+
+    def is_renewable(self, resource: str):
+        return self.get_resource_renewability()[resource]
+
     def __init__(self,
                  resource_names: List[str]=None,
                  task_ids: List[int]=None,
@@ -326,6 +335,8 @@ class SMRCPSPCalendar(D):
         self.successors = successors
         self.max_horizon = max_horizon
         self.resource_availability = resource_availability
+        self.original_resource_availability = {r: max(self.resource_availability[r])
+                                               for r in self.resource_availability}
         self.resource_renewable = resource_renewable
         self.duration_distribution = duration_distribution
         self.initialize_domain()
-- 
2.43.0


From c196d94efba2b80a81c16b40b1f1d32456820534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 067/146] fix: tasks which do not mention a resource need none
 of it when projects are handed to solvers

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 858a12b..446e5c2 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -38,7 +38,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -57,7 +57,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.sample_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -76,7 +76,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return MultiModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -95,7 +95,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
@@ -118,7 +118,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 skills = scheduling_domain.get_skills_of_task(task=task, mode=mode)
-- 
2.43.0


From 415c327543446c7fa170c18c7c1439398e68f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 068/146] fix: solvers of schedules leave the parameters they
 are given as they are

---
 skdecide/hub/solver/do_solver/do_solver_scheduling.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/do_solver_scheduling.py b/skdecide/hub/solver/do_solver/do_solver_scheduling.py
index 9e31b1e..bef15da 100644
--- a/skdecide/hub/solver/do_solver/do_solver_scheduling.py
+++ b/skdecide/hub/solver/do_solver/do_solver_scheduling.py
@@ -153,15 +153,14 @@ class DOSolver(Solver, DeterministicPolicies):
                                do_domain=self.do_domain)
         solver_class = solvers[0]
         key, params = solvers[1]
-        for k in params:
-            if k not in self.dict_params:
-                self.dict_params[k] = params[k]
-        self.solver = solver_class(self.do_domain, **self.dict_params)
+        # the defaults are those of this solver, another domain may need another one.
+        dict_params = {**params, **self.dict_params}
+        self.solver = solver_class(self.do_domain, **dict_params)
         try:
-            self.solver.init_model(**self.dict_params)
+            self.solver.init_model(**dict_params)
         except:
             pass
-        result_storage = self.solver.solve(**self.dict_params)
+        result_storage = self.solver.solve(**dict_params)
         best_solution: RCPSPSolution = result_storage.get_best_solution()
         fits = self.do_domain.evaluate(best_solution)
         print("Best solution fitness found : ", fits)
-- 
2.43.0


From dde9b0bfa0c1a0d6597754e1d61b8605b54c6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 069/146] fix: greedy schedules end when nothing fits any more,
 and need no calendar

---
 .../rcpsp/solver/rcpsp_pile.py                | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..68e87a5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -147,6 +147,9 @@ class PileSolverRCPSP(SolverDO):
                                        if all(self.mode_details[n][self.modes_dict[n]][r]
                                               <= current_ressource_available[r]
                                               for r in current_ressource_available)]
+            if len(queue) == 0:
+                # nothing is running, and nothing will ever fit
+                break
             current_time, activity, descr = pop(queue)
             for neighbor in current_pred:
                 if activity in current_pred[neighbor]["succs"]:
@@ -159,11 +162,15 @@ class PileSolverRCPSP(SolverDO):
                     current_ressource_available[r] += self.mode_details[activity][self.modes_dict[activity]][r]
         if verbose:
             print("Final Time ", current_time)
+        feasible = len(schedule) == self.n_jobs+2
+        if not feasible:
+            perm = perm+[n-2 for n in sorted(self.all_activities) if n not in schedule]
+            schedule[self.sink] = {"start_time": 99999999, "end_time": 9999999}
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
                             rcpsp_modes=[self.modes_dict[i+2] for i in range(self.n_jobs)],
-                            rcpsp_schedule_feasible=True)
+                            rcpsp_schedule_feasible=feasible)
         result_storage = ResultStorage(list_solution_fits=[(sol,
                                                             self.aggreg_from_sol(sol))],
                                        best_solution=sol,
@@ -238,13 +245,16 @@ class PileSolverRCPSP_Calendar(SolverDO):
                     if task in schedule:
                         schedule[task]["end_time"] = partial_solution.end_times[task]
 
-        current_ressource_available = {r: list(self.resources[r])+[self.resources[r][-1]]*100 for r in self.resources}
+        calendars = {r: list(self.resources[r]) if self.with_calendar else [self.resources[r]] for r in self.resources}
+        # after the end of its calendar, a resource stays as it is.
+        length = max([0]+[len(calendars[r]) for r in calendars]) \
+            + sum(self.mode_details[n][self.modes_dict[n]]["duration"] for n in self.all_activities)
+        current_ressource_available = {r: calendars[r]+[calendars[r][-1]]*(length-len(calendars[r])) for r in calendars}
         # if self.with_calendar:
         #    current_ressource_available = {r: current_ressource_available[r][0]
         #                                   for r in current_ressource_available}
 
-        current_ressource_non_renewable = {nr: list(self.resources[nr])+[self.resources[nr][-1]]*100
-                                           for nr in self.non_renewable}
+        current_ressource_non_renewable = {nr: list(current_ressource_available[nr]) for nr in self.non_renewable}
         # if self.with_calendar:
         #     current_ressource_non_renewable = {r: current_ressource_non_renewable[r][0]
         #                                        for r in current_ressource_non_renewable}
@@ -340,7 +350,7 @@ class PileSolverRCPSP_Calendar(SolverDO):
                                               for r in current_ressource_available
                                               for time in range(current_time,
                                                                 current_time
-                                                                + self.mode_details[n][self.modes_dict[n]]["duration"]+1))]
+                                                                + self.mode_details[n][self.modes_dict[n]]["duration"]))]
             if len(queue) > 0:
                 current_time, activity, descr = pop(queue)
                 for neighbor in current_pred:
@@ -349,16 +359,23 @@ class PileSolverRCPSP_Calendar(SolverDO):
                         current_pred[neighbor]["nb"] -= 1
                         if current_pred[neighbor]["nb"] == 0:
                             available_activities.add(neighbor)
+            elif current_time > length:
+                # nothing is running, and nothing will ever fit
+                break
             else:
                 current_time += 1
         if verbose:
             print("Final Time ", current_time)
         # print("Final Time ", current_time)
+        feasible = len(schedule) == self.n_jobs+2
+        if not feasible:
+            perm = perm+[n-2 for n in sorted(self.all_activities) if n not in schedule]
+            schedule[self.sink] = {"start_time": 99999999, "end_time": 9999999}
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
                             rcpsp_modes=[self.modes_dict[i+2] for i in range(self.n_jobs)],
-                            rcpsp_schedule_feasible=True)
+                            rcpsp_schedule_feasible=feasible)
         result_storage = ResultStorage(list_solution_fits=[(sol,
                                                             self.aggreg_from_sol(sol))],
                                        best_solution=sol,
-- 
2.43.0


From ba83c9fa840cd20f5d5e930622400f759bd40abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 070/146] fix: multi-skill schedules follow their vectors, take
 nobody for nothing and keep the calendars they are given

---
 .../rcpsp_multiskill/rcpsp_multiskill.py      | 131 ++++++++++++------
 1 file changed, 87 insertions(+), 44 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..b4d5172 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -88,20 +88,34 @@ class MS_RCPSPSolution_Variant(MS_RCPSPSolution):
             self.priority_worker_per_task = self.problem.convert_fixed_priority_worker_per_task_from_permutation(priority_worker_per_task)
 
         if self.modes_vector is None and self.modes_vector_from0 is None:
-            self.modes_vector = self.problem.fixed_modes
-            self.modes_vector_from0 = [x-1 for x in self.problem.fixed_modes]
+            self.modes_vector = deepcopy(self.problem.fixed_modes)
         if self.modes_vector is None and self.modes_vector_from0 is not None:
             self.modes_vector = [x+1 for x in self.modes_vector_from0]
         if self.modes_vector_from0 is None:
             self.modes_vector_from0 = [x-1 for x in self.modes_vector]
         if self.priority_list_task is None:
-            self.priority_list_task = self.problem.fixed_permutation
+            self.priority_list_task = deepcopy(self.problem.fixed_permutation)
         if self.priority_worker_per_task is None:
-            self.priority_worker_per_task = self.problem.fixed_priority_worker_per_task
-        self._schedule_to_recompute = True
+            self.priority_worker_per_task = deepcopy(self.problem.fixed_priority_worker_per_task)
+        # a given schedule is taken as it is.
+        self._schedule_to_recompute = False
         if self.schedule is None:
             self.do_recompute()
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key in {"modes_vector", "modes_vector_from0", "priority_list_task", "priority_worker_per_task"}:
+            self._schedule_to_recompute = True
+        # the two vectors of modes say the same.
+        if value is not None and key == "modes_vector":
+            super().__setattr__("modes_vector_from0", [x-1 for x in value])
+        elif value is not None and key == "modes_vector_from0":
+            super().__setattr__("modes_vector", [x+1 for x in value])
+
+    def change_problem(self, new_problem: Problem):
+        self.problem = new_problem
+        self._schedule_to_recompute = True
+
     def do_recompute(self):
         rcpsp_schedule, modes_extended, employee_usage, modes_dict = sgs_multi_skill(solution=self)
         self.schedule = rcpsp_schedule
@@ -110,13 +124,15 @@ class MS_RCPSPSolution_Variant(MS_RCPSPSolution):
         self._schedule_to_recompute = False
 
     def copy(self):
-        return MS_RCPSPSolution_Variant(problem=self.problem,
-                                        priority_list_task=deepcopy(self.priority_list_task),
-                                        modes_vector=deepcopy(self.modes_vector),
-                                        priority_worker_per_task=deepcopy(self.priority_worker_per_task),
-                                        modes=deepcopy(self.modes),
-                                        schedule=deepcopy(self.schedule),
-                                        employee_usage=deepcopy(self.employee_usage))
+        sol = MS_RCPSPSolution_Variant(problem=self.problem,
+                                       priority_list_task=deepcopy(self.priority_list_task),
+                                       modes_vector=deepcopy(self.modes_vector),
+                                       priority_worker_per_task=deepcopy(self.priority_worker_per_task),
+                                       modes=deepcopy(self.modes),
+                                       schedule=deepcopy(self.schedule),
+                                       employee_usage=deepcopy(self.employee_usage))
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
 
 def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
@@ -131,7 +147,8 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     # 1, 2
     resource_avail_in_time = {}
     for res in problem.resources_set:
-        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
+        # (slices of arrays are no copies)
+        resource_avail_in_time[res] = list(problem.resources_availability[res][:new_horizon + 1])
     worker_avail_in_time = {}
     for i in problem.employees:
         worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
@@ -147,13 +164,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
@@ -222,7 +239,6 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                            else:
                                good = True
                                ws += [worker]
-                               break
                        valid = good
                        if good:
                            worker_ids = ws
@@ -258,7 +274,8 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                 worker_used = []
                 current_skills = {s: 0. for s in required_skills}
                 for w in priority_list_this_task:
-                    if w in worker_ids:
+                    # people who have nothing to contribute remain free.
+                    if w in worker_ids and any(s in problem.employees[w].dict_skill for s in required_skills):
                         worker_used += [w]
                         for s in problem.employees[w].dict_skill:
                             if s in current_skills:
@@ -334,7 +351,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
@@ -402,7 +420,7 @@ class MS_RCPSPModel(Problem):
         # put skills as ressource.
         from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar
         if len(self.resources_list) == 0:
-            skills_availability = {s: [0] * int(self.horizon)
+            skills_availability = {s: [0] * (int(self.horizon)*int(self.horizon_multiplier)+1)
                                    for s in self.skills_set}
         else:
             skills_availability = {s: [0]*len(self.resources_availability[self.resources_list[0]])
@@ -412,8 +430,8 @@ class MS_RCPSPModel(Problem):
                 if self.employees[emp].calendar_employee[min(j,
                                                              len(self.employees[emp].calendar_employee)-1)]:
                     for s in self.employees[emp].dict_skill:
-                        skills_availability[s][min(j,
-                                                   len(skills_availability[s])-1)] += self.employees[emp].dict_skill[s].skill_value
+                        if j < len(skills_availability[s]):
+                            skills_availability[s][j] += self.employees[emp].dict_skill[s].skill_value
         res_availability = deepcopy(self.resources_availability)
         for s in skills_availability:
             res_availability[s] = [int(x) for x in skills_availability[s]]
@@ -479,8 +497,9 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
+                                      if skill in rcpsp_sol.employee_usage[task][emp]
+                                      and skill in self.employees[emp].dict_skill]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
@@ -490,6 +509,11 @@ class MS_RCPSPModel(Problem):
                 # employee available at this time
                 if len(employee_used) > 0:
                     for e in employee_used:
+                        if any(s not in self.employees[e].dict_skill for s in rcpsp_sol.employee_usage[task][e]):
+                            print("Task : ", task, " employee : ", e, " does not have the skills")
+                            return False
+                        if rcpsp_sol.schedule[task]["end_time"] > len(self.employees[e].calendar_employee):
+                            return False
                         if not all(self.employees[e].calendar_employee[t]
                                    for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                   rcpsp_sol.schedule[task]["end_time"])):
@@ -512,8 +536,12 @@ class MS_RCPSPModel(Problem):
                 print("Worker working on 2 task the same time")
                 return False
         # ressource usage respected
-        makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
-        for t in range(makespan):
+        if any(rcpsp_sol.schedule[task]['end_time'] < rcpsp_sol.schedule[task]['start_time'] for task in self.tasks):
+            print('Task which could not be scheduled')
+            return False
+        last_use = max([rcpsp_sol.schedule[task]['end_time'] for task in self.tasks
+                        if rcpsp_sol.schedule[task]['end_time'] > rcpsp_sol.schedule[task]['start_time']], default=0)
+        for t in range(last_use):
             resource_usage = {}
             for res in self.resources_set:
                 resource_usage[res] = 0
@@ -530,10 +558,11 @@ class MS_RCPSPModel(Problem):
                         # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                         resource_usage[res] += self.mode_details[act_id][mode][res]
             for res in self.resources_set:
-                if resource_usage[res] > self.resources_availability[res][t]:
+                # nothing is there after the end of a calendar.
+                available = self.resources_availability[res][t] if t < len(self.resources_availability[res]) else 0
+                if resource_usage[res] > available:
                     print('Time step resource violation: time: ', t, 'res', res,
-                          'res_usage: ', resource_usage[res], 'res_avail: ',
-                          self.resources_availability[res][t])
+                          'res_usage: ', resource_usage[res], 'res_avail: ', available)
                     print('3')
                     return False
 
@@ -593,7 +622,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +638,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,11 +673,21 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
 
+    def copy(self):
+        model = self.to_variant_model()
+        model.fixed_modes = deepcopy(self.fixed_modes)
+        model.fixed_permutation = deepcopy(self.fixed_permutation)
+        model.fixed_priority_worker_per_task = deepcopy(self.fixed_priority_worker_per_task)
+        return model
+
     def get_attribute_register(self) -> EncodingRegister:
         dict_register = {}
         max_number_modes = max([len(list(self.mode_details[x].keys())) for x in self.mode_details.keys()])
@@ -690,21 +734,25 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                                                                   for i in range(self.n_jobs_non_dummy)])
 
     def evaluate_function(self, rcpsp_sol: MS_RCPSPSolution_Variant):
-        try:
-            if rcpsp_sol._schedule_to_recompute:
-                rcpsp_sol.do_recompute()
-        except:
-            pass
+        self.update_schedule(rcpsp_sol)
         return super().evaluate_function(rcpsp_sol)
 
+    def satisfy(self, rcpsp_sol: MS_RCPSPSolution_Variant):
+        self.update_schedule(rcpsp_sol)
+        return super().satisfy(rcpsp_sol)
+
+    def update_schedule(self, rcpsp_sol: MS_RCPSPSolution):
+        # solutions which are no variants have their schedule only.
+        if getattr(rcpsp_sol, "_schedule_to_recompute", False):
+            rcpsp_sol.do_recompute()
+
     def set_fixed_attributes(self, encoding_str: str, sol: MS_RCPSPSolution_Variant):
         att = self.get_attribute_register().dict_attribute_to_type[encoding_str]['name']
         if att == 'modes_vector':
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
-            self.set_fixed_modes(modes_corrected)
+            self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
             self.set_fixed_priority_worker_per_task(sol.priority_worker_per_task)
@@ -731,7 +779,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            employees = list(self.employees.keys())
+            tmp_corrected = [employees[int(x)-1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -759,13 +808,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From d91ce8f634ccbf6b01ee92ba5dd03d7b503cee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 071/146] fix: tasks shifted to the left after a search respect
 resources

---
 .../solvers/lns_post_process_rcpsp.py           | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
index c5da336..356fbfe 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
@@ -52,7 +52,7 @@ def sgs_variant(solution: MS_RCPSPSolution,
     resource_avail_in_time = {}
     new_horizon = problem.horizon
     for res in problem.resources_set:
-        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
+        resource_avail_in_time[res] = list(problem.resources_availability[res][:new_horizon + 1])
     worker_avail_in_time = {}
     for i in problem.employees:
         worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
@@ -70,11 +70,18 @@ def sgs_variant(solution: MS_RCPSPSolution,
         else:
             min_time = 0
         new_starting_time = solution.schedule[task]["start_time"]
+        # non-renewable resources are needed whenever the task is done.
+        needs = {res: problem.mode_details[task][solution.modes[task]].get(res, 0)
+                 for res in problem.resources_set if res not in problem.non_renewable_resources}
         for t in range(min_time, solution.schedule[task]["start_time"]+1):
             if all(all(worker_avail_in_time[emp][time]
                        for time in range(t,
                                          t+ solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]))
-                   for emp in employee_used):
+                   for emp in employee_used) \
+                    and all(resource_avail_in_time[res][time] >= needs[res]
+                            for res in needs
+                            for time in range(t, t + solution.schedule[task]["end_time"]
+                                              - solution.schedule[task]["start_time"])):
                 new_starting_time = t
                 break
         duration = solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]
@@ -83,10 +90,12 @@ def sgs_variant(solution: MS_RCPSPSolution,
         for t in range(new_starting_time, new_starting_time+duration):
             for emp in employee_used:
                 worker_avail_in_time[emp][t] = False
+            for res in needs:
+                resource_avail_in_time[res][t] -= needs[res]
     new_solution = MS_RCPSPSolution(problem=problem,
-                                    modes=solution.modes,
+                                    modes=deepcopy(solution.modes),
                                     schedule=new_proposed_schedule,
-                                    employee_usage=solution.employee_usage)
+                                    employee_usage=deepcopy(solution.employee_usage))
     #print("New : ", problem.evaluate(new_solution), problem.satisfy(new_solution))
     #print("Old : ", problem.evaluate(solution), problem.satisfy(solution))
     return new_solution
-- 
2.43.0


From a53de6faa14db4c7d22621ab1de41fa94eebd9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 072/146] fix: skills nobody has are still required when
 projects are handed to solvers

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 446e5c2..f78f4f2 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -142,7 +142,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
                                                                                                          time=t))
                                                             for t in range(horizon+1)])
 
-        return MS_RCPSPModel_Variant(skills_set=scheduling_domain.get_skills_names(),
+        return MS_RCPSPModel_Variant(skills_set=skills_set | set(scheduling_domain.get_skills_names()),
                                      resources_set=set(scheduling_domain.get_resource_types_names()),
                                      non_renewable_resources=set([r
                                                                   for r in scheduling_domain.get_resource_renewability()
-- 
2.43.0


From 63b741a2fe32efe79714040e8fed9be23b7f0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 073/146] fix: greedy schedules which end after the horizon are
 not feasible

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 68e87a5..b8dd745 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -166,6 +166,8 @@ class PileSolverRCPSP(SolverDO):
         if not feasible:
             perm = perm+[n-2 for n in sorted(self.all_activities) if n not in schedule]
             schedule[self.sink] = {"start_time": 99999999, "end_time": 9999999}
+        # and it must be done in the horizon
+        feasible = feasible and schedule[self.sink]["end_time"] <= self.rcpsp_model.horizon*self.rcpsp_model.horizon_multiplier
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
@@ -371,6 +373,8 @@ class PileSolverRCPSP_Calendar(SolverDO):
         if not feasible:
             perm = perm+[n-2 for n in sorted(self.all_activities) if n not in schedule]
             schedule[self.sink] = {"start_time": 99999999, "end_time": 9999999}
+        # and it must be done in the horizon
+        feasible = feasible and schedule[self.sink]["end_time"] <= self.rcpsp_model.horizon*self.rcpsp_model.horizon_multiplier
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-- 
2.43.0


From 3b6162dd05414c7034395172683806423110ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 074/146] fix: build the vehicle routing graph with the
 function networkx still has

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index d7c1ae1..be765ea 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From 964db8427ea3701c1604ae0fb97720de3987e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 075/146] fix: greedy knapsack solvers skip items heavier than
 the capacity

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..e3af871 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,7 +26,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
             taken[sorted_per_density[i].index] = 1
             value += sorted_per_density[i].value
-- 
2.43.0


From 03cc255d65cbe43c55217f940bd33c20680ef350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 076/146] fix: knapsack items may have no weight

---
 .../knapsack/solvers/dyn_prog_knapsack.py             |  6 +++---
 .../knapsack/solvers/greedy_solvers.py                | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..8487f85 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -1,7 +1,7 @@
 import numpy as np
 from skdecide.builders.discrete_optimization.generic_tools.do_solver import SolverDO
 from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Item, KnapsackModel, KnapsackSolution
-from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import GreedyBest
+from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import GreedyBest, density
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import build_aggreg_function_and_params_objective, \
     ParamsObjectiveFunction
 from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
@@ -36,7 +36,7 @@ class KnapsackDynProg(SolverDO):
         if start_by_most_promising:
             promising = sorted([l for l in self.knapsack_model.list_items 
                                 if l.weight <= self.knapsack_model.max_capacity], 
-                                key=lambda x: x.value/x.weight, 
+                                key=density, 
                                 reverse=True)
             index_promising = [l.index for l in promising]
         else:
@@ -97,7 +97,7 @@ class KnapsackDynProg(SolverDO):
         if start_by_most_promising:
             promising = sorted([l for l in self.knapsack_model.list_items 
                                 if l.weight <= self.knapsack_model.max_capacity], 
-                                key=lambda x: x.value/x.weight, 
+                                key=density, 
                                 reverse=True)
             index_promising = [l.index for l in promising]
         else:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index e3af871..7e63523 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -4,17 +4,24 @@ from skdecide.builders.discrete_optimization.generic_tools.do_problem import bui
     ParamsObjectiveFunction
 
 
+def density(item):
+    # an item without weight can always be taken when it is worth something.
+    if item.weight == 0:
+        return float("inf") if item.value > 0 else 0.
+    return item.value/item.weight
+
+
 def compute_density(knapsack_model: KnapsackModel):
     dd = sorted([l for l in knapsack_model.list_items 
                  if l.weight<=knapsack_model.max_capacity], 
-                key=lambda x: x.value/x.weight, 
+                key=density, 
                 reverse=True)
     return dd
 
 
 def compute_density_and_penalty(knapsack_model: KnapsackModel):
     dd = sorted([l for l in knapsack_model.list_items  if l.weight<=knapsack_model.max_capacity], 
-                key=lambda x: x.value/x.weight-x.weight, 
+                key=lambda x: density(x)-x.weight, 
                 reverse=True)
     return dd
 
-- 
2.43.0


From 5ed21f08b03ca9e65844edd23bb70d37a66d5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 077/146] fix: greedy and dynamic programming knapsack solvers
 mark items by their position

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 8487f85..5bf7637 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -126,7 +126,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index 7e63523..66abb5a 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -35,7 +35,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     sorted_per_density = method_queue(knapsack_model)
     for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From 3bb59f3aa89bcb6478627b84e07e342dc4ea753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 078/146] fix: knapsack dynamic programming goes through the
 items it kept

---
 .../knapsack/solvers/dyn_prog_knapsack.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 5bf7637..930b7f9 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -26,7 +26,6 @@ class KnapsackDynProg(SolverDO):
         start_by_most_promising = args.get('greedy_start', False)
         stop_after_n_item = args.get('stop_after_n_item', False)
         max_items = args.get('max_items', self.knapsack_model.nb_items+1)
-        max_items = min(self.knapsack_model.nb_items+1, max_items)
         max_time_seconds = args.get('max_time_seconds', None)
         verbose = args.get('verbose', False)
         if max_time_seconds is None:
@@ -41,6 +40,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -102,6 +102,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-- 
2.43.0


From e262ad72031530f12cc8106c88b8a9fa17fdeeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 079/146] fix: vectorised knapsack dynamic programming only
 takes items which fit

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 930b7f9..0e8b203 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -114,8 +114,8 @@ class KnapsackDynProg(SolverDO):
             weight = self.knapsack_model.list_items[index_item].weight
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
-            ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            left = np.arange(self.capacity+1)-weight
+            vec_2 = np.where(left >= 0, vec_1[np.maximum(left, 0)]+value, vec_1)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
-- 
2.43.0


From 14493961fb77697b44cbffaec5c83ebeac2d098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 080/146] fix: knapsack integer programs return the items taken
 in the order of the items

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..2db7ba7 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 06011b25f1dfc40c98a465a9cad1173b86b0676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 081/146] fix: the saturation colouring strategy has the name
 networkx gives it

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From e55b478fc213631479f910bc28263545365be513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 082/146] fix: colouring integer programs constrain nodes by
 their name

---
 .../coloring/solvers/coloring_lp_solvers.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..e4ba15c 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -52,7 +52,7 @@ class ColoringLP(MilpSolver):
         nb_colors = self.start_solution.nb_color
         color_model = Model("color")
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -171,7 +171,7 @@ class ColoringLP_MIP(ColoringLP):
                                 sense=mip.MINIMIZE,
                                 solver_name=self.solver_name)
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
-- 
2.43.0


From 095d67c79daf10f0a0269e088c1bd05ec91c1906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 083/146] fix: exact solvers whose back end found nothing
 return no solution

---
 .../coloring/solvers/coloring_lp_solvers.py                    | 2 ++
 .../facility/solvers/facility_lp_solver.py                     | 3 +++
 .../discrete_optimization/knapsack/solvers/lp_solvers.py       | 2 +-
 .../discrete_optimization/vrp/solver/solver_ortools.py         | 3 +++
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index e4ba15c..8b64b6d 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -224,6 +224,8 @@ class ColoringLP_MIP(ColoringLP):
         self.description_constraint["constraints_neighbors"] = {"descr": "no neighbors can have same color"}
 
     def retrieve_solutions(self, parameters_milp: ParametersMilp) -> ResultStorage:
+        if self.model.num_solutions == 0:
+            return ResultStorage(list_solution_fits=[], mode_optim=self.sense_optim)
         solution = [0] * self.number_of_nodes
         for key in self.variable_decision["colors_var"]:
             value = self.variable_decision["colors_var"][key].x
diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..f696a07 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -483,6 +483,9 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
         return self.retrieve_solutions(parameters_milp)
 
     def retrieve_solutions(self, parameters_milp: ParametersMilp) -> ResultStorage:
+        if self.model.num_solutions == 0:
+            return ResultStorage(list_solution_fits=[],
+                                 mode_optim=self.params_objective_function.sense_function)
         solution = [0] * self.facility_problem.customer_count
         for key in self.variable_decision["x"]:
             try:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 2db7ba7..bc4367e 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -324,7 +324,7 @@ class LPKnapsack(MilpSolver):
         if parameters_milp.retrieve_all_solution:
             solutions = self.retrieve_solutions(list(range(nSolutions)))
         else:
-            solutions = self.retrieve_solutions([0])
+            solutions = self.retrieve_solutions(list(range(min(1, nSolutions))))
         return solutions
 
     def solve_lns(self,
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index 50a137e..9ffa540 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -221,6 +221,9 @@ class VrpORToolsSolver(SolverDO):
         print("Solving")
         solution = self.routing.SolveWithParameters(self.search_parameters)
         print(solution)
+        if solution is None:
+            return ResultStorage(list_solution_fits=[],
+                                 mode_optim=self.params_objective_function.sense_function)
         variable_vrp = self.retrieve(solution)
         fit = self.aggreg_sol(variable_vrp)
         return ResultStorage(list_solution_fits=[(variable_vrp, fit)],
-- 
2.43.0


From ea265f2f8fc51b27187740e93f7502bb094e0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 084/146] fix: greedy facility location looks for room in every
 facility

---
 .../facility/solvers/greedy_solvers.py             | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
index 754caa2..2bfcccc 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
@@ -26,10 +26,16 @@ class GreedySolverFacility(SolverDO):
                 solution[index] = facility_index
                 capacity_remaining[facility_index] -= customer.demand
             else:
-                facility_index += 1
-                assert capacity_remaining[facility_index] >= customer.demand
-                solution[index] = facility_index
-                capacity_remaining[facility_index] -= customer.demand
+                nb_facilities = self.facility_problem.facility_count
+                others = list(range(facility_index+1, nb_facilities))+list(range(facility_index))
+                chosen = next((i for i in others if capacity_remaining[i] >= customer.demand), None)
+                if chosen is None:
+                    # no room is left anywhere: exceed where it is the least, the evaluation penalizes it.
+                    chosen = max(range(nb_facilities), key=lambda i: capacity_remaining[i])
+                else:
+                    facility_index = max(facility_index, chosen)
+                solution[index] = chosen
+                capacity_remaining[chosen] -= customer.demand
         sol = FacilitySolution(problem=self.facility_problem,
                                facility_for_customers=solution)
         fit = self.aggreg_sol(sol)
-- 
2.43.0


From fc0325afd4674d8e3730f533c8ada99a7466fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 085/146] fix: the iterative travelling salesman program only
 cuts tours which are not whole

---
 .../discrete_optimization/tsp/solver/solver_lp_iterative.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
index c7f3c51..1ff4038 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
@@ -342,10 +342,10 @@ class LP_TSP_Iterative(SolverDO):
                 edge_in_of_interest = [e for e in self.edges if e[1] in s[0] and e[0] not in s[0]]
                 edge_out_of_interest = [e for e in self.edges if e[0] in s[0] and e[1] not in s[0]]
                 # if i <= len(sorted_connected_component)//2:
-                if self.method == MILPSolver.GUROBI:
+                if self.method == MILPSolver.GUROBI and nb_component > 1:
                     tsp_model.addConstr(quicksum([x_var[e] for e in edge_in_of_interest]) >= 1)
                     tsp_model.addConstr(quicksum([x_var[e] for e in edge_out_of_interest]) >= 1)
-                if self.method == MILPSolver.CBC:
+                if self.method == MILPSolver.CBC and nb_component > 1:
                     tsp_model.Add(tsp_model.Sum([x_var[e] for e in edge_in_of_interest]) >= 1)
                     tsp_model.Add(tsp_model.Sum([x_var[e] for e in edge_out_of_interest]) >= 1)
             print(len(node_to_component), self.node_count)
-- 
2.43.0


From 24725dca447bf02270abb2ea675e1b4d4727b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 086/146] fix: the iterative travelling salesman program stops
 when its back end found nothing

---
 .../discrete_optimization/tsp/solver/solver_lp_iterative.py  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
index 1ff4038..d231b5b 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
@@ -305,6 +305,9 @@ class LP_TSP_Iterative(SolverDO):
             resdict = {0: 'OPTIMAL', 1: 'FEASIBLE', 2: 'INFEASIBLE', 3: 'UNBOUNDED',
                     4: 'ABNORMAL', 5: 'MODEL_INVALID', 6: 'NOT_SOLVED'}
             print('Result :', resdict[res])
+            if res not in (0, 1):
+                return ResultStorage(list_solution_fits=[],
+                                     mode_optim=self.params_objective_function.sense_function)
             objective = self.model.Objective().Value()
         finished = False
         solutions = []
@@ -394,7 +397,7 @@ class LP_TSP_Iterative(SolverDO):
                     tsp_model.update()
                     tsp_model.optimize()
                 if self.method == MILPSolver.CBC:
-                    tsp_model.Solve()
+                    finished = tsp_model.Solve() not in (0, 1)
                 iteration += 1
             else:
                 finished = True
-- 
2.43.0


From 26d85d7e2f78f95ccf45a191548e8348aec53af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 087/146] fix: travelling salesman routes are compared by
 distances which are not truncated

---
 .../builders/discrete_optimization/tsp/solver/solver_ortools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 83e7816..41a6855 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-- 
2.43.0


From 7aeec8e95fdac2f3fb6b70eb857f286840999fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 088/146] fix: large neighbourhood search over knapsacks finds
 items by their index

---
 .../knapsack/solvers/knapsack_lns_solver.py            | 10 ++++++----
 .../knapsack/solvers/lp_solvers.py                     | 10 +++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..17b0d03 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -53,15 +53,17 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         dict_f_fixed = {}
         dict_f_start = {}
         start = []
-        for c in range(self.problem.nb_items):
-            dict_f_start[c] = current_solution.list_taken[c]
-            if c in subpart_item:
+        for i in range(self.problem.nb_items):
+            # the decision variables are those of the items' indexes.
+            c = self.problem.list_items[i].index
+            dict_f_start[c] = current_solution.list_taken[i]
+            if i in subpart_item:
                 dict_f_fixed[c] = dict_f_start[c]
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
             start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
+            if key in dict_f_fixed:
                 lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index bc4367e..2a026aa 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
-- 
2.43.0


From d8fd089758bbc7bfc31c35fa9297ff2eb79f883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 089/146] fix: critical paths go through predecessors which end
 when the next task starts

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..ab0c464 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -112,10 +112,11 @@ class CPM(SolverDO):
 
         critical_path = [self.sink]
         cur_node = self.sink
-        while cur_node is not self.source:
+        while cur_node != self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From 1c40b594ccdf6d28fe10184227309b59473090d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 090/146] fix: schedules made time by time need the resources
 as long as tasks last

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index ab0c464..e94bd6d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -327,9 +327,9 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
+                                        break
+                                if not valid:
                                     break
-                            if not valid:
-                                break
                         if valid:
                             current_schedule[j] = {"start_time": time,
                                                    "end_time": time+duration}
-- 
2.43.0


From 6f7f87cddb3014c219b89837693e5452e8894ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 091/146] fix: partial solutions have the relations between
 starts which solvers read

---
 .../discrete_optimization/rcpsp/rcpsp_model.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index bcf84cb..86545cf 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -468,7 +468,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -476,6 +480,11 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_at_end = start_at_end  # (t1, t2): t2 starts when t1 ends
+        self.start_together = start_together  # (t1, t2): t1 and t2 start together
+        self.start_after_nunit = start_after_nunit  # (t1, t2, delta): t2 starts delta after the start of t1, or later
+        # (t1, t2, delta): t2 starts delta after the end of t1, or later
+        self.start_at_end_plus_offset = start_at_end_plus_offset
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From 75cfef7c273a41485d6c1e566caf77214804d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 092/146] fix: constraint handlers of scheduling programs
 sample tasks from a list

---
 .../rcpsp/solver/rcpsp_lp_lns_solver.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index c63b245..b5ff15a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -115,7 +115,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         milp_solver.model.start = start
 
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -169,7 +169,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -229,7 +229,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -291,7 +291,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
-- 
2.43.0


From 00acf4d0986bf4af32e4b604a4d94ca1ebbb4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 093/146] fix: scheduling programs have enough time steps when
 their start solution is not feasible

---
 .../rcpsp/solver/rcpsp_lp_lns_solver.py       |  4 ++--
 .../rcpsp/solver/rcpsp_lp_solver.py           | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index b5ff15a..86f0f48 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -106,7 +106,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         # Starting point :
         start = []
         for j in milp_solver.J:
-            start_time_j = current_solution.rcpsp_schedule[j+1]["start_time"]
+            start_time_j = current_solution.rcpsp_schedule.get(j+1, {}).get("start_time")
             for t in milp_solver.T:
                 if start_time_j == t:
                     start += [(milp_solver.x[j][t], 1)]
@@ -156,7 +156,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         # Starting point :
         start = []
         for j in milp_solver.J:
-            start_time_j = current_solution.rcpsp_schedule[j+1]["start_time"]
+            start_time_j = current_solution.rcpsp_schedule.get(j+1, {}).get("start_time")
             for t in milp_solver.T:
                 if start_time_j == t:
                     start += [(milp_solver.x[j][t], 1)]
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..c44cb63 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -93,9 +93,10 @@ class LP_RCPSP(MilpSolver):
             for suc in self.rcpsp_model.successors[task]:
                 S.append([task-1, suc-1])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(min(sum(p), self.rcpsp_model.horizon)+1))
         # we have a better self.T to limit the number of variables :
-        self.T = range(int(makespan+1))
+        if self.start_solution.rcpsp_schedule_feasible:
+            self.T = range(int(makespan+1))
         # model = Model()
         self.model = Model(sense=MINIMIZE,
                            solver_name=self.lp_solver)
@@ -119,7 +120,7 @@ class LP_RCPSP(MilpSolver):
         start = []
         for j in self.J:
             for t in self.T:
-                if self.start_solution.rcpsp_schedule[j+1]["start_time"] == t:
+                if self.start_solution.rcpsp_schedule.get(j+1, {}).get("start_time") == t:
                     start += [(self.x[j][t], 1)]
                 else:
                     start += [(self.x[j][t], 0)]
@@ -147,7 +148,7 @@ class LP_RCPSP(MilpSolver):
             self.starts = {}
             for j in range(len(self.x)):
                 self.starts[j] = self.model.add_var(name="start_" + str(j),
-                                                    lb=0, ub=makespan)
+                                                    lb=0, ub=self.T[-1])
                 self.model.add_constr(xsum(t * self.x[j][t] for t in self.T) == self.starts[j])
             if p_s.start_at_end is not None:
                 for i, j in p_s.start_at_end:
@@ -269,7 +270,10 @@ class LP_MRCPSP(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        # with calendars, tasks may have to wait for resources.
+        max_makespan = self.rcpsp_model.horizon if isinstance(self.rcpsp_model, RCPSPModelCalendar) \
+            else min(sum(p), self.rcpsp_model.horizon)
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(max_makespan+1))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = range(int(makespan+1))
@@ -473,7 +477,10 @@ class LP_MRCPSP_GUROBI(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(sum(p))))
+        # with calendars, tasks may have to wait for resources.
+        max_makespan = self.rcpsp_model.horizon if isinstance(self.rcpsp_model, RCPSPModelCalendar) \
+            else min(sum(p), self.rcpsp_model.horizon)
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(max_makespan+1)))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = list(range(int(makespan+1)))
-- 
2.43.0


From 571ae46e6ad202b96d3da847f0ef0581616477a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 094/146] fix: scheduling programs return their best solution,
 or none when there is none

---
 .../rcpsp/solver/rcpsp_lp_solver.py           | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index c44cb63..333c0d6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -169,7 +169,7 @@ class LP_RCPSP(MilpSolver):
         nb_solutions_max = parameters_milp.n_solutions_max
         nb_solution = min(nb_solutions_max, self.model.num_solutions)
         if not retrieve_all_solution:
-            nb_solution = 1
+            nb_solution = min(nb_solution, 1)
         list_solution_fits = []
         print(nb_solution, " solutions found")
         for s in range(nb_solution):
@@ -190,10 +190,10 @@ class LP_RCPSP(MilpSolver):
             except:
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
-        return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
-                             mode_optim=self.params_objective_function.sense_function)
+        result_storage = ResultStorage(list_solution_fits=list_solution_fits,
+                                       mode_optim=self.params_objective_function.sense_function)
+        result_storage.best_solution = result_storage.get_best_solution()
+        return result_storage
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
@@ -367,7 +367,7 @@ class LP_MRCPSP(MilpSolver):
         nb_solutions_max = parameters_milp.n_solutions_max
         nb_solution = min(nb_solutions_max, self.model.num_solutions)
         if not retrieve_all_solution:
-            nb_solution = 1
+            nb_solution = min(nb_solution, 1)
         list_solution_fits = []
         print(nb_solution, " solutions found")
         for s in range(nb_solution):
@@ -393,10 +393,10 @@ class LP_MRCPSP(MilpSolver):
                 list_solution_fits += [(solution, fit)]
             except:
                 pass
-        return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
-                             mode_optim=self.params_objective_function.sense_function)
+        result_storage = ResultStorage(list_solution_fits=list_solution_fits,
+                                       mode_optim=self.params_objective_function.sense_function)
+        result_storage.best_solution = result_storage.get_best_solution()
+        return result_storage
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
@@ -614,7 +614,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
         nb_solutions_max = parameters_milp.n_solutions_max
         nb_solution = min(nb_solutions_max, self.model.SolCount)
         if not retrieve_all_solution:
-            nb_solution = 1
+            nb_solution = min(nb_solution, 1)
         list_solution_fits = []
         for s in range(nb_solution):
             self.model.params.SolutionNumber = s
@@ -640,10 +640,10 @@ class LP_MRCPSP_GUROBI(MilpSolver):
                 list_solution_fits += [(solution, fit)]
             except:
                 pass
-        return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
-                             mode_optim=self.params_objective_function.sense_function)
+        result_storage = ResultStorage(list_solution_fits=list_solution_fits,
+                                       mode_optim=self.params_objective_function.sense_function)
+        result_storage.best_solution = result_storage.get_best_solution()
+        return result_storage
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
-- 
2.43.0


From 6795ec9893625d1f09b0684b64b1e2348d5f83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 095/146] fix: programs of projects with calendars start from a
 greedy solution which respects them

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 333c0d6..0f80fd5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -237,7 +237,10 @@ class LP_MRCPSP(MilpSolver):
             if greedy_start:
                 if verbose:
                     print("Computing greedy solution")
-                greedy_solver = PileSolverRCPSP(self.rcpsp_model)
+                if isinstance(self.rcpsp_model, RCPSPModelCalendar):
+                    greedy_solver = PileSolverRCPSP_Calendar(self.rcpsp_model)
+                else:
+                    greedy_solver = PileSolverRCPSP(self.rcpsp_model)
                 store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
                 self.start_solution = store_solution.get_best_solution_fit()[0]
                 makespan = self.rcpsp_model.evaluate(self.start_solution)["makespan"]
-- 
2.43.0


From f65ed93aace85fb437c976af2818d5d69ff1ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 096/146] fix: schedules made along critical paths may end at
 the horizon

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index e94bd6d..9023988 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -172,7 +172,7 @@ class CPM(SolverDO):
                                          if r != "duration"}
                 duration = self.rcpsp_model.mode_details[j][1]["duration"]
                 delayed_du_to_ressource = False
-                for time in range(early_start, self.rcpsp_model.horizon):
+                for time in range(early_start, self.rcpsp_model.horizon-duration+1):
                     valid = True
                     for res in resource_avail_in_time:
                         for t in range(time, time+duration):
-- 
2.43.0


From c8b0b2e2a61bf457b75f46759910693d0dad1eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 097/146] fix: neighbourhoods of schedules may start from one
 which is not feasible

---
 .../rcpsp/solver/rcpsp_lp_lns_solver.py            | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index 86f0f48..1f59310 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -116,7 +116,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
 
         # Fix start time for a subset of task.
         jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
-                                        int(self.fraction_fix_start_time * nb_jobs)))
+                                        min(int(self.fraction_fix_start_time * nb_jobs), len(current_solution.rcpsp_schedule))))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
             for t in milp_solver.T:
@@ -165,12 +165,12 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         milp_solver.model.start = start
         constraints_dict["range_start_time"] = []
         max_time = max([current_solution.rcpsp_schedule[x]["end_time"]
-                        for x in current_solution.rcpsp_schedule])
+                        for x in current_solution.rcpsp_schedule], default=0)
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
         jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
-                                        int(self.fraction_to_fix * nb_jobs)))
+                                        min(int(self.fraction_to_fix * nb_jobs), len(current_solution.rcpsp_schedule))))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
@@ -225,12 +225,12 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         constraints_dict = {}
         constraints_dict["range_start_time"] = []
         max_time = max([current_solution.rcpsp_schedule[x]["end_time"]
-                        for x in current_solution.rcpsp_schedule])
+                        for x in current_solution.rcpsp_schedule], default=0)
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
         jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
-                                        int(self.fraction_to_fix * nb_jobs)))
+                                        min(int(self.fraction_to_fix * nb_jobs), len(current_solution.rcpsp_schedule))))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
@@ -287,12 +287,12 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         constraints_dict = {}
         constraints_dict["range_start_time"] = []
         max_time = max([current_solution.rcpsp_schedule[x]["end_time"]
-                        for x in current_solution.rcpsp_schedule])
+                        for x in current_solution.rcpsp_schedule], default=0)
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
         jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
-                                        int(self.fraction_to_fix * nb_jobs)))
+                                        min(int(self.fraction_to_fix * nb_jobs), len(current_solution.rcpsp_schedule))))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
-- 
2.43.0


From 382398a040ed6f977a6b129f881f584dc06f880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 098/146] fix: programs of projects of several modes keep to
 the whole of a partial solution

---
 .../rcpsp/solver/rcpsp_lp_solver.py            | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 0f80fd5..fb03da2 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -362,6 +362,24 @@ class LP_MRCPSP(MilpSolver):
                         constraints += [self.model.add_constr(xsum([key[2] * self.x[key] for key in variable_per_task[t1]]
                                                                + [- key[2] * self.x[key]
                                                                   for key in variable_per_task[t2]]) <= 0)]
+            if p_s.task_mode is not None:
+                for task in p_s.task_mode:
+                    constraints += [self.model.add_constr(xsum([self.x[k] for k in self.variable_per_task[task]
+                                                                if k[1] == p_s.task_mode[task]]) == 1)]
+            starts = {task: xsum([key[2] * self.x[key] for key in variable_per_task[task]])
+                      for task in variable_per_task}
+            if p_s.start_at_end is not None:
+                for t1, t2 in p_s.start_at_end:
+                    constraints += [self.model.add_constr(starts[t2]-starts[t1]-durations[t1] == 0)]
+            if p_s.start_together is not None:
+                for t1, t2 in p_s.start_together:
+                    constraints += [self.model.add_constr(starts[t2]-starts[t1] == 0)]
+            if p_s.start_after_nunit is not None:
+                for t1, t2, delta in p_s.start_after_nunit:
+                    constraints += [self.model.add_constr(starts[t2]-starts[t1] >= delta)]
+            if p_s.start_at_end_plus_offset is not None:
+                for t1, t2, delta in p_s.start_at_end_plus_offset:
+                    constraints += [self.model.add_constr(starts[t2]-starts[t1]-durations[t1] >= delta)]
             self.constraints_partial_solutions = constraints
             print('Partial solution constraints : ', self.constraints_partial_solutions)
 
-- 
2.43.0


From 56a23113b329fd30ae4ca50305fa3669cb2ccebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 099/146] fix: schedules made time by time start all tasks
 which can start at the same time

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index 9023988..a948179 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -304,6 +304,7 @@ class CPM(SolverDO):
         while len(done) < nb_task:
             sorted_task_to_do = [t for t in total_order if t not in done]
             index = 0
+            started = False
             for j in sorted_task_to_do[:10]:
                 early_start = min_time_to_schedule[j]
                 if all(t in done and current_schedule[t]["end_time"] <= cur_time
@@ -350,9 +351,12 @@ class CPM(SolverDO):
                                         effects_on_delay[task] = {"task_causes": set()}
                                     effects_on_delay[task]["task_causes"].add(j) # the task is delayed
                                                                                  # at least because of j
+                            started = True
                             break
                 index += 1
-            cur_time += 1
+            if not started:
+                # nothing else can start now.
+                cur_time += 1
         resource_links_to_add = []
         for j in causes_of_delay:
             delayed = (current_schedule[j]["start_time"] > self.map_node[j]._ESD)
-- 
2.43.0


From aab066fd7ca21ae99007e270920ebb79abbc9d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 100/146] fix: domains wrapped as Gym environments speak the
 same language in reset and step

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..793e885 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -919,9 +919,10 @@ class AsGymEnv(gym.Env):
         - done (boolean): Whether the episode ended, in which case further step() calls will return undefined results.
         - info (dict): Contains auxiliary diagnostic information (helpful for debugging, and sometimes learning).
         """
-        action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
+        if self._unwrap_spaces:
+            action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
         outcome = self._domain.step(action)
-        outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
+        outcome_observation = self._unwrap_observation(outcome.observation)
         # Some solvers dealing with OpenAI Gym environments crash when info is None (e.g. baselines solver)
         outcome_info = outcome.info if outcome.info is not None else {}
         return outcome_observation, outcome.value.reward, outcome.termination, outcome_info
@@ -932,7 +933,12 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return self._unwrap_observation(self._domain.reset())
+
+    def _unwrap_observation(self, observation):
+        if self._unwrap_spaces:
+            return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
+        return observation
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From 30602573fb776f5e3015f60d7116447031b1ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 101/146] fix: discretized box actions have all their variables

---
 skdecide/hub/domain/gym/gym.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 793e885..4b4f9ee 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -614,15 +614,12 @@ class GymDiscreteActionDomain(UnrestrictedActions):
     
     def _discretize_action_space(self, action_space: gym.spaces.Space) -> D.T_agent[Space[D.T_event]]:
         if isinstance(action_space, gym.spaces.box.Box):
-            nb_elements = 1
-            for dim in action_space.shape:
-                nb_elements *= dim
             actions = []
             for l, h in np.nditer([action_space.low, action_space.high]):
                 if l == -float('inf') or h == float('inf'):
                     actions.append([gym.spaces.box.Box(low=l, high=h).sample() for i in range(self._discretization_factor)])
                 else:
-                    actions.append([l + ((h-l)/(self._discretization_factor - 1))*i for i in range(self._discretization_factor)])
+                    actions.append(list(np.linspace(float(l), float(h), self._discretization_factor)))
             alist = []
             self._generate_box_action_combinations(actions, action_space.shape, action_space.dtype, 0, [], alist)
             return ListSpace(alist)
@@ -658,16 +655,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist).astype(dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From 1020bee83058f252ec71a6cb9e88c4b01d20b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 102/146] fix: actions of multi-binary and dictionary spaces
 can be enumerated

---
 skdecide/hub/domain/gym/gym.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 4b4f9ee..b2904cf 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -632,7 +632,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -641,10 +641,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
-            generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
+            dkeys = list(action_space.spaces.keys())
+            generate = lambda d: ([{dkeys[d]: e, **g} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
-                                  [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+                                  [{dkeys[d]: e} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace(generate(0))
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
-- 
2.43.0


From 2f744115e81de6110bad912ab260eae232819bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 103/146] fix: binary features of Gym states can be counted,
 and are as many for all states

---
 skdecide/hub/domain/gym/gym.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index b2904cf..05313c9 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -459,21 +457,10 @@ class GymWidthDomain:
                                           element: Any) -> int:
         if isinstance(space, gym.spaces.box.Box):
             features = []
-            # compute the size of the bit vector encoding the largest float
-            maxlen = len(bin(struct.unpack('!i', struct.pack('!f', float('inf')))[0])[2:])
             for cell in np.nditer(element):
-                # convert float to string of 1s and 0s
-                float_bin = bin(struct.unpack('!i', struct.pack('!f', cell))[0])
-                # the sign of the float is encoded in the first bit in our translation
-                if float_bin[0] == '-':
-                    features.append(True)
-                    float_bin = float_bin[3:]
-                else:
-                    features.append(False)
-                    float_bin = float_bin[2:]
-                # add 0s at the beginning of the string so that all elements are encoded with the same number of bits
-                # that depends on the size of the bit vector encoding the largest float
-                float_bin = ('0' * (maxlen - len(float_bin))) + float_bin
+                # convert float to string of 1s and 0s, always of the same length:
+                # the sign of the float is encoded in the first bit
+                float_bin = format(struct.unpack('!I', struct.pack('!f', cell))[0], '032b')
                 for b in float_bin:
                     features.append(b == '1')
             return features
@@ -509,7 +496,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From ea4a4a363b2638e71ca89ae651fdac3054853d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 104/146] fix: boundary features of Gym states exist for
 discrete variables and dictionaries

---
 skdecide/hub/domain/gym/gym.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 05313c9..8a0fed8 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,8 +279,12 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # discrete variables are their own features
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
@@ -391,8 +395,12 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # discrete variables are their own features
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
-- 
2.43.0


From 4afd35a148898849ab6aec639a4eac6ca4a761f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 105/146] fix: elliptical features exist for all states and
 observation spaces

---
 skdecide/hub/domain/gym/gym.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 8a0fed8..d33c08b 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -530,9 +530,11 @@ class GymWidthDomain:
     
     def init_elliptical_features(self, x0: D.T_memory[D.T_state],
                                        xG: D.T_memory[D.T_state]):
+        x0 = x0._state if isinstance(x0, GymDomainStateProxy) else x0
+        xG = xG._state if isinstance(xG, GymDomainStateProxy) else xG
         v0 = np.array(self._get_variables(self._gym_env.observation_space, x0))
         vG = np.array(self._get_variables(self._gym_env.observation_space, xG))
-        d = xG.shape[0] # column vector
+        d = len(vG)
         self._elliptical_features = []
         for i in range(d):
             for j in range(i+1, d):
@@ -558,7 +560,7 @@ class GymWidthDomain:
         if isinstance(space, gym.spaces.box.Box):
             var = []
             for cell in np.nditer(element):
-                var.append(cell)
+                var.append(cell.item())
             return var
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return [element]
@@ -575,7 +577,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From ff7f63749b13ac76c7cd2431da2ac829bfa00b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 106/146] fix: states of Gym environments may be arrays

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index d33c08b..e275e40 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -696,7 +696,7 @@ class DeterministicGymDomain(D):
         env = memory._context[0]
         if self._set_state is None or self._get_state is None:
             env = deepcopy(env)
-        elif memory._context[4] != self._get_state(env):
+        elif np.any(memory._context[4] != self._get_state(env)):
             self._set_state(env, memory._context[4])
         self._gym_env = env  # Just in case the simulation environment would be different from the planner's environment...
         obs, reward, done, info = env.step(action)
-- 
2.43.0


From d2dac02850eec2918d0c7b4943b5044dde11ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 107/146] fix: Gym environments whose state cannot be read have
 no initial state yet

---
 skdecide/hub/domain/gym/gym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index e275e40..590c9ef 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -186,13 +186,14 @@ class DeterministicInitializedGymDomain(D):
     
     def _state_reset(self) -> D.T_state:
         if self._initial_state is None:
-            self._initial_state = GymDomainStateProxy(state=self._gym_env.reset(), context=None)
+            initial_state = GymDomainStateProxy(state=self._gym_env.reset(), context=None)
             if self._set_state is not None and self._get_state is not None:
                 self._initial_env_state = self._get_state(self._gym_env)
-                self._initial_state._context = self._initial_env_state
+                initial_state._context = self._initial_env_state
             else:
                 self._init_env = deepcopy(self._gym_env)
-                self._initial_state._context = self._init_env
+                initial_state._context = self._init_env
+            self._initial_state = initial_state
         else:
             if self._set_state is not None and self._get_state is not None:
                 self._set_state(self._gym_env, self._initial_env_state)
-- 
2.43.0


From 5e9d9e68f08f91b9c122ae0504d1929c767720fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 108/146] fix: Gym planning domains may observe multi-discrete
 spaces

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 590c9ef..38eed82 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -750,7 +750,7 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
-        elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
+        elif isinstance(space, (gym.spaces.multi_discrete.MultiDiscrete, gym.spaces.multi_binary.MultiBinary)):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
             assert len(e1) == len(e2) == len(space)
-- 
2.43.0


From bcfa6f60cb94b429c3950d986c639058ebcfd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 109/146] fix: list spaces may have arrays as elements

---
 skdecide/hub/space/gym/gym.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/space/gym/gym.py b/skdecide/hub/space/gym/gym.py
index 5c30994..e0ca08d 100644
--- a/skdecide/hub/space/gym/gym.py
+++ b/skdecide/hub/space/gym/gym.py
@@ -175,6 +175,17 @@ class EnumSpace(Generic[T], GymSpace[T], EnumerableSpace[T]):
         return [self._list_enum[sample] for sample in sample_n]
 
 
+def _same_element(x, y) -> bool:
+    # arrays, and what contains some, cannot be compared with == only
+    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
+        return np.array_equal(x, y)
+    if (isinstance(x, list) and isinstance(y, list)) or (isinstance(x, tuple) and isinstance(y, tuple)):
+        return len(x) == len(y) and all(_same_element(a, b) for a, b in zip(x, y))
+    if isinstance(x, dict) and isinstance(y, dict):
+        return x.keys() == y.keys() and all(_same_element(x[k], y[k]) for k in x)
+    return x is y or bool(x == y)
+
+
 class ListSpace(Generic[T], GymSpace[T], EnumerableSpace[T]):
     """This class creates an OpenAI Gym Discrete space (gym.spaces.Discrete) from a list of elements and wraps it as a
     scikit-decide enumerable space.
@@ -194,7 +205,10 @@ class ListSpace(Generic[T], GymSpace[T], EnumerableSpace[T]):
         super().__init__(gym_space)
 
     def contains(self, x: T) -> bool:
-        return x in self._elements
+        try:
+            return x in self._elements
+        except ValueError:
+            return any(_same_element(x, e) for e in self._elements)
 
     def get_elements(self) -> Iterable[T]:
         return self._elements
@@ -217,7 +231,16 @@ class ListSpace(Generic[T], GymSpace[T], EnumerableSpace[T]):
         return super().unwrapped()
 
     def to_unwrapped(self, sample_n: Iterable[T]) -> Iterable[int]:
-        return [self._elements.index(sample) for sample in sample_n]
+        return [self._index(sample) for sample in sample_n]
+
+    def _index(self, x: T) -> int:
+        try:
+            return self._elements.index(x)
+        except ValueError:
+            for i, e in enumerate(self._elements):
+                if _same_element(x, e):
+                    return i
+            raise
 
     def from_unwrapped(self, sample_n: Iterable[int]) -> Iterable[T]:
         return [self._elements[sample] for sample in sample_n]
-- 
2.43.0


From 8b2c6dfb04b0578e3e349312e00f710856a694c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 110/146] fix: equal Gym states are equal whatever the order of
 their dictionaries

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 38eed82..cf2f8ee 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -98,7 +98,7 @@ class GymDomainStateProxy :
         elif isinstance(e, tuple):
             return [tt for t in e for tt in self.flatten(t)]
         elif isinstance(e, dict):
-            return [tt for k, v in e.items() for tt in self.flatten(v)]
+            return [tt for k in sorted(e) for tt in self.flatten(e[k])]
         else:
             return [e]
 
-- 
2.43.0


From 568eb7d8fd2d947c70c3d814e848d5f1ac27310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 111/146] fix: uncertain graph domains have distributions of
 next states

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..731cec4 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +93,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From 19f1ff71abe2758a6ea11bf74071c446b80c47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 112/146] fix: actions of graph domains know what they contain

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 731cec4..9f8b432 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From b2c062c69c4c44478766336d16a7c6a2a7c78b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 113/146] fix: graph domains are Markovian domains

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 9f8b432..1216b33 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,27 +133,27 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
-    def is_terminal(self, state: D.T_state) -> bool:
+    def _is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_action_space_(self) -> Space[D.T_event]:
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
 
-    def is_goal(self, state: D.T_state) -> bool:
+    def _is_goal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_observation_space_(self) -> Space[D.T_observation]:
-- 
2.43.0


From c9d4dcc0a9c6f529e42261ffa744658bf9390581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 114/146] fix: merging graph domains leaves both as they were

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 1216b33..102f93e 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -106,12 +106,12 @@ class GraphDomain(Domain,
                   PositiveCosts):
 
     def merge(self, graph_domain):
-        next_state_map = self.next_state_map
-        next_state_attributes = self.next_state_attributes
+        next_state_map = {k: dict(v) for k, v in self.next_state_map.items()}
+        next_state_attributes = {k: dict(v) for k, v in self.next_state_attributes.items()}
         for k in graph_domain.next_state_map:
             if k not in next_state_map:
-                next_state_map[k] = graph_domain.next_state_map[k]
-                next_state_attributes[k] = graph_domain.next_state_attributes[k]
+                next_state_map[k] = dict(graph_domain.next_state_map[k])
+                next_state_attributes[k] = dict(graph_domain.next_state_attributes[k])
             else:
                 for action in graph_domain.next_state_map[k]:
                     if action not in next_state_map[k]:
-- 
2.43.0


From c9c6654b1dce2e8848f4ee43dec07a53781824c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 115/146] fix: full explorations go beyond the first state

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..3d4060c 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -33,6 +33,7 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
+                is_new = next not in next_state_map
                 if next not in next_state_map:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
@@ -49,7 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if is_new:
                         stack.append((next, path+[next]))
             if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
                 or (nb_edges > self.max_edges and nb_path >= 1):
-- 
2.43.0


From 3aaba00b155fd19515202b45d6a982d9bdc40b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 116/146] fix: explorations give states to Markovian domains

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py      | 2 +-
 .../hub/solver/graph_explorer/FullSpaceExploration.py     | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..018bbb4 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 3d4060c..cef6fda 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -41,12 +41,8 @@ class FullSpaceExploration(GraphExploration):
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
-                                                                                                  action,
-                                                                                                  next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
-                                                                                                    action,
-                                                                                                    next).reward}
+                value = self.domain.get_transition_value(vertex, action, next)
+                next_state_attributes[vertex][action] = {"cost": value.cost, "reward": value.reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-- 
2.43.0


From 7cade69abc773590cd8bf18a9e9941adc851f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 117/146] fix: explorations without limits

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py        | 6 +++---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py  | 6 +++---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 018bbb4..655d083 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -12,9 +12,9 @@ class DFSExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None,
                            transition_extractor=None,
diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..9acd2ea 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -19,9 +19,9 @@ class DFSExploration(GraphExploration):
         self.c = count()
         if score_function is None:
             self.score_function = lambda s: (next(self.c))
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any = None) -> GraphDomainUncertain:
         if init_state is None:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index cef6fda..65cb0a2 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -13,9 +13,9 @@ class FullSpaceExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None) -> GraphDomain:
         next_state_map = {}
-- 
2.43.0


From 6f44688dfa12fad60248cf1f6d30e64d9111858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 118/146] fix: explorations do not leave terminal states

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 2 ++
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 655d083..4c47963 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -36,6 +36,8 @@ class DFSExploration(GraphExploration):
         paths_dict = {}
         while stack:
             (vertex, path) = stack.pop()
+            if self.domain.is_terminal(vertex):
+                continue
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 65cb0a2..9c63485 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -30,6 +30,8 @@ class FullSpaceExploration(GraphExploration):
         next_state_attributes[init_state] = {}
         while stack:
             (vertex, path) = stack.pop()
+            if self.domain.is_terminal(vertex):
+                continue
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-- 
2.43.0


From 84430a2ed3daf18adb4e5d32e018b12f0404d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 119/146] fix: explored graph domains have costs and goals

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 6 +++++-
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 4c47963..e20a976 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -31,6 +31,9 @@ class DFSExploration(GraphExploration):
         nb_nodes = 1
         nb_edges = 0
         nb_path = 0
+        goals = set()
+        if self.domain.is_goal(init_state):
+            goals.add(init_state)
         next_state_map[init_state] = {}
         next_state_attributes[init_state] = {}
         paths_dict = {}
@@ -49,6 +52,7 @@ class DFSExploration(GraphExploration):
                 next_state_attributes[vertex][action] = transition_extractor(vertex, action, next)
                 if self.domain.is_goal(next):
                     nb_path += 1
+                    goals.add(next)
                     if verbose:
                         print(nb_path, " / ", self.max_path)
                         print("nodes  ", nb_nodes, " / ", self.max_nodes)
@@ -70,6 +74,6 @@ class DFSExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           goals, "cost")
 
 
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 9c63485..20939d5 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -26,6 +26,9 @@ class FullSpaceExploration(GraphExploration):
         nb_nodes = 1
         nb_edges = 0
         nb_path = 0
+        goals = set()
+        if self.domain.is_goal(init_state):
+            goals.add(init_state)
         next_state_map[init_state] = {}
         next_state_attributes[init_state] = {}
         while stack:
@@ -47,6 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 next_state_attributes[vertex][action] = {"cost": value.cost, "reward": value.reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
+                    goals.add(next)
                 else:
                     if is_new:
                         stack.append((next, path+[next]))
@@ -55,7 +59,7 @@ class FullSpaceExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           goals, "cost")
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From 9679db5aa92e2c6e894b632be9ee2122a55a8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 120/146] fix: explored uncertain graph domains have all
 transitions

---
 .../graph_explorer/DFS_Uncertain_Exploration.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 9acd2ea..29d7a3e 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -65,14 +65,19 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
-                    if prob != 0 and succ not in result:
-                        nb_states += 1
+                    if prob == 0:
+                        continue
+                    if succ not in next_state_map[s][action]:
                         nb_edges += 1
+                    cost = domain.get_transition_value(s, action, succ)
+                    # a distribution may name a state more than once
+                    known_prob = next_state_map[s][action].get(succ, (0, cost.cost))[0]
+                    next_state_map[s][action][succ] = (known_prob + prob, cost.cost)
+                    if succ not in result:
+                        nb_states += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
             if (nb_states > self.max_nodes) \
-- 
2.43.0


From 0919376cb4887b7b1b2c6268a7f1250eb9f6fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 121/146] fix: states of the same score can be explored

---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 29d7a3e..ffd6db2 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -28,7 +28,10 @@ class DFSExploration(GraphExploration):
             initial_state = self.domain.get_initial_state()
         else:
             initial_state = init_state
+        # states are not compared with each other: among equal scores, the first comes first
+        ties = count()
         stack = [(self.score_function(initial_state),
+                  next(ties),
                   initial_state)]
         domain = self.domain
         goal_states = set()
@@ -47,7 +50,7 @@ class DFSExploration(GraphExploration):
             if not len(result) % 100 and len(result) > nb_states:
                 print("Expanded {} states.".format(len(result)))
                 nb_states = len(result)
-            tuple, s = heappop(stack)
+            _, _, s = heappop(stack)
             if s not in state_to_ind:
                 state_to_ind[s] = num_s
                 num_s += 1
@@ -77,6 +80,7 @@ class DFSExploration(GraphExploration):
                         nb_states += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
+                                         next(ties),
                                          succ))
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
-- 
2.43.0


From 2c48cc6b141d8fb5b3f633b4e8badd1ee9ce54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 122/146] fix: policies of any domain can be evaluated by
 rollouts

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..ad3289d 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -76,7 +76,10 @@ def my_custom_rollout(domain: GoalMDPDomain, state, policy: DeterministicPolicie
     actions = []
     while True:
         action = policy.get_next_action(states[-1])
-        next_state = SchedulingDomain._state_sample(domain, states[-1], action).state
+        if isinstance(domain, SchedulingDomain):
+            next_state = SchedulingDomain._state_sample(domain, states[-1], action).state
+        else:
+            next_state = domain._state_sample(states[-1], action).state
         value = domain.get_transition_value(states[-1], action, next_state)
         values += [value.cost]
         summed_value += value.cost
-- 
2.43.0


From c0add4f802cd71e41b846b504337031f7cff2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 123/146] fix: a policy which starts in a goal costs nothing

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index ad3289d..8dca609 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -16,6 +16,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     preds = defaultdict(set)
     succs = defaultdict()
     policy_dict = {}
+    preds[stack[0]] = set()  # the initial state may have no predecessor
     while len(stack) > 0:
         s = stack.pop()
         if domain.is_terminal(s) or s in policy_dict:
-- 
2.43.0


From 048cbfbf0fbc02461a67c8dfd21ac94c7ef148e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 124/146] fix: policies are evaluated on distributions with
 impossible states

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 8dca609..6a053ce 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -32,7 +32,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert prob == 0 or (state in preds[succ])
     return policy_dict, preds, succs
 
 
@@ -56,6 +56,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From 5c4c6f31dea7570df81990d2ee512b42f605dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 125/146] fix: graph domains are domains of one agent

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 102f93e..d93f984 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -5,7 +5,7 @@ from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
 from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
-    FullyObservable, PositiveCosts, UncertainTransitions
+    FullyObservable, PositiveCosts, UncertainTransitions, SingleAgent, Sequential
 from skdecide import Domain, DeterministicPlanningDomain, D
 import networkx as nx
 
@@ -24,6 +24,8 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
 
 
 class GraphDomainUncertain(Domain,
+                           SingleAgent,
+                           Sequential,
                            UncertainTransitions,
                            Actions,
                            Goals,
@@ -98,6 +100,8 @@ class GraphDomainUncertain(Domain,
 
 
 class GraphDomain(Domain,
+                  SingleAgent,
+                  Sequential,
                   DeterministicTransitions,
                   Actions,
                   Goals,
-- 
2.43.0


From 25158ce3fd390a36c1e4b2510d82d68725a98a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 126/146] fix: merged graph domains have the goals of both

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index d93f984..ddfb474 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -121,7 +121,8 @@ class GraphDomain(Domain,
                     if action not in next_state_map[k]:
                         next_state_map[k][action] = graph_domain.next_state_map[k][action]
                         next_state_attributes[k][action] = graph_domain.next_state_attributes[k][action]
-        return GraphDomain(next_state_map, next_state_attributes, self.targets, self.attribute_weight)
+        return GraphDomain(next_state_map, next_state_attributes, set(self.targets) | set(graph_domain.targets),
+                           self.attribute_weight)
 
     def __init__(self,
                  next_state_map,
-- 
2.43.0


From c0e3baeeb5797b8138efb86ec09789ec2f62ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 127/146] fix: planners made without a domain can be entered

---
 skdecide/builders/solver/parallelability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 2a530ce..9abc2b4 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -37,6 +37,8 @@ class ParallelSolver:
         and whether the parallel domain jobs should notify their status via the IPC protocol (required when interacting with
         other programming languages like C++)
         """
+        if self._domain_factory is None:
+            return  # the domain is not known before it is solved
         if self._parallel:
             if self._shared_memory_proxy is None:
                 self._domain = PipeParallelDomain(self._domain_factory, lambdas=self._lambdas, ipc_notify=self._ipc_notify)
-- 
2.43.0


From b516cf5b0983d89f54072abc46479ca8882160c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 128/146] fix: planners which solve again plan in the new
 domain

---
 skdecide/hub/solver/aostar/aostar.py     | 4 ++++
 skdecide/hub/solver/astar/astar.py       | 4 ++++
 skdecide/hub/solver/bfws/bfws.py         | 4 ++++
 skdecide/hub/solver/ilaostar/ilaostar.py | 4 ++++
 skdecide/hub/solver/iw/iw.py             | 4 ++++
 skdecide/hub/solver/lrtdp/lrtdp.py       | 4 ++++
 skdecide/hub/solver/mcts/mcts.py         | 4 ++++
 skdecide/hub/solver/riw/riw.py           | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/skdecide/hub/solver/aostar/aostar.py b/skdecide/hub/solver/aostar/aostar.py
index fbf2996..f88b92f 100644
--- a/skdecide/hub/solver/aostar/aostar.py
+++ b/skdecide/hub/solver/aostar/aostar.py
@@ -80,6 +80,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], Domain]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = aostar_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/astar/astar.py b/skdecide/hub/solver/astar/astar.py
index 4c4e731..0ac0b00 100644
--- a/skdecide/hub/solver/astar/astar.py
+++ b/skdecide/hub/solver/astar/astar.py
@@ -74,6 +74,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], Domain]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = astar_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/bfws/bfws.py b/skdecide/hub/solver/bfws/bfws.py
index b5a0b57..4bea6c6 100644
--- a/skdecide/hub/solver/bfws/bfws.py
+++ b/skdecide/hub/solver/bfws/bfws.py
@@ -82,6 +82,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], D]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = bfws_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/ilaostar/ilaostar.py b/skdecide/hub/solver/ilaostar/ilaostar.py
index cfb779a..906679a 100644
--- a/skdecide/hub/solver/ilaostar/ilaostar.py
+++ b/skdecide/hub/solver/ilaostar/ilaostar.py
@@ -78,6 +78,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], Domain]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = ilaostar_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/iw/iw.py b/skdecide/hub/solver/iw/iw.py
index 72dfcca..2d069c5 100644
--- a/skdecide/hub/solver/iw/iw.py
+++ b/skdecide/hub/solver/iw/iw.py
@@ -78,6 +78,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], D]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = iw_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/lrtdp/lrtdp.py b/skdecide/hub/solver/lrtdp/lrtdp.py
index 07857d7..5ea44fa 100644
--- a/skdecide/hub/solver/lrtdp/lrtdp.py
+++ b/skdecide/hub/solver/lrtdp/lrtdp.py
@@ -89,6 +89,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], Domain]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = lrtdp_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/mcts/mcts.py b/skdecide/hub/solver/mcts/mcts.py
index e66f926..445c3ea 100644
--- a/skdecide/hub/solver/mcts/mcts.py
+++ b/skdecide/hub/solver/mcts/mcts.py
@@ -111,6 +111,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], D]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = mcts_solver(
                 domain=self.get_domain(),
diff --git a/skdecide/hub/solver/riw/riw.py b/skdecide/hub/solver/riw/riw.py
index ec8d460..309e071 100644
--- a/skdecide/hub/solver/riw/riw.py
+++ b/skdecide/hub/solver/riw/riw.py
@@ -89,6 +89,10 @@ try:
             self._ipc_notify = True
 
         def _init_solve(self, domain_factory: Callable[[], D]) -> None:
+            if self._solver is not None:
+                # solved before: do not plan in the domain of that time
+                self.close()
+                self._domain = None
             self._domain_factory = domain_factory
             self._solver = riw_solver(
                 domain=self.get_domain(),
-- 
2.43.0


From 42807b208eebfb510c87d73b781f29d7a6a8020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 129/146] fix: entering a solver keeps the parallel domains it
 has launched

---
 skdecide/builders/solver/parallelability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 9abc2b4..0f2f477 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -37,6 +37,8 @@ class ParallelSolver:
         and whether the parallel domain jobs should notify their status via the IPC protocol (required when interacting with
         other programming languages like C++)
         """
+        if self._domain is not None:
+            return  # already launched: these processes would never be joined
         if self._domain_factory is None:
             return  # the domain is not known before it is solved
         if self._parallel:
-- 
2.43.0


From 11a54609c84470d49935554228706f4c7989ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 130/146] fix: all scores of MasterMind can be observed

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..834e989 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])  # from none to all
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From d6d4a699f04608c2fad98b429ddd22d815a08328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 131/146] fix: mazes may be open at their borders

---
 skdecide/hub/domain/maze/maze.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/maze/maze.py b/skdecide/hub/domain/maze/maze.py
index 5d6c66a..584b877 100644
--- a/skdecide/hub/domain/maze/maze.py
+++ b/skdecide/hub/domain/maze/maze.py
@@ -64,7 +64,7 @@ class Maze(D):
 
     def __init__(self, maze_str: str = DEFAULT_MAZE):
         maze = []
-        for y, line in enumerate(maze_str.strip().split('\n')):
+        for y, line in enumerate(maze_str.lstrip('\n').rstrip().split('\n')):
             line = line.rstrip()
             row = []
             for x, c in enumerate(line):
@@ -79,7 +79,9 @@ class Maze(D):
             maze.append(row)
         # self._render_maze = deepcopy(self._maze)
         self._maze = maze
-        self._num_cols = len(maze[0])
+        self._num_cols = max(len(row) for row in maze)
+        for row in maze:
+            row += [1] * (self._num_cols - len(row))  # spaces at the end of a line may be left out
         self._num_rows = len(maze)
         self._ax = None
         self._image = None
-- 
2.43.0


From 07633fb902df2418862ef227ec7ae34ac969c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 132/146] fix: mazes can be rendered with the matplotlib
 installed

---
 skdecide/hub/domain/maze/maze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/maze/maze.py b/skdecide/hub/domain/maze/maze.py
index 584b877..10d4754 100644
--- a/skdecide/hub/domain/maze/maze.py
+++ b/skdecide/hub/domain/maze/maze.py
@@ -135,7 +135,7 @@ class Maze(D):
         if self._ax is None:
             # fig = plt.gcf()
             fig, ax  = plt.subplots(1)
-            fig.canvas.set_window_title('Maze')
+            fig.canvas.manager.set_window_title('Maze')
             # ax = plt.axes()
             ax.set_aspect('equal')  # set the x and y axes to the same scale
             plt.xticks([])  # remove the tick marks by setting to an empty list
-- 
2.43.0


From 2bd38d9513b436b31e457deb7f2a0a8f5e1db30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 133/146] fix: genes of evolved programs point to earlier
 columns when they mutate

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 5b83c89..5ab72a9 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -119,7 +119,7 @@ class CGP:
 					self.genome[index] = rnd.randint(0, len(self.library) - 1)
 				else:
 					# mutate connection
-					self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
+					self.genome[index] = rnd.randint(0, self.num_inputs + (index // (self.max_arity + 1) // self.num_rows) * self.num_rows - 1)
 			else:
 				# this is an output node
 				self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)
@@ -134,7 +134,7 @@ class CGP:
 						self.genome[index] = rnd.randint(0, len(self.library) - 1)
 					else:
 						# mutate connection
-						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, (self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows) * self.recurrency_distance))
+						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, int((self.num_inputs + (index // (self.max_arity + 1) // self.num_rows) * self.num_rows - 1) * self.recurrency_distance)))
 						#self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
 			else:
 				# this is an output node
-- 
2.43.0


From 05a0eef34b5adce751fa884e8faef795615c6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 134/146] fix: mutated programs run as their new genes say

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 5ab72a9..11c219c 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -110,6 +110,7 @@ class CGP:
 		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)
 
 	def mutate(self, num_mutationss):
+		self.graph_created = False
 		for i in range(0, num_mutationss):
 			index = rnd.randint(0, len(self.genome) - 1)
 			if index < self.num_cols * self.num_rows * (self.max_arity + 1):
@@ -125,6 +126,7 @@ class CGP:
 				self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)
 	
 	def mutate_per_gene(self, mutation_rate_nodes, mutation_rate_outputs):
+		self.graph_created = False
 		for index in range(0, len(self.genome)):
 			if index < self.num_cols * self.num_rows * (self.max_arity + 1):
 				# this is an internal node
-- 
2.43.0


From 37697bf811070228edd5981595e8871401066684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 135/146] fix: clones of evolved programs keep their recurrency
 distance

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 11c219c..26b84f6 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -107,7 +107,7 @@ class CGP:
 		return output
 
 	def clone(self):
-		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)
+		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library, self.recurrency_distance)
 
 	def mutate(self, num_mutationss):
 		self.graph_created = False
-- 
2.43.0


From 2d6deb4fd80b972de20b7695841bdc4cffdd67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 136/146] fix: values of unbounded and of single-valued spaces
 are normalised to numbers

---
 skdecide/hub/solver/cgp/cgp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index ed5a984..6d172d1 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -32,6 +32,12 @@ def change_interval(x, inmin, inmax, outmin, outmax):
         inmin = -1
     if (inmax == np.inf):
         inmax = 1
+    if (outmin == -np.inf):
+        outmin = -1
+    if (outmax == np.inf):
+        outmax = 1
+    if inmin == inmax:
+        return outmin
     # making sure x is in the interval
     x = max(inmin, min(inmax, x))
     # normalizing x between 0 and 1
-- 
2.43.0


From 872f0b43bc0e45475d6e25814699b90a57a6d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 137/146] fix: CGP acts in boxes of any shape and in tuples of
 spaces

---
 skdecide/hub/solver/cgp/cgp.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 6d172d1..4f8a079 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -140,6 +140,7 @@ def denorm(vals, types):
     :param types: the gym types corresponding to vals
     :return: the same vals array with denormalised values
     """
+    is_tuple = isinstance(types, gym.spaces.Tuple)
     if not isinstance(types, Iterable) and \
             not isinstance(types, gym.spaces.Tuple):
         types = [types]
@@ -152,17 +153,16 @@ def denorm(vals, types):
         t = types[i]
         if isinstance(t, gym.spaces.Box):
             out_temp = []
-            for j in range(len(t.low)):
-                out_temp += [change_interval(vals[index], -1, 1, t.low[j], t.high[j])]
+            for low, high in zip(flatten(t.low), flatten(t.high)):
+                out_temp += [change_interval(vals[index], -1, 1, low, high)]
                 index += 1
-            out += out_temp
+            out += [np.reshape(out_temp, t.shape).tolist()]
         elif isinstance(t, gym.spaces.Discrete):
             out += [change_float_to_int_interval(vals[index], -1, 1, 0, t.n - 1)]
             index += 1
         else:
             raise ValueError("Unsupported type ", str(t))
-    # burk
-    if len(types) == 1 and not isinstance(types[0], gym.spaces.Box):
+    if not is_tuple:
         return out[0]
     else:
         return out
@@ -225,14 +225,8 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
         if self._genome is None:
             a = domain.get_action_space().sample()
             b = domain.get_observation_space().sample()
-            if isinstance(a, Iterable) or isinstance(a, gym.spaces.Tuple):
-                num_outputs = len(a)
-            else:
-                num_outputs = 1
-            if isinstance(b, Iterable) or isinstance(b, gym.spaces.Tuple):
-                num_inputs = len(b)
-            else:
-                num_inputs = 1
+            num_outputs = len(list(flatten([a])))
+            num_inputs = len(list(flatten([b])))
             cgpFather = CGP.random(num_inputs,
                                    num_outputs, self._col, self._row, self._library, 1.0)
         else:
-- 
2.43.0


From 991748b7b26356c7895e32a09c0f613fab53cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 138/146] fix: CGP takes a domain only if all parts of its
 spaces are supported

---
 skdecide/hub/solver/cgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 4f8a079..a04f619 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -210,11 +210,11 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
 
         valide_action_space = True
         for x in flat_action_space:
-            valide_action_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            valide_action_space = valide_action_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         validate_observation_space = True
         for x in flat_observation_space:
-            validate_observation_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            validate_observation_space = validate_observation_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         return valide_action_space and validate_observation_space
         
-- 
2.43.0


From cbbbf735d183485ba210ab2fd8f21d6191fce4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 139/146] fix: CGP evaluates its offspring in parallel, each in
 a domain of its own which needs no pickling

---
 skdecide/hub/solver/cgp/cgp.py         | 9 ++++++---
 skdecide/hub/solver/cgp/pycgp/cgpes.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index a04f619..1c085a3 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -221,7 +221,7 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         domain = domain_factory()
 
-        evaluator = SkDecideEvaluator(domain)
+        evaluator = SkDecideEvaluator(domain, domain_factory=domain_factory)
         if self._genome is None:
             a = domain.get_action_space().sample()
             b = domain.get_observation_space().sample()
@@ -285,11 +285,12 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
 
 class SkDecideEvaluator(Evaluator):
 
-    def __init__(self, domain, it_max=10000, ep_max=1):
+    def __init__(self, domain, it_max=10000, ep_max=1, domain_factory=None):
         super().__init__()
         self.it_max = it_max
         self.ep_max = ep_max
         self.domain = domain
+        self.domain_factory = domain_factory
 
         # def get_mins_maxs(space):
         #     if not isinstance(space, gym.spaces.Tuple):
@@ -333,4 +334,6 @@ class SkDecideEvaluator(Evaluator):
         return fit / sum_e
 
     def clone(self):
-        return SkDecideEvaluator(self.domain, self.it_max, self.ep_max)
+        # clones work at the same time: each one has its own domain
+        domain = self.domain if self.domain_factory is None else self.domain_factory()
+        return SkDecideEvaluator(domain, self.it_max, self.ep_max, self.domain_factory)
diff --git a/skdecide/hub/solver/cgp/pycgp/cgpes.py b/skdecide/hub/solver/cgp/pycgp/cgpes.py
index 66b05c6..5869570 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgpes.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgpes.py
@@ -46,7 +46,7 @@ class CGPES:
 					self.offsprings[i].mutate_per_gene(self.mutation_rate_nodes, self.mutation_rate_outputs)
 				def offspring_eval_task(offspring_id):
 					return self.evaluator_pool[offspring_id].evaluate(self.offsprings[offspring_id], self.it)
-				self.offspring_fitnesses = Parallel(n_jobs = self.num_cpus)(delayed(offspring_eval_task)(i) for i in range(self.num_offsprings)) 
+				self.offspring_fitnesses = Parallel(n_jobs = self.num_cpus, require = 'sharedmem')(delayed(offspring_eval_task)(i) for i in range(self.num_offsprings)) 
 			#get the best fitness
 			best_offspring = np.argmax(self.offspring_fitnesses)
 			#compare to father
-- 
2.43.0


From 51742dbc8a61331cff2ab95ca6a6c731980244cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 140/146] fix: ARS takes boxes of any shape

---
 skdecide/hub/solver/ars/ars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/ars/ars.py b/skdecide/hub/solver/ars/ars.py
index a74265a..6636156 100755
--- a/skdecide/hub/solver/ars/ars.py
+++ b/skdecide/hub/solver/ars/ars.py
@@ -125,7 +125,7 @@ class AugmentedRandomSearch(Solver, Policies, Restorable):
         elif isinstance(space, gym.spaces.Discrete):
             return 1
         else:
-            return space.shape[0]
+            return int(np.prod(space.shape))
 
     def generate_perturbations(self, space):
         if isinstance(space, gym.spaces.Tuple):
-- 
2.43.0


From 5f3b2c3d69074b60da04b03c97839d95c1304e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 141/146] fix: drawn programs leave out no node which memory
 happens to name

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 26b84f6..2ee2742 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -150,7 +150,7 @@ class CGP:
 		out = open(file_name, 'w')
 		out.write('digraph cgp {\n')
 		out.write('\tsize = "4,4";\n')
-		self.dot_rec_visited_nodes = np.empty(1)
+		self.dot_rec_visited_nodes = np.empty(0)
 		for i in range(self.num_outputs):
 			out.write('\t' + output_names[i] + ' [shape=oval];\n')
 			self._write_dot_from_gene(output_names[i], self.output_genes[i], out, 0, input_names, output_names)
-- 
2.43.0


From cfbe69dd9c47a8baff2275ea31d4fa5a427d836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 142/146] fix: parsers can be imported where their example data
 is not installed

---
 .../discrete_optimization/coloring/coloring_parser.py         | 2 +-
 .../discrete_optimization/facility/facility_parser.py         | 2 +-
 .../discrete_optimization/knapsack/knapsack_parser.py         | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py     | 4 ++--
 skdecide/builders/discrete_optimization/vrp/vrp_parser.py     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_parser.py b/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
index c7fd8d0..9a2860c 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
@@ -4,7 +4,7 @@ import os
 from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
 from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/coloring/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] if os.path.isdir(path_to_data) else []
 
 
 def parse(input_data):
diff --git a/skdecide/builders/discrete_optimization/facility/facility_parser.py b/skdecide/builders/discrete_optimization/facility/facility_parser.py
index 4301421..f2ea925 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_parser.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_parser.py
@@ -4,7 +4,7 @@ import os
 import sys
 sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../"))
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/facility/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] if os.path.isdir(path_to_data) else []
 
 
 def parse(input_data):
diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
index dd7cb22..c9f71e3 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
@@ -5,7 +5,7 @@ import os
 import sys
 from skdecide.builders.discrete_optimization.generic_tools.path_tools import abspath_from_file
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/knapsack/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] if os.path.isdir(path_to_data) else []
 
 
 def parse_input_data(input_data, force_recompute_values: bool=False)->KnapsackModel:
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index 681b633..f1a385c 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -4,8 +4,8 @@ sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../"))
 from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPModel
 folder_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data/")
 folder_data_gecco = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data_gecco/")
-list_files = [f for f in list(os.listdir(folder_data)) if f.endswith("ttp")]
-list_files_gecco = [f for f in list(os.listdir(folder_data_gecco)) if f.endswith("txt")]
+list_files = [f for f in (os.listdir(folder_data) if os.path.isdir(folder_data) else []) if f.endswith("ttp")]
+list_files_gecco = [f for f in (os.listdir(folder_data_gecco) if os.path.isdir(folder_data_gecco) else []) if f.endswith("txt")]
 
 def get_data_available():
     return [os.path.join(folder_data, f) for f in list_files]+\
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_parser.py b/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
index f923f51..44cb9dc 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
@@ -4,7 +4,7 @@ import os
 from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
 from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem, BasicCustomer, Customer2D, VrpProblem2D
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/vrp/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] if os.path.isdir(path_to_data) else []
 
 from collections import namedtuple
 from typing import Union
-- 
2.43.0


From b7e7f4228d35e8284f18ade4a2e6142380869c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 143/146] fix: written multi-skill solutions are read with the
 employees of the model

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index c833eda..fd2c3e5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -173,7 +173,7 @@ def parse_results(input_data):
             hour = int(words[0])
             for j in range(1, len(words)):
                 w = words[j].split("-")
-                ressource_id = w[0]
+                ressource_id = int(w[0])
                 task_id = int(w[1])
                 assignation[task_id] = ressource_id
                 schedule[task_id] = hour
-- 
2.43.0


From 7f570f645f0590b7dd752ff278d8cb1de3f3f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 144/146] fix: a project file torn off before its
 availabilities is refused

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py
index 302ee65..87c46d1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py
@@ -47,7 +47,7 @@ def parse_psplib(input_data):
     # Parsing resource information
     tmp1 = lines[res_start_line_index].split()
     tmp2 = lines[res_start_line_index+1].split()
-    resources = {str(tmp1[(i*2)])+str(tmp1[(i*2)+1]): int(tmp2[i]) for i in range(len(tmp2))}
+    resources = {str(tmp1[(i*2)])+str(tmp1[(i*2)+1]): int(tmp2[i]) for i in range(len(tmp1) // 2)}
     non_renewable_resources = [name for name in list(resources.keys()) if name.startswith('N')]
     n_resources = len(resources.keys())
 
-- 
2.43.0


From 9fef5447999c542f5128a9e0b3d838a773a0607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 145/146] fix: a torn multi-skill project file is refused

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index fd2c3e5..4aede7d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -113,6 +113,8 @@ def parse_imopse(input_data, max_horizon=None):
                     i += 1
     # print(resource_dict)
     # print(task_dict)
+    if nb_worker not in {None, len(resource_dict)} or nb_task not in {None, len(task_dict)}:
+        raise ValueError(f"{len(resource_dict)} resources and {len(task_dict)} tasks instead of {nb_worker} and {nb_task}")
     sorted_task_names = sorted(task_dict.keys())
     task_id_to_new_name = {sorted_task_names[i]: i+2 for i in range(len(sorted_task_names))}
     new_tame_to_original_task_id = {task_id_to_new_name[ind]: ind for ind in task_id_to_new_name}
-- 
2.43.0


From 170f00354d61a0cf2e63d23f7cd2828190e53b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 146/146] fix: merged Pareto front of minimized results is that
 of the smallest

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0

