From e5e9a9cf9051bf96e17116c3e473690b88dff361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 001/121] fix: keep metadata and messages of optimizers whose
 history cache is cleared

Clearing the history of a finished optimizer also deleted its metadata and
messages, so the end signal, an error message or a forced termination handled
afterwards raised KeyError and crashed the manager.
---
 glompo/core/optimizerlogger.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..f0a2454 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._storage) + len(self._cleared)
 
     @property
     def largest_eval(self) -> float:
@@ -48,6 +48,7 @@ class BaseLogger:
     def checkpoint_load(cls, path: Union[Path, str]):
         """ Construct a new :class:`BaseLogger` from the attributes saved in the checkpoint file located at `path`. """
         opt_log = cls.__new__(cls)
+        opt_log._cleared = {}
 
         with Path(path).open('rb') as file:
             state = dill.load(file)
@@ -63,6 +64,7 @@ class BaseLogger:
         self._best_iter = {'opt_id': 0, 'x': [], 'fx': float('inf'), 'type': '', 'call_id': 0}
         self._max_eval = -float('inf')
         self._storage = {}
+        self._cleared = {}  # Metadata and messages of optimizers whose iteration history has been cleared
         self.build_traj_plot = build_traj_plot
         self._figure_data = {}
 
@@ -100,7 +102,7 @@ class BaseLogger:
         return opt_id in self._storage and 'fx' in self._storage[opt_id]
 
     def clear_cache(self, opt_id: Optional[int] = None):
-        """ Removes all data associated with `opt_id` from memory.
+        """ Removes the iteration history associated with `opt_id` from memory.
         The data is **not** cleared if a summary trajectory plot has been configured.
         """
         if self.build_traj_plot:  # Data not cleared if a summary trajectory image has been requested.
@@ -108,18 +110,23 @@ class BaseLogger:
 
         to_del = [opt_id] if opt_id else [*self._storage.keys()]
         for key in to_del:
-            del self._storage[key]
+            record = self._storage.pop(key)
+            self._cleared[key] = {k: record[k] for k in ('metadata', 'messages')}
+
+    def _get_record(self, opt_id: int) -> Dict[str, Any]:
+        """ Returns the metadata and messages of an optimizer, also after its history has been cleared. """
+        return self._cleared[opt_id] if opt_id in self._cleared else self._storage[opt_id]
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
         """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        self._get_record(opt_id)['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
         """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        self._get_record(opt_id)['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
@@ -172,7 +179,7 @@ class BaseLogger:
 
     def get_metadata(self, opt_id: int, key: str) -> Any:
         """ Returns metadata of a given optimizer and key. """
-        return self._storage[opt_id]['metadata'][key]
+        return self._get_record(opt_id)['metadata'][key]
 
     @needs_optional_package('matplotlib')
     def plot_optimizer_trials(self, path: Optional[Path] = None, opt_id: Optional[int] = None):
-- 
2.43.0


From c4010c7817d04df3a918248fedfcb5c625b0e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 002/121] fix: allow querying and flushing the file log after
 its cache was cleared

get_history and put_iteration failed with KeyError for an optimizer which had
been cleared because its write buffer had been deleted.
---
 glompo/core/optimizerlogger.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index f0a2454..a8694b0 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -497,7 +497,6 @@ class FileLogger(BaseLogger):
         for o in opt_ids:
             if o in self._writing_chunk:
                 self.flush(o)
-                del self._writing_chunk[o]
 
             if super().__contains__(o):
                 super().clear_cache(o)
-- 
2.43.0


From 7594d3626fd5c5ac25776fa7a2c4ef7c42d58026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 003/121] fix: do not fail for lack of slots when spawning
 ended or an optimizer just ended

The manager crashed if spawning was deactivated while no optimizer was alive,
and if the last optimizers ended while the slots were being filled.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..f15f104 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif count == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From d896e2e4a678639d6822fd5af01fb86b12659c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 004/121] fix: report exhaustion as end reason if the checker
 failed before the start

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f15f104..b9c98db 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1022,6 +1022,8 @@ class GloMPOManager:
                 if checker_condition:
                     self.t_end = time()
                     reason = self.convergence_checker.str_with_result()
+                elif all_dead and not self.spawning_opts:
+                    reason = "No optimizers alive, spawning stopped."
 
                 self.converged = checker_condition or (all_dead and not self.spawning_opts)
                 if self.converged:
-- 
2.43.0


From aa526fe538e664d611ce339533cc4f808feac64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 005/121] fix: do not crash when signalling an optimizer which
 has just ended

Sending to the pipe of an optimizer which ended since its liveness was checked
raised BrokenPipeError. It crashed the manager during hunts, user stops,
incumbent sharing and checkpoints, and at the end of a run prevented the stop
signal from reaching the remaining optimizers.
---
 glompo/core/manager.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b9c98db..74e576d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1197,7 +1197,7 @@ class GloMPOManager:
                 ovw_path.unlink()
 
         if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
         self._toggle_optimizers(1)
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
@@ -1605,7 +1605,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1617,6 +1617,13 @@ class GloMPOManager:
         if self.visualisation:
             self.scope.update_kill(opt_id)
 
+    def _send_signal(self, opt_id: int, message: Any):
+        """ Sends `message` to optimizer :obj:`opt_id`. Optimizers which have ended in the meantime are ignored. """
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(message)
+        except OSError as e:
+            self.logger.debug("Could not send signal to optimizer %d, it has already ended.", opt_id, exc_info=e)
+
     def _update_best_result(self) -> Result:
         """ Returns the best :class:`.Result` found in the :attr:`opt_log`. """
 
@@ -1625,7 +1632,7 @@ class GloMPOManager:
         if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1644,7 +1651,8 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, message) for opt_id, pack in self._optimizer_packs.items()
+             if pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1805,7 +1813,7 @@ class GloMPOManager:
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+                self._send_signal(opt_id, 2)
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1866,10 +1874,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From db9ab0b36831330b0a0390e6d9f96a7820b4acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 006/121] fix: process all delivered results before ending
 because no optimizer is alive

When the last optimizers ended with results still in the queue or, if they
were killed, in its cache, the run ended without recording them and the best
result could be lost.
---
 glompo/core/manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 74e576d..b770077 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1017,6 +1017,8 @@ class GloMPOManager:
                         del self._optimizer_packs[opt_id]
 
                 all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
+                if all_dead and not self._all_results_processed():
+                    all_dead = False  # Record everything the optimizers delivered before they ended
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
@@ -1524,6 +1526,17 @@ class GloMPOManager:
 
         return closed, victims
 
+    def _all_results_processed(self) -> bool:
+        """ Returns :obj:`True` if neither the :attr:`optimizer_queue` nor its cache hold unprocessed results.
+        Only to be used when no optimizer is alive: results left in the cache are moved to the queue.
+        """
+        if not self.optimizer_queue.empty():
+            return False
+        if self.optimizer_queue.has_cache():
+            self.optimizer_queue.flush()
+            return False
+        return True
+
     def _start_hunt(self, hunter_id: int) -> Set[int]:
         """ Creates a new hunt with the provided :obj:`hunter_id` as the 'best' optimizer looking to terminate
             the other active optimizers according to the provided :attr:`killing_conditions`.
-- 
2.43.0


From b724bd6fb66675dba0e8d3957d32a6a0d6bd3a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 007/121] fix: share the incumbent only when it improved

A best value of exactly zero was sent again after every single evaluation and,
as long as no evaluation was finite, an empty solution was distributed.
---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b770077..c5edd2d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1642,7 +1642,8 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        if self.incumbent_sharing and \
+                best_iter['fx'] < (float('inf') if self.result.fx is None else self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 6c5bbfcf565712cb4b640b132492e38393012607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 008/121] fix: do not remove the backend setting from the
 selector's options

With a processes backend the 'backend' keyword was deleted from the selector's
own configuration: only the first optimizer of that option received it.
---
 glompo/core/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c5edd2d..165385d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1322,6 +1322,7 @@ class GloMPOManager:
             return None
 
         selected, init_kwargs, call_kwargs = selector_return
+        init_kwargs = dict(init_kwargs)  # The selector's own options must not be changed
         if not self.proc_backend:
             # Callbacks need to be copied in the case of threaded backends because otherwise they will behave
             # globally rather than on individual optimizers as expected. All kwargs are copied in this way to prevent
-- 
2.43.0


From a937b8cb2c1b857e25da8bab1608f0a0c97583c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 009/121] fix: deliver the final statistics with the result

The statistics were those of the last recorded evaluation: optimizers which
started, were killed or converged after it were not counted.
---
 glompo/core/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 165385d..fc98f6e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1089,7 +1089,11 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
+                                 {'f_evals': self.f_counter,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {
                                      'end_cond': reason},
                                  self.result.origin)
 
-- 
2.43.0


From d4360f207ded677f6375cbf609c28cd58b614232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 010/121] fix: collect outstanding messages of crashed
 optimizers and detect hard crashes

The traceback of an optimizer was lost if it died between the signal check and
the inspection of the children, and optimizers killed by the operating system
never counted as crashed, so one crashing on every start was restarted forever.
---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fc98f6e..2be886c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1416,7 +1416,8 @@ class GloMPOManager:
                                             "signal to the manager.", opt_id)
                         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                         self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
-                else:
+                elif not self._check_signals(opt_id):  # Outstanding messages are collected first
+                    self.opt_crashed = True
                     self._graveyard.add(opt_id)
                     self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
                     warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-- 
2.43.0


From faa9990ec267221bd9f44a84396884260739a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 011/121] fix: do not count the initial set of optimizers as
 respawned after crashes

With more than five optimizers started at once a single crash before the first
evaluation was taken for optimizers crashing on every start and ended the run.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2be886c..6b3725c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1254,7 +1254,7 @@ class GloMPOManager:
         processes = [pack.slots for pack in self._optimizer_packs.values() if pack.process.is_alive()]
         if started_new:
             self.last_opt_spawn = (self.f_counter, self.o_counter) \
-                if self.last_opt_spawn[0] != self.f_counter else self.last_opt_spawn
+                if self.last_opt_spawn[0] != self.f_counter or self.last_opt_spawn[1] == 0 else self.last_opt_spawn
             f_best = f'{self.result.fx:.3E}' if self.result.fx is not None else None
             if self.logger.isEnabledFor(logging.INFO):
                 self.logger.info("Status: %(len_proc)d optimizers alive, %(sum_proc)d/%(max_jobs)d slots filled, %(f)d "
-- 
2.43.0


From 9174930e186898b5a54ee2aa180f361dc19c3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 012/121] fix: register how the last optimizers ended before
 ending the run

If the last optimizers ended just before the manager checked whether any was
alive, their end signals and crashes were ignored: they were not counted as
converged or recorded as errors but as stopped by GloMPO.
---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6b3725c..0e287d2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1017,8 +1017,8 @@ class GloMPOManager:
                         del self._optimizer_packs[opt_id]
 
                 all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
-                if all_dead and not self._all_results_processed():
-                    all_dead = False  # Record everything the optimizers delivered before they ended
+                if all_dead and (len(self._optimizer_packs) > 0 or not self._all_results_processed()):
+                    all_dead = False  # Record how the optimizers ended and everything they delivered before that
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
-- 
2.43.0


From 7e8b527434532ce7e69b5d859a09534df4a92d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 013/121] fix: fall back to task.checkpoint_save whatever error
 prevents pickling the task

Most unpicklable objects raise TypeError or AttributeError rather than
PickleError, which made the checkpoint crash the manager instead.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0e287d2..eed8091 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1949,7 +1949,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From e1d6e2862c993ff6bdd624cc4c4db89104d49507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 014/121] fix: save the evaluation log of a checkpoint after
 the optimizers are synchronised

Results which were still outstanding when the checkpoint began were counted by
the manager and known to the optimizers but missing from the saved log.
---
 glompo/core/manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index eed8091..911858d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1133,11 +1133,6 @@ class GloMPOManager:
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1147,6 +1142,12 @@ class GloMPOManager:
             self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger, must follow the processing of the outstanding results of the optimizers
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
-- 
2.43.0


From 1046a320794861a112719c2414c6dac38479a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 015/121] fix: include results held in the queue's cache in a
 checkpoint

With fast functions up to a chunk of evaluations remained in the cache of the
queue and was lost when resuming, although the optimizers had made them.
---
 glompo/core/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 911858d..65cda54 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1883,6 +1883,11 @@ class GloMPOManager:
         closed, victims = self._process_results()
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
+        if self.optimizer_queue.has_cache():
+            self.optimizer_queue.flush()
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
         assert self.optimizer_queue.empty()
-- 
2.43.0


From 1ec8f45fd7a8c0c43f94d5e9a2e993c4bda8442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 016/121] fix: handle every signal optimizers may send while a
 checkpoint waits for them

A message or traceback sent by an optimizer, or its end, while the manager waited
for the optimizers to pause crashed the manager, the end signal of an optimizer
killed before was counted as convergence, and that of a dead one was lost.
---
 glompo/core/manager.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 65cda54..a74449e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1858,9 +1858,14 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except EOFError:
+                            continue  # Ended in the meantime
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
-                        if key == 0:
+                        if key == 0 and opt_id in self._graveyard:
+                            not_chkpt.add(opt_id)
+                        elif key == 0:
                             self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                             self.opt_log.put_metadata(opt_id, "end_cond", message)
                             self._graveyard.add(opt_id)
@@ -1870,10 +1875,15 @@ class GloMPOManager:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
+                        elif key == 9:
+                            self.opt_log.put_message(opt_id, message)
+                            self.opt_crashed = "Traceback" in message or self.opt_crashed
                         else:
                             raise RuntimeError(f"Unhandled message: {message}")
                 else:
                     self.logger.debug("Opt %d dead, removing from wait list", opt_id)
+                    while self._check_signals(opt_id):  # Its end must be part of the checkpoint
+                        pass
                     not_chkpt.add(opt_id)
                     wait_reply.remove(opt_id)
                     living.remove(opt_id)
-- 
2.43.0


From 828fc74676b5f27a28a52534435bff50bc3ff6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 017/121] fix: do not wait forever for optimizers which end
 while a checkpoint is saved

An optimizer which was killed in a hunt or crashed after it had been paused
never clears its event, so the manager spun forever and nobody continued.
---
 glompo/core/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a74449e..d8680ae 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1917,15 +1917,20 @@ class GloMPOManager:
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
+        died = set()  # Ended before their state was completely saved
         while wait_reply:
             for opt_id in wait_reply.copy():
                 if not self._optimizer_packs[opt_id].allow_run_event.is_set():
                     wait_reply.remove(opt_id)
+                elif not self._optimizer_packs[opt_id].process.is_alive():
+                    wait_reply.remove(opt_id)
+                    if self._optimizer_packs[opt_id].allow_run_event.is_set():
+                        died.add(opt_id)
 
         # Confirm all restart files are found
         living_names = {f'{opt_id:04}' for opt_id in messaged - not_chkpt}
         for lv in living_names:
-            if not (path / 'optimizers' / lv).exists():
+            if not (path / 'optimizers' / lv).exists() or int(lv) in died:
                 raise CheckpointingError(f"Unable to identify restart file/folder for optimizer {lv}")
         self.logger.info("All optimizer restart files detected.")
 
-- 
2.43.0


From a56de16cca44aa6f8e773da8515df5de2ef7ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 018/121] fix: keep watch on the optimizers while a checkpoint
 waits for them

An optimizer hanging during a checkpoint stalled the manager forever despite
force_terminations_after, and the end of an optimizer which died just before
the checkpoint was not part of it and thus unknown to a resumed run.
---
 glompo/core/manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d8680ae..b66f467 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1849,6 +1849,10 @@ class GloMPOManager:
                                    'alive': n_alive,
                                    'wait': wait_reply})
 
+            for opt_id in messaged - wait_reply:
+                self._last_feedback[opt_id] = time()  # Silent because it is paused
+            self._inspect_children()
+
             if self.optimizer_queue.full():
                 closed, victims = self._process_results(n_alive)  # Free space on queue to avoid blocking
                 [not_chkpt.add(cld) for cld in closed]
@@ -1887,6 +1891,9 @@ class GloMPOManager:
                     not_chkpt.add(opt_id)
                     wait_reply.remove(opt_id)
                     living.remove(opt_id)
+        while any([not pack.process.is_alive() and opt_id not in self._graveyard
+                   for opt_id, pack in self._optimizer_packs.items()]):
+            self._inspect_children()
         self.logger.info("Optimizers paused and synced.")
 
         # Process outstanding results and hunts
@@ -1919,6 +1926,9 @@ class GloMPOManager:
         wait_reply = living.copy()
         died = set()  # Ended before their state was completely saved
         while wait_reply:
+            for opt_id in messaged - wait_reply:
+                self._last_feedback[opt_id] = time()
+            self._inspect_children()
             for opt_id in wait_reply.copy():
                 if not self._optimizer_packs[opt_id].allow_run_event.is_set():
                     wait_reply.remove(opt_id)
-- 
2.43.0


From ee07897c110c7f731bd3a7ba38493b690c9227ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 019/121] fix: do not save optimizers in a checkpoint which
 were already shut down

An optimizer which had been told to stop, or had reported its end, but was still
alive when the checkpoint began was saved and started again by a resumed run.
---
 glompo/core/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b66f467..e4a783d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1909,6 +1909,9 @@ class GloMPOManager:
 
         assert self.optimizer_queue.empty()
 
+        # Optimizers which ended or were killed before they paused do not continue either
+        not_chkpt |= messaged & self._graveyard
+
         # Send checkpoint_save signals
         (path / 'optimizers').mkdir()
         for opt_id in messaged:
-- 
2.43.0


From 582e210e3e8682d5cc98365ebb31ae6f683e0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 020/121] fix: keep the whole name of a checkpoint when it
 contains a dot

with_suffix cut everything after the last dot of the name, e.g. the count in
'run1.5_%(count)', so that every checkpoint replaced the previous one.
---
 glompo/core/manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e4a783d..f02c6d3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1126,8 +1126,10 @@ class GloMPOManager:
         self.logger.info("Constructing Checkpoint")
 
         # Construct Checkpoint Name
-        path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
+        name = self.checkpoint_control.get_name()
+        path = self.checkpoint_control.checkpointing_dir / (name[:-7] if name.endswith('.tar.gz') else name)
         path.mkdir(parents=True, exist_ok=True)
+        tar_path = path.parent / f'{path.name}.tar.gz'
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
@@ -1139,7 +1141,7 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.add(str(tar_path.resolve()))
 
             self._checkpoint_optimizers(path)
 
@@ -1158,7 +1160,6 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
@@ -1190,7 +1191,7 @@ class GloMPOManager:
                         del_path.unlink()
 
         except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.remove(str(tar_path.resolve()))
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
-- 
2.43.0


From ac0ba3984fd1f6b9846e33d4ae2f80fad343c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 021/121] fix: contain any failure to write a checkpoint

An OSError (e.g. disk full) lost the previous checkpoint of the same name, left a
partial archive behind and crashed the manager. A failure before the checkpoint
was registered or after it replaced another one corrupted the history. When a
failure was configured to end the run the optimizers remained paused. A long
checkpoint made paused optimizers look unresponsive afterwards.
---
 glompo/core/manager.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f02c6d3..00cd362 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1128,13 +1128,14 @@ class GloMPOManager:
         # Construct Checkpoint Name
         name = self.checkpoint_control.get_name()
         path = self.checkpoint_control.checkpointing_dir / (name[:-7] if name.endswith('.tar.gz') else name)
-        path.mkdir(parents=True, exist_ok=True)
         tar_path = path.parent / f'{path.name}.tar.gz'
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
+            path.mkdir(parents=True, exist_ok=True)
+
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1172,8 +1173,10 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
+            except (tarfile.TarError, OSError) as e:
                 self.logger.error("Error encountered during compression.")
+                if tar_path.exists():
+                    tar_path.unlink()
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
@@ -1190,8 +1193,9 @@ class GloMPOManager:
                     if del_path.is_file():
                         del_path.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(str(tar_path.resolve()))
+        except (CheckpointingError, OSError) as e:
+            if not tar_path.exists():
+                self.checkpoint_history.discard(str(tar_path.resolve()))
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
@@ -1204,9 +1208,14 @@ class GloMPOManager:
             if ovw_path.exists():
                 ovw_path.unlink()
 
-        if self.converged:
-            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        self._toggle_optimizers(1)
+            # Release the optimizers, also if the checkpoint failed
+            if self.converged:
+                [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items()
+                 if pack.process.is_alive()]
+            for opt_id in self._optimizer_packs:
+                self._last_feedback[opt_id] = time()  # Being paused does not count as being unresponsive
+            self._toggle_optimizers(1)
+
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
@@ -1831,6 +1840,8 @@ class GloMPOManager:
     def _checkpoint_optimizers(self, path: Union[str, Path]):
         """ Checkpointing sub-task. Gathers, synchronises and saves child optimizers. """
 
+        (path / 'optimizers').mkdir()
+
         # Pause optimizers
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
@@ -1914,7 +1925,6 @@ class GloMPOManager:
         not_chkpt |= messaged & self._graveyard
 
         # Send checkpoint_save signals
-        (path / 'optimizers').mkdir()
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
             if pack.process.is_alive():
-- 
2.43.0


From fb739f25fb84486c77303eb80a5c09fc6ee01459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 022/121] fix: retain the newest checkpoints, whatever their
 names

Checkpoints were deleted in the order of their names, which is not that of their
age for many naming formats, and directories counted as checkpoints.
---
 glompo/core/manager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 00cd362..cd46d05 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1185,13 +1185,14 @@ class GloMPOManager:
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+                files = [file for file in self.checkpoint_control.checkpointing_dir.glob('*.tar.gz')
+                         if file.is_file() and file.name != tar_path.name and
+                         self.checkpoint_control.matches_naming_format(file.name)]
+                files.sort(key=lambda file: (file.stat().st_mtime_ns, file.name), reverse=True)
+                to_delete = files[self.checkpoint_control.keep_past:]
+                self.logger.debug("Identified to delete: %s", to_delete)
+                for del_path in to_delete:
+                    del_path.unlink()
 
         except (CheckpointingError, OSError) as e:
             if not tar_path.exists():
-- 
2.43.0


From 7e6e8c1d1cb215a13295af82e2973214cd9a395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 023/121] fix: match checkpoint names exactly with the naming
 format

Names which only begin like the format were matched (and deleted by keep_past),
'?' and backslashes were taken for regular expression syntax, a format with a
key after the count or with two counts failed, and from 1000 checkpoints on the
index started to repeat.
---
 glompo/core/checkpointing.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..bf519e5 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -108,22 +108,20 @@ class CheckpointingControl:
         self.naming_format = naming_format
         self.count = None
 
-        codes = {'%[(]date[)]': 8, '%[(]year[)]': 4, '%[(]yr[)]': 2, '%[(]month[)]': 2, '%[(]day[)]': 2,
-                 '%[(]time[)]': 6, '%[(]hour[)]': 2,
-                 '%[(]min[)]': 2, '%[(]sec[)]': 2}
-
-        format_re = list(copy(self.naming_format))
-        for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
-                format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
-                format_re[i] = rf'\{char}'
-        format_re = "".join(format_re)
+        codes = {'%(date)': 8, '%(year)': 4, '%(yr)': 2, '%(month)': 2, '%(day)': 2,
+                 '%(time)': 6, '%(hour)': 2,
+                 '%(min)': 2, '%(sec)': 2}
+        codes = {re.escape(key): digits for key, digits in codes.items()}
+
+        format_re = re.escape(self.naming_format)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+        count = re.escape('%(count)')
+        format_re = format_re.replace(count, '(?P<index>[0-9]{3}|[1-9][0-9]{3,})', 1).replace(count, '(?P=index)')
+        if self.naming_format.endswith('.tar.gz'):
+            format_re = format_re[:-len(re.escape('.tar.gz'))]
 
-        self._naming_format_re = format_re
+        self._naming_format_re = format_re + r'(?:\.tar\.gz)?'
 
     def get_name(self) -> str:
         """ Returns a new name for a checkpoint matching the naming format. """
@@ -144,9 +142,9 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [re.fullmatch(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
-                if match and match.lastgroup == 'index':
+                if match and 'index' in match.groupdict():
                     i = int(match.group('index'))
                     max_index = i if i > max_index else max_index
             self.count = max_index + 1
@@ -160,4 +158,4 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(re.fullmatch(self._naming_format_re, name))
-- 
2.43.0


From 6fcff99ff8bf4f598a1de2e4d407ee2e71febe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 024/121] fix: leave the manager uninitialised when loading a
 checkpoint fails

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index cd46d05..ec5dbdf 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -712,6 +712,8 @@ class GloMPOManager:
             with (tmp_dir / 'manager').open('rb') as file:
                 data = dill.load(file)
                 for var, val in data.items():
+                    if var == '_is_restart':
+                        continue  # Only initialised once everything has been loaded
                     try:
                         setattr(self, var, val)
                     except Exception as e:
-- 
2.43.0


From fb2e7a39afa7eda80879b321dc3e867b1133931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 025/121] fix: keep emptying the queue while waiting for the
 optimizers to stop

An optimizer which made many evaluations before reacting to the stop signal
filled the queue again and blocked, and with it the manager: forever with threads.
---
 glompo/core/manager.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ec5dbdf..5e3a6c9 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1691,12 +1691,7 @@ class GloMPOManager:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
         # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
+        self._purge_queue()
 
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
@@ -1710,7 +1705,12 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                timeout = self.end_timeout if not crash_reason else 0.1
+                t_join = time()
+                while pack.process.is_alive() and (timeout is None or time() - t_join < timeout):
+                    # Optimizers may fill the queue again before they react to the signal
+                    self._purge_queue()
+                    pack.process.join(timeout=0.1)
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1719,6 +1719,15 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _purge_queue(self):
+        """ Discards all results in the queue. """
+        try:
+            while not self.optimizer_queue.empty():
+                self.optimizer_queue.get_nowait()
+        except Exception as e:
+            # Queue may not be accessible in a crash
+            self.logger.debug("Queue purge failed.", exc_info=e)
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From c4df0fbc3fe9aebc397d2f94038ef3a3d4ff62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 026/121] fix: release paused optimizers if the manager fails
 during a checkpoint

An error or interrupt while the optimizers were paused left them waiting for the
next instruction of the checkpoint, threads forever.
---
 glompo/core/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 5e3a6c9..61e56bb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1690,6 +1690,9 @@ class GloMPOManager:
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
+        if crash_reason:  # Also release optimizers which a checkpoint has paused
+            [self._send_signal(opt_id, 3) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+
         # Purge the queue to ensure no optimizers are blocking
         self._purge_queue()
 
@@ -1710,6 +1713,7 @@ class GloMPOManager:
                 while pack.process.is_alive() and (timeout is None or time() - t_join < timeout):
                     # Optimizers may fill the queue again before they react to the signal
                     self._purge_queue()
+                    pack.allow_run_event.set()
                     pack.process.join(timeout=0.1)
                 if pack.process.is_alive():
                     if self.proc_backend:
-- 
2.43.0


From 3c4b1958b2eca55fc8f49a3dc67ee9e376616c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 027/121] fix: forget crashes from before the latest optimizers
 were started

---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 61e56bb..21d3126 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1267,8 +1267,9 @@ class GloMPOManager:
 
         processes = [pack.slots for pack in self._optimizer_packs.values() if pack.process.is_alive()]
         if started_new:
-            self.last_opt_spawn = (self.f_counter, self.o_counter) \
-                if self.last_opt_spawn[0] != self.f_counter or self.last_opt_spawn[1] == 0 else self.last_opt_spawn
+            if self.last_opt_spawn[0] != self.f_counter or self.last_opt_spawn[1] == 0:
+                self.last_opt_spawn = (self.f_counter, self.o_counter)
+                self.opt_crashed = False  # Earlier crashes do not concern the optimizers started from now on
             f_best = f'{self.result.fx:.3E}' if self.result.fx is not None else None
             if self.logger.isEnabledFor(logging.INFO):
                 self.logger.info("Status: %(len_proc)d optimizers alive, %(sum_proc)d/%(max_jobs)d slots filled, %(f)d "
-- 
2.43.0


From f3b7aedf7f6e47974c2e734d75bc9e8aecd89ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 028/121] fix: keep the end condition of an optimizer whose
 process lingers after it ended

---
 glompo/core/manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 21d3126..ca5d377 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1449,10 +1449,11 @@ class GloMPOManager:
                     self.proc_backend:
                 warnings.warn(f"Optimizer {opt_id} seems to be hanging. Forcing termination.", RuntimeWarning)
                 self.logger.error("Optimizer %d seems to be hanging. Forcing termination.", opt_id)
-                self._graveyard.add(opt_id)
                 self.opt_log.put_message(opt_id, "Force terminated due to no feedback timeout.")
-                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
+                if opt_id not in self._graveyard:  # Otherwise it already ended, only its process lingers
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
                 pack.process.terminate()
 
             # Force kill zombies
-- 
2.43.0


From dfd52ad7d55162a5f214a7eb297b3ca4174b6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 029/121] fix: do not withhold results in the queue's cache
 when optimizers slow down

---
 glompo/core/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ca5d377..dea9fe6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1501,6 +1501,11 @@ class GloMPOManager:
                 chunk: List[IterationResult] = self.optimizer_queue.get(block=True, timeout=1)
             except queue.Empty:
                 self.logger.debug("Timeout on result queue.")
+                try:
+                    if self.optimizer_queue.has_cache():  # Never filled if the optimizers slowed down
+                        self.optimizer_queue.flush(block=False)
+                except queue.Full:
+                    pass
                 break
 
             for res in chunk:
-- 
2.43.0


From b4d396d0760219a638a7177a3e1026c67da49a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 030/121] fix: contain errors of any kind while writing a
 checkpoint

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index dea9fe6..8c5f9f3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1196,7 +1196,7 @@ class GloMPOManager:
                 for del_path in to_delete:
                     del_path.unlink()
 
-        except (CheckpointingError, OSError) as e:
+        except Exception as e:
             if not tar_path.exists():
                 self.checkpoint_history.discard(str(tar_path.resolve()))
 
-- 
2.43.0


From 1b24aad73c3da4d3389a8080b0fc9d5011a9b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 031/121] fix: contain failure to delete an overwritten
 checkpoint

---
 glompo/core/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 8c5f9f3..610fa0a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1208,8 +1208,11 @@ class GloMPOManager:
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
         finally:
             shutil.rmtree(path, ignore_errors=True)
-            if ovw_path.exists():
-                ovw_path.unlink()
+            try:
+                if ovw_path.exists():
+                    ovw_path.unlink()
+            except OSError as e:
+                self.logger.warning("Could not delete the overwritten checkpoint", exc_info=e)
 
             # Release the optimizers, also if the checkpoint failed
             if self.converged:
-- 
2.43.0


From bba6d8cc54a5189d891a43911c2025a0d00d2871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 032/121] fix: ignore undefined values when looking for the
 best value in BestUnmoving

---
 glompo/hunters/bestunmoving.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glompo/hunters/bestunmoving.py b/glompo/hunters/bestunmoving.py
index ffa0b6f..d52807d 100644
--- a/glompo/hunters/bestunmoving.py
+++ b/glompo/hunters/bestunmoving.py
@@ -1,3 +1,5 @@
+import math
+
 from .basehunter import BaseHunter
 from ..core.optimizerlogger import BaseLogger
 
@@ -40,7 +42,8 @@ class BestUnmoving(BaseHunter):
             self.last_result = False
             return self.last_result
 
-        best_at_calls = min(vals[:-self.calls])
-        best_at_end = min(vals)
+        # Undefined values cannot be compared, and are never the best
+        best_at_calls = min((val for val in vals[:-self.calls] if not math.isnan(val)), default=math.nan)
+        best_at_end = min((val for val in vals if not math.isnan(val)), default=math.nan)
         self.last_result = abs(best_at_end - best_at_calls) <= abs(best_at_calls * self.tol)
         return self.last_result
-- 
2.43.0


From 3e861154df5eddca7c6f11170d57e9493535c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 033/121] fix: kill with the documented probability in
 ValueAnnealing

---
 glompo/hunters/valueannealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/hunters/valueannealing.py b/glompo/hunters/valueannealing.py
index 44b0bc1..e460d1e 100644
--- a/glompo/hunters/valueannealing.py
+++ b/glompo/hunters/valueannealing.py
@@ -32,7 +32,7 @@ class ValueAnnealing(BaseHunter):
         super().__init__()
         assert 0 < med_kill_chance < 1, "med_kill_chance must be between 0 and 1"
         self.med_kill_chance = med_kill_chance
-        self.strictness = np.log(med_kill_chance)
+        self.strictness = np.log(1 - med_kill_chance)  # Victim survives with the complementary probability
 
     def __call__(self,
                  log: BaseLogger,
-- 
2.43.0


From 5a356189ff609eb89eafef7f73b3e285580c5356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 034/121] fix: skip every stage of the chain which has passed

---
 glompo/opt_selectors/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..db4485e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,7 +56,8 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        # Several thresholds may have been passed since the last call
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
         selected = self.avail_opts[self.toggle]
-- 
2.43.0


From 9e8c82d4162d74a34575103c37f18923e67effbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 035/121] fix: stop spawning after the last threshold of the
 chain instead of crashing

---
 glompo/opt_selectors/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index db4485e..a89c69a 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -60,6 +60,9 @@ class ChainSelector(BaseSelector):
         while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle == len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From 813b1032c1223e6134b5ef87886b05ef94c3df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 036/121] fix: start from a random point if there is no
 incumbent yet, and do not expose it

---
 glompo/generators/best.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..9152919 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Sequence, Tuple
 
 import numpy as np
@@ -23,7 +24,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
-        return best.x
+        return copy(best.x)
-- 
2.43.0


From 2a3a6041898563844dcc7874e6a0ce838129f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 037/121] fix: do not expose the point of SinglePointGenerator
 to modification

---
 glompo/generators/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/single.py b/glompo/generators/single.py
index 9bb9c32..1d233f6 100644
--- a/glompo/generators/single.py
+++ b/glompo/generators/single.py
@@ -25,4 +25,4 @@ class SinglePointGenerator(BaseGenerator):
             self.vector = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
-        return self.vector
+        return np.array(self.vector)
-- 
2.43.0


From 9c2adf3aeba1ca1deb3602c6086005138e72dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 038/121] fix: choose only between optimizers with finite
 results in ExploitExploreGenerator

---
 glompo/generators/exploit_explore.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..656d441 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -58,11 +58,13 @@ class ExploitExploreGenerator(BaseGenerator):
         random = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
         self.logger.debug("Random = %s", random)
 
-        f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        bests = [best for opt_id, best in manager.opt_log._best_iters.items() if opt_id and np.isfinite(best['fx'])]
 
-        if len(f_track) == 0:
+        if len(bests) == 0:
             return random
 
+        f_track = np.array([best['fx'] for best in bests])
+
         # Roulette Selection
         shift = f_track - np.min(f_track)
         revert = np.max(shift) - shift
@@ -71,8 +73,8 @@ class ExploitExploreGenerator(BaseGenerator):
         prob = revert / np.sum(revert)
 
         select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
-        self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
+        incumbent = np.array(bests[select]['x'])
+        self.logger.debug("Selected incumbent from Optimizer %d = %s", bests[select]['opt_id'], incumbent)
 
         # Blending parameter
         f_calls = np.clip(manager.f_counter / self.max_func_calls, 0, 1)
@@ -81,6 +83,6 @@ class ExploitExploreGenerator(BaseGenerator):
 
         # New point
         generated = alpha * incumbent + (1 - alpha) * random
-        self.logger.debug("Generated = %f", generated)
+        self.logger.debug("Generated = %s", generated)
 
         return generated
-- 
2.43.0


From 3a4cf0a468b6a2cc4778423db82468d47f2bc4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 039/121] fix: keep the points of BasinHoppingGenerator within
 the bounds and the maximum step

---
 glompo/generators/basinhopping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..140421d 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -91,9 +91,8 @@ class BasinHoppingGenerator(BaseGenerator):
             self.logger.debug("Improvement detected. Number of accepted points: %d", self.n_accept)
 
         # Metropolis chance of accepting another optimizer that is not the best
-        avail_keys = set(manager.opt_log._best_iters.keys())
-        avail_keys.remove(0)
-        avail_keys.remove(manager.opt_log.get_best_iter()['opt_id'])
+        avail_keys = {opt_id for opt_id, other in manager.opt_log._best_iters.items()
+                      if opt_id not in (0, best['opt_id']) and other['fx'] < float('inf')}
         if avail_keys:
             other = manager.opt_log._best_iters[np.random.choice([*avail_keys])]
             w = np.exp(np.min([0, -(other['fx'] - best['fx']) * self.beta]))
@@ -110,14 +109,15 @@ class BasinHoppingGenerator(BaseGenerator):
             actual_accept_rate = self.n_accept / manager.o_counter
             self.logger.debug("Accept rate at %f", actual_accept_rate)
             if actual_accept_rate > self.target_accept_rate:
-                self.step_size /= self.factor
+                self.step_size = min(self.step_size / self.factor, self.max_step_size)
                 self.logger.debug("Accept rate too high, step size increasing %f -> %f.", old_step, self.step_size)
             elif actual_accept_rate < self.target_accept_rate:
                 self.step_size *= self.factor
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
-        return x
+        bnds = np.array(manager.bounds).T
+        return np.clip(x, bnds[0], bnds[1])
-- 
2.43.0


From df455bc021de7fc263452cb2af460d78a5970ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 040/121] fix: avoid overflow in the selection of
 ExploitExploreGenerator

---
 glompo/generators/exploit_explore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index 656d441..001b4cb 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -63,9 +63,10 @@ class ExploitExploreGenerator(BaseGenerator):
         if len(bests) == 0:
             return random
 
-        f_track = np.array([best['fx'] for best in bests])
+        f_track = np.array([best['fx'] for best in bests], dtype=float)
 
         # Roulette Selection
+        f_track /= max(np.max(np.abs(f_track)), 1)  # Avoid overflow for very large values
         shift = f_track - np.min(f_track)
         revert = np.max(shift) - shift
         if np.all(revert == 0):
-- 
2.43.0


From 90c76e0b6676c05b542f58d98ff3a9005d9eeeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 041/121] fix: do not keep an item in the cache of the queue if
 putting it was refused

---
 glompo/core/_backends.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 0aa9cc8..421b94a 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -145,8 +145,7 @@ class ChunkingQueue(queue.Queue):
         """
         if self.fast_func:
             with self.cache_lock:
-                self.cache.append(item)
-                super().put(self.cache, block, timeout)
+                super().put([*self.cache, item], block, timeout)
                 self.cache = []
         else:
             super().put([item], block, timeout)
-- 
2.43.0


From 7c47ff467f171d00e2f96bb09bd88b09754fde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 042/121] fix: do not put an empty chunk when flushing the
 queue

---
 glompo/core/_backends.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 421b94a..b88622a 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -185,5 +185,6 @@ class ChunkingQueue(queue.Queue):
         """ Attempts to put cache items (if any) in the queue according to block and timeout. """
         if self.fast_func:
             with self.cache_lock:
-                super().put(self.cache, block, timeout)
-                self.cache = []
+                if self.cache:
+                    super().put(self.cache, block, timeout)
+                    self.cache = []
-- 
2.43.0


From c17b9c4adf30a9c2dcaf2e980f56c43ab7ec7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 043/121] fix: put chunks which are full also when the queue
 starts caching

---
 glompo/core/_backends.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index b88622a..af0dd8d 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -159,18 +159,16 @@ class ChunkingQueue(queue.Queue):
         if not self.fast_func:
             try:
                 super().put([item], False)
+                return
             except queue.Full:
-                with self.cache_lock:
-                    self.logger.info("Queue caching activated.")
-                    self.fast_func = True
-                    self.cache.append(item)
+                self.logger.info("Queue caching activated.")
+                self.fast_func = True
 
-        else:
-            with self.cache_lock:
-                self.cache.append(item)
-                if len(self.cache) >= self.chunk_size:
-                    super().put(self.cache)
-                    self.cache = []
+        with self.cache_lock:
+            self.cache.append(item)
+            if len(self.cache) >= self.chunk_size:
+                super().put(self.cache)
+                self.cache = []
 
     def put_incache(self, item):
         """ Item is explicitly placed in the cache rather than the queue.
-- 
2.43.0


From 7b73c9c2870b461da6d68fcf40a929e20acea86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 044/121] fix: do not block the consumer of the queue on a
 producer waiting for space

---
 glompo/core/_backends.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index af0dd8d..54d555b 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -135,8 +135,15 @@ class ChunkingQueue(queue.Queue):
         self.logger = logging.getLogger('glompo.manager')
 
     def has_cache(self):
-        with self.cache_lock:
-            return bool(self.cache)
+        return bool(self.cache)  # No lock, it may be held by a producer waiting for space in the queue
+
+    def _lock_cache(self, block=True, timeout=None):
+        """ Acquires :attr:`cache_lock`.
+        It may be held for as long as the queue is full, thus :class:`~queue.Full` is raised if it is not available.
+        """
+        if not (self.cache_lock.acquire(True, -1 if timeout is None else timeout) if block
+                else self.cache_lock.acquire(False)):
+            raise queue.Full
 
     def put(self, item, block=True, timeout=None):
         """ A put is attempted according to `block` and `timeout`.
@@ -144,9 +151,12 @@ class ChunkingQueue(queue.Queue):
         accordance with `block` and `timeout`.
         """
         if self.fast_func:
-            with self.cache_lock:
+            self._lock_cache(block, timeout)
+            try:
                 super().put([*self.cache, item], block, timeout)
                 self.cache = []
+            finally:
+                self.cache_lock.release()
         else:
             super().put([item], block, timeout)
 
@@ -182,7 +192,10 @@ class ChunkingQueue(queue.Queue):
     def flush(self, block=True, timeout=None):
         """ Attempts to put cache items (if any) in the queue according to block and timeout. """
         if self.fast_func:
-            with self.cache_lock:
+            self._lock_cache(block, timeout)
+            try:
                 if self.cache:
                     super().put(self.cache, block, timeout)
                     self.cache = []
+            finally:
+                self.cache_lock.release()
-- 
2.43.0


From 588c460ac4a0c4738ab3183c59af766fcdf0dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 045/121] fix: clearing an optimizer from the in-memory log a
 second time is no error

---
 glompo/core/optimizerlogger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index a8694b0..4a165d8 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -110,6 +110,8 @@ class BaseLogger:
 
         to_del = [opt_id] if opt_id else [*self._storage.keys()]
         for key in to_del:
+            if key not in self._storage:  # Nothing left to clear
+                continue
             record = self._storage.pop(key)
             self._cleared[key] = {k: record[k] for k in ('metadata', 'messages')}
 
-- 
2.43.0


From d897c54b457cd35a83e9c376f45814e272385be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 046/121] fix: roll the log file back by its contents,
 including optimizers not evaluated yet; do not modify a log file which is
 refused

---
 glompo/core/manager.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 610fa0a..2159b51 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -926,7 +926,7 @@ class GloMPOManager:
         mode = 'w'
         log_file = self.working_dir / 'glompo_log.h5'
         if self._is_restart and log_file.exists():
-            with tb.open_file(str(log_file), 'a') as peek:
+            with tb.open_file(str(log_file), 'r') as peek:
                 # Confirm checksum match
                 if peek.root._v_attrs.checksum != self._checksum:
                     self.logger.critical("Checkpoint points to log file (%s, Checksum: %s) which is for an "
@@ -937,8 +937,10 @@ class GloMPOManager:
                                    f"{peek.root._v_attrs.checksum}) which is for an optimization which does not match "
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
+            with tb.open_file(str(log_file), 'a') as peek:
                 # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                tables = [*peek.walk_nodes('/', 'Table')]
+                file_f_count = max((int(tab[-1]['call_id']) for tab in tables if tab.nrows > 0), default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -946,15 +948,17 @@ class GloMPOManager:
                     warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
                                   f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
                                   f"the checkpoint.")
-                    for tab in peek.walk_nodes('/', 'Table'):
-                        tab: tb.Table
-                        call_ids = tab.col('call_id')
-                        crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
-                        tab.remove_rows(crit_i)
-
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                    for tab in tables:
+                        crit_i = int(np.searchsorted(tab.col('call_id'), self.f_counter, 'right'))
+                        if crit_i == 0:
+                            tab.remove()
+                        elif crit_i < tab.nrows:
+                            tab.remove_rows(crit_i)
+
+                # Remove optimizers started after the checkpoint, also if they were not evaluated
+                for name in [group._v_name for group in peek.iter_nodes('/', 'Group')]:
+                    if int(name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
-- 
2.43.0


From b70e3e57045d4d22ffb3016376d4dcb39dfba2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 047/121] fix: a log loaded from a checkpoint can continue in a
 new file, and messages and metadata recorded after the checkpoint are rolled
 back

---
 glompo/core/optimizerlogger.py | 54 ++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 4a165d8..647fe53 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -375,15 +375,8 @@ class FileLogger(BaseLogger):
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        group = self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
 
         for key, val in zip(('opt_id', 'opt_type', 't_start'),
                             (opt_id, opt_type, t_start)):
@@ -391,9 +384,29 @@ class FileLogger(BaseLogger):
 
         self._o_counter += 1
 
+    def _create_group(self, opt_id: int) -> tb.Group:
+        """ Creates the HDF5 group of an optimizer. """
+        group = self.pytab_file.create_group(where='/',
+                                             name=f'optimizer_{opt_id}')
+        self._create_messages(opt_id, [])
+        self._groups[opt_id] = group
+        return group
+
+    def _create_messages(self, opt_id: int, messages: Sequence[str]):
+        """ Creates the HDF5 array which holds the messages of an optimizer. """
+        array = self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                               name='messages',
+                                               atom=tb.VLUnicodeAtom(),
+                                               title="Messages Generated by Optimizer",
+                                               expectedrows=3)
+        for message in messages:
+            array.append(message)
+        array.flush()
+
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
-        super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
+        if 'fx' not in self._storage[opt_id]:  # Otherwise continuing from a checkpoint in a new file
+            super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
         headers = {'call_id': tb.UInt32Col(pos=-3),
                    'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
                    'fx': tb.Float64Col(pos=-1)}
@@ -519,10 +532,25 @@ class FileLogger(BaseLogger):
         """
         self.pytab_file = tb.open_file(str(path), mode, filters=tb.Filters(1, 'blosc'))
         self.pytab_file.root._v_attrs.checksum = checksum
-        if mode == 'a':
-            self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
-            self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
-                            self.pytab_file.walk_nodes('/', 'Table')}
+        self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
+        self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
+                        self.pytab_file.walk_nodes('/', 'Table')}
+
+        # Match file to the optimizers in a loaded checkpoint
+        for opt_id, record in {**self._storage, **self._cleared}.items():
+            if opt_id not in self._groups:
+                self._create_group(opt_id)
+            group = self._groups[opt_id]
+
+            for key in group._v_attrs._f_list('user'):
+                if key not in record['metadata']:
+                    del group._v_attrs[key]
+            for key, val in record['metadata'].items():
+                group._v_attrs[key] = val
+
+            if group['messages'].nrows != len(record['messages']):
+                group['messages'].remove()
+                self._create_messages(opt_id, record['messages'])
 
     def close(self):
         """ Remove from memory, flush to file and close the file. """
-- 
2.43.0


From ea50ca11e7ac964a1f307271f04c9760ed82cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 048/121] fix: warn if the log file is missing when resuming,
 as documented

---
 glompo/core/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2159b51..a2be718 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -960,6 +960,9 @@ class GloMPOManager:
                     if int(name.split('_')[1]) > self.o_counter:
                         peek.remove_node('/', name, recursive=True)
             mode = 'a'
+        elif self._is_restart and self.summary_files > 2:
+            self.logger.warning("Log file (%s) not found. Logging into a new file.", log_file)
+            warnings.warn(f"Log file ({log_file}) not found. Logging into a new file.", UserWarning)
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
         self.opt_log.open(log_file, mode, self._checksum)
-- 
2.43.0


From 23304c463ba102e051b5051c10c80e1f0ec54014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 049/121] fix: a checkpoint made at initialisation matches the
 log file of its optimization

---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a2be718..4aa246a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -617,6 +617,7 @@ class GloMPOManager:
                 self.end_timeout = None
 
         self._is_restart = False
+        self._checksum = self._generate_checksum()
 
         if self.checkpoint_control and self.checkpoint_control.checkpoint_at_init:
             self.checkpoint()
@@ -964,7 +965,8 @@ class GloMPOManager:
             self.logger.warning("Log file (%s) not found. Logging into a new file.", log_file)
             warnings.warn(f"Log file ({log_file}) not found. Logging into a new file.", UserWarning)
 
-        self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+        if self._is_restart or not self._checksum:
+            self._checksum = self._generate_checksum()
         self.opt_log.open(log_file, mode, self._checksum)
 
         if self.visualisation and self.scope.record_movie:
@@ -2079,6 +2081,11 @@ class GloMPOManager:
                              f"    {'Working Dir:':.<26}{Path.cwd()}\n"
                              f"    {'Username:':.<26}{getpass.getuser()}")
 
+    @staticmethod
+    def _generate_checksum() -> str:
+        """ Returns a random key which matches checkpoints to a log file. """
+        return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+
     def _purge_old_results(self):
         """ Identifies and removes old log files if allowed. """
 
-- 
2.43.0


From 5ad0ebcbc120b1f62ff0fbed2c57bb397ad82fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 050/121] fix: bring the whole log file to disk when it is
 flushed for a checkpoint

---
 glompo/core/optimizerlogger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 647fe53..f522a32 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -504,6 +504,9 @@ class FileLogger(BaseLogger):
                 self._writing_chunk[o] = []
                 table.flush()
 
+        if self.pytab_file and not opt_id:
+            self.pytab_file.flush()  # Everything known at a checkpoint must survive if this process is killed
+
     def clear_cache(self, opt_id: Optional[int] = None):
         """ Clears information held in the cache for hunting purposes.
         If `opt_id` is provided then the corresponding optimizer is closed, else all optimizers are closed in this way.
-- 
2.43.0


From bfb0ed99b8765f5539cf955d1d2fb33467d35360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 051/121] fix: RandomOptimizer includes its last evaluation in
 a checkpoint

---
 glompo/optimizers/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..dd9dc04 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -60,6 +60,12 @@ class RandomOptimizer(BaseOptimizer):
             fx = function(vector)
             self.logger.debug("Function returned fx = %f", fx)
 
+            if fx < best_f:
+                best_f = fx
+                best_x = vector
+                self.logger.debug("Updating best")
+                self.result.x, self.result.fx = best_x, best_f
+
             if callbacks and callbacks():
                 self.stop_called = True
 
@@ -68,12 +74,6 @@ class RandomOptimizer(BaseOptimizer):
                 self.check_messages()
                 self._pause_signal.wait()
 
-            if fx < best_f:
-                best_f = fx
-                best_x = vector
-                self.logger.debug("Updating best")
-                self.result.x, self.result.fx = best_x, best_f
-
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From 8c9872aa90f4677e988c78bc4a3c487f83e73f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 052/121] fix: CMAOptimizer can be resumed from a checkpoint,
 sigma0 is not needed then

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..e24e185 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -136,7 +136,7 @@ class CMAOptimizer(BaseOptimizer):
         """
         task_settings = copy.deepcopy(self.cmasettings)
 
-        if sigma0 <= 0:
+        if not self.is_restart and sigma0 <= 0:
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-- 
2.43.0


From 78a8314219ac843fabc658f7416149b2543f775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 053/121] fix: CMAOptimizer reports the success of an ordinary
 convergence

---
 glompo/optimizers/cmawrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index e24e185..0ff3b9c 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.result.success = True  # Unless stopped from outside
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
             self.es.inject([x0], force=True)
-- 
2.43.0


From 76a86c18a85732721aa941d0df485cd23b162230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 054/121] fix: CMAOptimizer prints nothing if not verbose, as
 documented

---
 glompo/optimizers/cmawrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 0ff3b9c..7837634 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -189,7 +189,7 @@ class CMAOptimizer(BaseOptimizer):
                                     "fx = 'inf' and x = (first vector generated by es.ask())")
                 self.result.x = x[0]
             self.logger.debug("Extracted x and fx from result")
-            if self.verbose and i % 10 == 0 or i == 1:
+            if self.verbose and (i % 10 == 0 or i == 1):
                 print(f"@ iter = {i} fx={self.result.fx:.2E} sigma={self.es.sigma:.3E}")
 
             if callbacks and callbacks():
@@ -206,7 +206,8 @@ class CMAOptimizer(BaseOptimizer):
                     self.injection_frequency and i - self.injection_counter > self.injection_frequency:
                 self.injection_counter = i
                 self.es.inject([self.incumbent['x']], force=self.force_injects)
-                print("Incumbent solution injected.")
+                if self.verbose:
+                    print("Incumbent solution injected.")
 
         self.logger.debug("Exited optimization loop")
 
-- 
2.43.0


From ab22820877fef7c0c46b1fb181aeb12dfd58d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 055/121] fix: CMAOptimizer finds its best point if some
 evaluations are nan

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 7837634..97a4a4d 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -181,7 +181,7 @@ class CMAOptimizer(BaseOptimizer):
             if i == 1:
                 self.incumbent = {'x': x0, 'fx': fx[0]}
 
-            self.es.tell(x, fx)
+            self.es.tell(x, [np.inf if np.isnan(f) else f for f in fx])  # cma does not track the best next to nan
             self.logger.debug("Told solutions")
             self.result.x, self.result.fx = self.es.result[:2]
             if self.result.fx == float('inf'):
-- 
2.43.0


From 1fa75990e1b8daea1999b3291e73cf8cbada4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 056/121] fix: CMAOptimizer uses its population size for every
 minimization

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 97a4a4d..c8b6029 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -140,7 +140,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-        if not self.popsize:
+        if not self.is_restart and not self.cmasettings.get('popsize'):
             if self.workers > 1:
                 task_settings['popsize'] = self.workers
             else:
-- 
2.43.0


From 5fc0800e56ff2d6842f6d7c576c24cf55e92cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 057/121] fix: CMAOptimizer evaluates its starting point and
 injected points also near the bounds

---
 glompo/optimizers/cmawrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index c8b6029..00e28d3 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -160,7 +160,7 @@ class CMAOptimizer(BaseOptimizer):
             self.result.success = True  # Unless stopped from outside
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
-            self.es.inject([x0], force=True)
+            self.es.inject([self._to_genotype(x0)], force=True)
 
         self.logger.debug("Entering optimization loop")
 
@@ -205,7 +205,7 @@ class CMAOptimizer(BaseOptimizer):
             if self.incumbent['fx'] < min(fx) and \
                     self.injection_frequency and i - self.injection_counter > self.injection_frequency:
                 self.injection_counter = i
-                self.es.inject([self.incumbent['x']], force=self.force_injects)
+                self.es.inject([self._to_genotype(self.incumbent['x'])], force=self.force_injects)
                 if self.verbose:
                     print("Incumbent solution injected.")
 
@@ -269,6 +269,10 @@ class CMAOptimizer(BaseOptimizer):
             fx = [function(i) for i in x]
         return fx
 
+    def _to_genotype(self, x: Sequence[float]) -> Sequence[float]:
+        """ Translates a parameter vector to the internal (unbounded) representation in which CMA expects injections. """
+        return self.es.gp.geno(np.array(x, dtype=float), from_bounds=self.es.boundary_handler.inverse)
+
     def callstop(self, reason: str = "Manager termination signal"):
         if reason and self.verbose:
             print(reason)
-- 
2.43.0


From 763c2e6625ca3070ba1f1315e88bf36783d50e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 058/121] fix: CMAOptimizer does not discard a solution
 received during its first iteration

---
 glompo/optimizers/cmawrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 00e28d3..acaa753 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -178,8 +178,8 @@ class CMAOptimizer(BaseOptimizer):
                 self.logger.debug("Unfinished evaluation detected. Breaking out of loop")
                 break
 
-            if i == 1:
-                self.incumbent = {'x': x0, 'fx': fx[0]}
+            if i == 1 and self.incumbent['x'] is None:  # Otherwise already received from the manager
+                self.incumbent = {'x': x[0], 'fx': fx[0]}
 
             self.es.tell(x, [np.inf if np.isnan(f) else f for f in fx])  # cma does not track the best next to nan
             self.logger.debug("Told solutions")
-- 
2.43.0


From f3d2d8ccff56fc0459d95c8873b538efcf328a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 059/121] fix: CMAOptimizer resumed after its last iteration
 without any valid result does not crash

---
 glompo/optimizers/cmawrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index acaa753..dbcc924 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -216,7 +216,8 @@ class CMAOptimizer(BaseOptimizer):
         if self.result.fx == float('inf'):
             self.logger.warning("CMA iteration found no valid results."
                                 "fx = 'inf' and x = (first vector generated by es.ask())")
-            self.result.x = x[0]
+            if x is not None:
+                self.result.x = x[0]
 
         if self.verbose:
             print(f"Optimization terminated: success = {self.result.success}")
-- 
2.43.0


From 36700e5bb59dafe21a52aaa6cac799c59bf44b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 060/121] fix: ignore STOP and CHKPT entries which cannot be
 removed

---
 glompo/core/manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 4aa246a..52f8452 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1623,7 +1623,7 @@ class GloMPOManager:
                 file.unlink()
                 self._shutdown_job(opt_id, None, "User STOP file intervention.")
                 self.logger.info("STOP file found for Optimizer %d", opt_id)
-            except ValueError:
+            except (ValueError, OSError):
                 self.logger.info("Error encountered trying to process STOP file '%s'", file)
                 continue
 
@@ -1634,7 +1634,11 @@ class GloMPOManager:
 
         chkpt_path = self.working_dir / "CHKPT"
         if chkpt_path.exists():
-            chkpt_path.unlink()
+            try:
+                chkpt_path.unlink()
+            except OSError:
+                self.logger.info("Error encountered trying to process CHKPT file '%s'", chkpt_path)
+                return
 
             has_controls = bool(self.checkpoint_control)
             if not has_controls:
-- 
2.43.0


From 7d01daf96fe527dc5efa1985db0a0750bf58f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 061/121] fix: ZeroSum declares its own global minimum

---
 glompo/benchmark_fncs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 5cc0165..29335f0 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1365,11 +1365,12 @@ class ZeroSum(BaseTestCase):
 
     @property
     def min_x(self) -> Sequence[float]:
-        return [7.70628098] * self.dims
+        warnings.warn("Global minimum is degenerate at every parameter vector which sums to zero.", UserWarning)
+        return [0] * self.dims
 
     @property
     def min_fx(self) -> float:
-        return -self.dims
+        return 0
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 91a00685c7b37e51c0f6a769bb87adfc8b48c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 062/121] fix: Alpine02 does not go below its declared minimum

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 29335f0..c594a9f 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -212,11 +212,11 @@ class Alpine02(BaseTestCase):
 
     @property
     def min_x(self) -> Sequence[float]:
-        return [7.917] * self.dims
+        return [7.917052698] * self.dims
 
     @property
     def min_fx(self) -> float:
-        return -2.808 ** self.dims
+        return -2.808131180007006 ** self.dims
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 0c00873564499126f75f1f5f2ecfcc20743832f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 063/121] fix: LennardJones can be evaluated at integer
 coordinates

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index c594a9f..14110bd 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -650,7 +650,7 @@ class LennardJones(BaseTestCase):
         numpy.ndarray
             Array of square distances between points in `x`.
         """
-        x = np.array(x)
+        x = np.array(x, dtype=float)
         if x.ndim == 1:
             x = x.reshape((self.N, self.d))
 
-- 
2.43.0


From d079cff00bce3c97582e1fad8045f4b7e18f98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 064/121] fix: LennardJones estimates its minimum in three
 spatial dimensions

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 14110bd..b22455a 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -667,7 +667,7 @@ class LennardJones(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims == 3:
+        if self.d == 3:
             warnings.warn("Energy minimum estimate only.")
             energy = self.global_min_fitting_coefficients * self.N ** np.arange(6, -1, -1)
             return energy.sum()
-- 
2.43.0


From cad26d127cf956c5962e46db2f62c21b71d103d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 065/121] fix: LennardJones respects its delay

---
 glompo/benchmark_fncs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index b22455a..280e7f9 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -578,7 +578,7 @@ class LennardJones(BaseTestCase):
     The `x` parameter for the call method may be a :math:`Nd` length vector or a :math:`N \\times d` array.
     """
 
-    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay=None):
+    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay: float = 0):
         super().__init__(atoms * dims, delay=delay)
         self.N = atoms
         self.d = dims
@@ -604,6 +604,7 @@ class LennardJones(BaseTestCase):
         self._sig11 = sigma ** 11
 
     def __call__(self, x: Sequence[float]) -> float:
+        super().__call__(x)
         x, delta, dists_sq = self._common_calc(x)
 
         calc = self._sig2 / np.array(dists_sq)
-- 
2.43.0


From 2870af0ca87c0f68af4c7be45e7757d085881248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 066/121] fix: Shekel declares the minimum of the selected
 dimensions, m and shift

---
 glompo/benchmark_fncs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 280e7f9..d74c804 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1079,7 +1079,9 @@ class Shekel(BaseTestCase):
     def min_fx(self) -> float:
         warnings.warn("Global minimum is only known for some combinations of m and d. The provided value is "
                       "approximate.")
-        return -10.6
+        sos = np.sum((np.array(self.min_x) - self.a[:, :self.dims]) ** 2, axis=1)
+        minimum = -np.sum((self.c + sos) ** -1)
+        return minimum + 12 if self.shift else minimum
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 0f89cc232b0f7c0eb278c6de9abcf10726fe2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 067/121] fix: Shubert declares the minimum of its third style
 and only in two dimensions

---
 glompo/benchmark_fncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index d74c804..3e0baf3 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1141,7 +1141,7 @@ class Shubert(BaseTestCase):
             calc = np.sum(calc)
 
             if self.shift_positive:
-                calc += 24.062499
+                calc += 29.675901
 
         else:
             x = np.reshape(x, (-1, 1))
@@ -1164,8 +1164,8 @@ class Shubert(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims > 2:
-            warnings.warn("Minimum unknown for d>2")
+        if self._dims != 2:
+            warnings.warn("Minimum only known for d=2")
             return None
 
         if self.shift_positive:
@@ -1174,7 +1174,7 @@ class Shubert(BaseTestCase):
         if self.style == 1:
             return -186.7309
         if self.style == 3:
-            return -24.062499
+            return -29.6759
         return -29.016015
 
     @property
-- 
2.43.0


From 9028abd89bc84e81a825e3fa547ccb31eda1c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 068/121] fix: ExpLeastSquaresCost accepts any number of
 explicit training points

---
 glompo/benchmark_fncs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 3e0baf3..5e18ab4 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -499,6 +499,7 @@ class ExpLeastSquaresCost(BaseTestCase):
             self.u_train = np.random.uniform(u_train[0], u_train[1], n_train)
         else:
             self.u_train = np.array(u_train)
+            self.n_train = len(self.u_train)
 
         self.p_true = np.random.uniform(p_range[0], p_range[1], dims)
 
-- 
2.43.0


From 511d6c8ace30ef04c4dbe119091df673406dede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 069/121] fix: Deceptive is defined at the edges of its pieces
 for any b

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 5e18ab4..66adb11 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -277,7 +277,7 @@ class Deceptive(BaseTestCase):
             elif (1 + 4 * ai) / 5 < x <= 1:
                 gx[i] = (x - 1) / (1 - ai) + 0.8
 
-        return gx
+        return np.maximum(gx, 0)  # Rounding at the edges
 
     @property
     def min_x(self) -> Sequence[float]:
-- 
2.43.0


From 4c361807c7359ab5717938971c4f55215218b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 070/121] fix: LennardJones of nearly coinciding atoms is not
 undefined

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 66adb11..12fc0cf 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -609,7 +609,7 @@ class LennardJones(BaseTestCase):
         x, delta, dists_sq = self._common_calc(x)
 
         calc = self._sig2 / np.array(dists_sq)
-        calc = calc ** 6 - calc ** 3
+        calc = calc ** 3 * (calc ** 3 - 1)
         calc = calc.sum()
         calc *= 4 * self.eps
 
-- 
2.43.0


From ef0ede0af29a5051629df895fe98ae3447d68a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 071/121] fix: Michalewicz is defined for any m and declares
 its minimum only where known

---
 glompo/benchmark_fncs.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 12fc0cf..d46229a 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -773,7 +773,7 @@ class Michalewicz(BaseTestCase):
         x = np.array(x)
 
         calc = np.sin(x)
-        calc *= np.sin(i * x ** 2 / np.pi) ** (2 * self.m)
+        calc *= (np.sin(i * x ** 2 / np.pi) ** 2) ** self.m
 
         return -np.sum(calc)
 
@@ -784,13 +784,14 @@ class Michalewicz(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims == 2:
-            return -1.8013
-        if self._dims == 5:
-            return -4.687658
-        if self._dims == 10:
-            return -9.66015
-        warnings.warn("Global minimum only known for d=2, 5 and 10")
+        if self.m == 10:
+            if self._dims == 2:
+                return -1.8013
+            if self._dims == 5:
+                return -4.687658
+            if self._dims == 10:
+                return -9.66015
+        warnings.warn("Global minimum only known for d=2, 5 and 10 with m=10")
         return np.inf
 
     @property
-- 
2.43.0


From e5593d1783dcd8b5eaff8c5cdb79a46239cd9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 072/121] fix: Shubert declares the minimum of its fourth style

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index d46229a..c111e44 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1155,7 +1155,7 @@ class Shubert(BaseTestCase):
             calc = np.sum(calc)
 
             if self.shift_positive:
-                calc += 29.016015
+                calc += 25.741771
 
         return calc
 
@@ -1177,7 +1177,7 @@ class Shubert(BaseTestCase):
             return -186.7309
         if self.style == 3:
             return -29.6759
-        return -29.016015
+        return -25.741771
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 58d2399bed64d1df8274ff937e7747c554c06d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 073/121] fix: redirected print streams of threads can be used
 like those they replace

---
 glompo/core/_backends.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 54d555b..206574a 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -78,16 +78,23 @@ class ThreadPrintRedirect:
         path = working_directory / "glompo_optimizer_printstreams" / f"printstream_{opt_id:04}.{ext}"
         self.threads[thread_id] = path.open("w+")
 
+    def __getattr__(self, name):
+        if name in ('stdout', 'threads'):
+            raise AttributeError(name)
+        return getattr(self._stream(), name)
+
+    def _stream(self) -> TextIO:
+        """ Returns the stream to which the current thread prints. """
+        file = self.threads.get(threading.currentThread().ident)
+        return self.stdout if file is None or file.closed else file
+
     def write(self, message):
         """ Sends message to the appropriate handler. """
-        ident = threading.currentThread().ident
-        if ident in self.threads and not self.threads[ident].closed:
-            self.threads[ident].write(message)
-        else:
-            self.stdout.write(message)
+        return self._stream().write(message)
 
     def flush(self):
-        """ Required for Python 3 compatibility. """
+        """ Flushes the appropriate handler. """
+        self._stream().flush()
 
     def close(self, thread_id: int = None):
         """ Closes all open files to which messages are being sent. """
-- 
2.43.0


From a157367bd6464688acb530070f5c0a71ffd913d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 074/121] fix: print streams accept any text and are not lost
 when an optimizer is terminated

---
 glompo/common/wrappers.py | 5 +++--
 glompo/core/_backends.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/glompo/common/wrappers.py b/glompo/common/wrappers.py
index 2160fe7..ae95aa3 100644
--- a/glompo/common/wrappers.py
+++ b/glompo/common/wrappers.py
@@ -13,8 +13,9 @@ def process_print_redirect(opt_id, working_dir, func):
 
     @wraps(func)
     def wrapper(*args, **kwargs):
-        sys.stdout = Path(working_dir, "glompo_optimizer_printstreams", f"printstream_{opt_id:04}.out").open("w")
-        sys.stderr = Path(working_dir, "glompo_optimizer_printstreams", f"printstream_{opt_id:04}.err").open("w")
+        directory = Path(working_dir, "glompo_optimizer_printstreams")
+        sys.stdout = (directory / f"printstream_{opt_id:04}.out").open("w", buffering=1, encoding="utf-8")
+        sys.stderr = (directory / f"printstream_{opt_id:04}.err").open("w", buffering=1, encoding="utf-8")
         func(*args, **kwargs)
         sys.stdout.close()
         sys.stderr.close()
diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 206574a..7333197 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -76,7 +76,7 @@ class ThreadPrintRedirect:
         """ Adds a thread to the set of files. """
         thread_id = threading.currentThread().ident
         path = working_directory / "glompo_optimizer_printstreams" / f"printstream_{opt_id:04}.{ext}"
-        self.threads[thread_id] = path.open("w+")
+        self.threads[thread_id] = path.open("w+", buffering=1, encoding="utf-8")
 
     def __getattr__(self, name):
         if name in ('stdout', 'threads'):
-- 
2.43.0


From 8e05b15127b0670d13e2ed4cac1e4df1088ed7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 075/121] fix: optimizer log splitting keeps whole records, any
 text and records of other loggers

---
 glompo/common/helpers.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index ef5a853..4befb46 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -3,6 +3,7 @@ import inspect
 import logging
 import math
 import os
+import re
 import sys
 from pathlib import Path
 from typing import Any, Dict, Iterator, Optional, Sequence, Tuple, Union, overload
@@ -83,32 +84,33 @@ class SplitOptimizerLogs(logging.Filter):
                  formatter: Optional[logging.Formatter] = None):
         super().__init__()
         self.opened = set()
-        self.filepath = Path(filepath) if filepath else Path.cwd()
+        self.filepath = Path(filepath).resolve() if filepath else Path.cwd()
         self.filepath.mkdir(parents=True, exist_ok=True)
         self.propagate = int(propagate)
         self.fomatter = formatter
 
     def filter(self, record: logging.LogRecord) -> int:
 
-        opt_id = int(record.name.replace("glompo.optimizers.opt", ""))
+        match = re.match(r'(glompo\.optimizers\.opt([0-9]+))(?:\.|$)', record.name)
+        if not match:
+            return 1  # Not from an optimizer managed by GloMPO
+
+        opt_id = int(match.group(2))
 
         if opt_id not in self.opened:
             self.opened.add(opt_id)
 
-            if self.fomatter:
-                message = self.fomatter.format(record)
-            else:
-                message = record.getMessage()
-
-            with (self.filepath / f"optimizer_{opt_id}.log").open('w+') as file:
-                file.write(f"{message}\n")
+            with (self.filepath / f"optimizer_{opt_id}.log").open('w+'):
+                pass  # Remove messages of a previous optimization
 
-            handler = logging.FileHandler(self.filepath / f"optimizer_{opt_id}.log")
+            handler = logging.FileHandler(self.filepath / f"optimizer_{opt_id}.log", encoding='utf-8')
 
             if self.fomatter:
                 handler.setFormatter(self.fomatter)
 
-            logger = logging.getLogger(record.name)
+            handler.handle(record)
+
+            logger = logging.getLogger(match.group(1))
             logger.addHandler(handler)
 
         return self.propagate
-- 
2.43.0


From dc3cbc6da8508475c7fab4231146098b66fff5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 076/121] fix: summary file is plain YAML for all kinds of
 settings objects

---
 glompo/common/helpers.py | 66 ++++++++++++++++++++++++++++++++++------
 glompo/core/manager.py   | 15 +++++++--
 2 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index 4befb46..ce45486 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -32,6 +32,11 @@ __all__ = ("SplitOptimizerLogs",
            "numpy_dtype_presenter",
            "numpy_array_presenter",
            "bound_group_presenter",
+           "sequence_presenter",
+           "mapping_presenter",
+           "set_presenter",
+           "name_presenter",
+           "string_presenter",
            "unknown_object_presenter",
            "WorkInDirectory",
            "CheckpointingError",
@@ -454,11 +459,7 @@ def optimizer_selector_presenter(dumper, opt_selector: 'BaseSelector'):
 
 def generator_presenter(dumper, generator: 'BaseGenerator'):
     """ Unique YAML constructor for the :class:`.BaseGenerator`. """
-    info = {}
-    for attr in dir(generator):
-        if not attr.startswith('_') and not callable(getattr(generator, attr)) and attr != 'logger' \
-                and attr != 'bounds':
-            info[attr] = getattr(generator, attr)
+    info = {attr: val for attr, val in _public_variables(generator).items() if attr not in ('logger', 'bounds')}
 
     return dumper.represent_mapping('tag:yaml.org,2002:map',
                                     {'Generator': type(generator).__name__,
@@ -473,6 +474,10 @@ def flow_presenter(dumper, lst):
 def numpy_dtype_presenter(dumper, numpy_type):
     """ Unique YAML constructor for :class:`numpy.dtype`. """
     value = numpy_type.item()
+    if isinstance(value, complex):
+        return string_presenter(dumper, value)
+    if isinstance(value, tuple):
+        return sequence_presenter(dumper, value)
     try:
         return getattr(dumper, f'represent_{type(value).__name__}')(value)
     except AttributeError:
@@ -497,6 +502,52 @@ def bound_group_presenter(dumper, bound_group):
     return dumper.represent_mapping('tag:yaml.org,2002:map', grouped)
 
 
+def sequence_presenter(dumper, sequence):
+    """ Presents tuples and similar as ordinary YAML sequences. """
+    return dumper.represent_sequence('tag:yaml.org,2002:seq', list(sequence))
+
+
+def mapping_presenter(dumper, mapping):
+    """ Presents dictionaries of any type as YAML mappings with keys which can be loaded by any YAML loader. """
+    return dumper.represent_mapping('tag:yaml.org,2002:map', {_plain_key(k): v for k, v in mapping.items()})
+
+
+def set_presenter(dumper, set_):
+    """ Presents sets as YAML sets with members which can be loaded by any YAML loader. """
+    return dumper.represent_mapping('tag:yaml.org,2002:set', {_plain_key(k): None for k in set_})
+
+
+def name_presenter(dumper, obj):
+    """ Presents functions, classes and modules by their names. """
+    return dumper.represent_scalar('tag:yaml.org,2002:str', obj.__name__)
+
+
+def string_presenter(dumper, obj):
+    """ Presents an object by its string. """
+    return dumper.represent_scalar('tag:yaml.org,2002:str', str(obj))
+
+
+def _plain_key(key: Any) -> Any:
+    """ Returns `key` in a form which is hashable when it is loaded from a YAML file. """
+    if key is None or type(key) in (str, int, float, bool, bytes):
+        return key
+    return getattr(key, '__name__', str(key))
+
+
+def _public_variables(obj: object) -> Dict[str, Any]:
+    """ Returns the values of the public and accessible attributes of an object which are not methods. """
+    variables = {}
+    for name in dir(obj):
+        if not name.startswith('_'):
+            try:
+                value = getattr(obj, name)
+            except Exception:
+                continue  # Properties which cannot be evaluated (yet) and unset slots
+            if not callable(value):
+                variables[name] = value
+    return variables
+
+
 def unknown_object_presenter(dumper, unknown_class: object):
     """ Parses all remaining classes into strings and python primitives for YAML files.
     To ensure the YAML file is human readable and can be loaded only with native python types. This constructor parses
@@ -506,10 +557,7 @@ def unknown_object_presenter(dumper, unknown_class: object):
     if inspect.isclass(unknown_class):
         return dumper.represent_scalar('tag:yaml.org,2002:str', unknown_class.__name__)
 
-    inst_vars = {}
-    for k in dir(unknown_class):
-        if not k.startswith('_') and not callable(getattr(unknown_class, k)):
-            inst_vars[k] = getattr(unknown_class, k)
+    inst_vars = _public_variables(unknown_class)
 
     if inst_vars:
         return dumper.represent_mapping('tag:yaml.org,2002:map', {type(unknown_class).__name__: inst_vars})
diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 52f8452..f82d8e1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -14,11 +14,13 @@ import tarfile
 import tempfile
 import traceback
 import warnings
+from collections import OrderedDict, defaultdict
 from datetime import datetime, timedelta
 from multiprocessing.managers import SyncManager
-from pathlib import Path
+from pathlib import Path, PurePath
 from pickle import PickleError
 from time import time
+from types import BuiltinFunctionType, FunctionType, ModuleType
 from typing import Any, Callable, Dict, List, Optional, Sequence, Set, Tuple, Union
 
 import numpy as np
@@ -49,7 +51,8 @@ from .optimizerlogger import BaseLogger, FileLogger
 from ..common.helpers import LiteralWrapper, literal_presenter, nested_string_formatting, \
     unknown_object_presenter, generator_presenter, optimizer_selector_presenter, present_memory, FlowList, \
     flow_presenter, numpy_array_presenter, numpy_dtype_presenter, BoundGroup, bound_group_presenter, \
-    CheckpointingError, is_bounds_valid, infer_headers
+    sequence_presenter, mapping_presenter, set_presenter, name_presenter, string_presenter, CheckpointingError, \
+    is_bounds_valid, infer_headers
 from ..common.namedtuples import Bound, IterationResult, OptimizerPackage, ProcessPackage, Result, OptimizerCheckpoint
 from ..common.wrappers import process_print_redirect
 from ..convergence import BaseChecker, KillsAfterConvergence, MaxFuncCalls
@@ -248,6 +251,14 @@ class GloMPOManager:
         yaml.add_representer(FlowList, flow_presenter, Dumper=Dumper)
         yaml.add_representer(np.ndarray, numpy_array_presenter, Dumper=Dumper)
         yaml.add_representer(BoundGroup, bound_group_presenter, Dumper=Dumper)
+        for type_ in (dict, OrderedDict, defaultdict):
+            yaml.add_representer(type_, mapping_presenter, Dumper=Dumper)
+        for type_ in (type, FunctionType, BuiltinFunctionType, ModuleType):
+            yaml.add_representer(type_, name_presenter, Dumper=Dumper)
+        yaml.add_representer(tuple, sequence_presenter, Dumper=Dumper)
+        yaml.add_representer(set, set_presenter, Dumper=Dumper)
+        yaml.add_representer(complex, string_presenter, Dumper=Dumper)
+        yaml.add_multi_representer(PurePath, string_presenter, Dumper=Dumper)
         yaml.add_multi_representer(np.generic, numpy_dtype_presenter, Dumper=Dumper)
         yaml.add_multi_representer(BaseSelector, optimizer_selector_presenter, Dumper=Dumper)
         yaml.add_multi_representer(BaseGenerator, generator_presenter, Dumper=Dumper)
-- 
2.43.0


From 30109408624e4251d7faaa25682bb242bab32959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 077/121] fix: summary of equal bounds given by numbers of
 different types

---
 glompo/common/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index ce45486..a320d17 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -495,9 +495,9 @@ def numpy_array_presenter(dumper, numpy_arr):
 
 def bound_group_presenter(dumper, bound_group):
     """ Unique YAML constructor for :class:`.Bound`. """
-    grouped = {f"({bound.min}, {bound.max})": FlowList([]) for bound in set(bound_group)}
+    grouped = {}
     for i, bound in enumerate(bound_group):
-        grouped[f"({bound.min}, {bound.max})"].append(i)
+        grouped.setdefault(f"({bound.min}, {bound.max})", FlowList([])).append(i)
 
     return dumper.represent_mapping('tag:yaml.org,2002:map', grouped)
 
-- 
2.43.0


From 2d84217e6105a061047069650df3fa4011fbce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 078/121] fix: formatting of empty descriptions

---
 glompo/common/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index a320d17..e342b36 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -163,9 +163,9 @@ def nested_string_formatting(nested_str: str) -> str:
     """
 
     # Strip first and last parenthesis if there
-    if nested_str[0] == '[':
+    if nested_str.startswith('['):
         nested_str = nested_str[1:]
-    if nested_str[-1] == ']':
+    if nested_str.endswith(']'):
         nested_str = nested_str[:-1]
 
     # Move each level to new line
-- 
2.43.0


From dc3afcc7be3142c1583f947c536ccc0edc2b37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 079/121] fix: report the working directory of the manager

---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f82d8e1..ef4384e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1818,7 +1818,7 @@ class GloMPOManager:
                 "Assignment": {
                     "GloMPO Version": __version__,
                     "Task": type(self.task).__name__ if isinstance(type(self.task), object) else self.task.__name__,
-                    "Working Dir": str(Path.cwd()),
+                    "Working Dir": str(self.working_dir),
                     "Username": getpass.getuser(),
                     "Hostname": socket.gethostname(),
                     "Time": {"Optimization Periods": t_periods,
@@ -2093,7 +2093,7 @@ class GloMPOManager:
                              f"    {'Core IDs:':.<26}{cores}\n"
                              f"    {'Memory Available:':.<26}{present_memory(psutil.virtual_memory().total)}\n"
                              f"    {'Hostname:':.<26}{socket.gethostname()}\n"
-                             f"    {'Working Dir:':.<26}{Path.cwd()}\n"
+                             f"    {'Working Dir:':.<26}{self.working_dir}\n"
                              f"    {'Username:':.<26}{getpass.getuser()}")
 
     @staticmethod
-- 
2.43.0


From c87bac6bd1bbe1e9857305c317047032e87ebc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 080/121] fix: report the name of tasks which are functions

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ef4384e..09f756a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1817,7 +1817,7 @@ class GloMPOManager:
             data = {
                 "Assignment": {
                     "GloMPO Version": __version__,
-                    "Task": type(self.task).__name__ if isinstance(type(self.task), object) else self.task.__name__,
+                    "Task": getattr(self.task, '__name__', type(self.task).__name__),
                     "Working Dir": str(self.working_dir),
                     "Username": getpass.getuser(),
                     "Hostname": socket.gethostname(),
-- 
2.43.0


From abcbddf4687265932d695245785ceacf59ec93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 081/121] fix: summary file can be written during a run

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 09f756a..7d5844d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1812,7 +1812,7 @@ class GloMPOManager:
 
             t_total = str(
                 timedelta(seconds=sum([(t - t0).total_seconds() for t0, t in zip(self.dt_starts, self.dt_ends)])))
-            t_session = str(timedelta(seconds=self.t_end - self.t_start)) if self.t_start else None
+            t_session = str(timedelta(seconds=(self.t_end or time()) - self.t_start)) if self.t_start else None
             t_periods = [{"Start": str(t0), "End": str(t)} for t0, t in zip(self.dt_starts, self.dt_ends)]
             data = {
                 "Assignment": {
-- 
2.43.0


From 2fac8c74c5eff8ce8e536eb764ffa3607d2867cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 082/121] fix: summary on machines with unknown CPU frequency

---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7d5844d..75a39cb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1787,6 +1787,7 @@ class GloMPOManager:
 
             if HAS_PSUTIL and self._process:
                 cores = self._process.cpu_affinity()
+                cpu_freq = psutil.cpu_freq()  # None if it cannot be determined
                 resource_summary = self._summarise_resource_usage()
 
                 run_info = {
@@ -1799,8 +1800,7 @@ class GloMPOManager:
                         "Cores": {
                             "Total": len(cores),
                             "IDs": FlowList(cores)},
-                        "Frequency":
-                            f"{psutil.cpu_freq().max / 1000}GHz",
+                        "Frequency": f"{cpu_freq.max / 1000}GHz" if cpu_freq else '--',
                         "Load": {
                             "Average": FlowList(resource_summary['load_ave']),
                             "Std. Dev.": FlowList(resource_summary['load_std'])},
-- 
2.43.0


From ec60779ff13fcc965a70ff382ac6fa32f55499b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 083/121] fix: return the result of a run also if its output
 files cannot be saved

---
 glompo/core/manager.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 75a39cb..52ee9f7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1100,14 +1100,18 @@ class GloMPOManager:
             else:
                 self.dt_ends.append(dt_end)
 
-            if self.visualisation:
-                if self.scope.record_movie and not caught_exception:
-                    self.logger.debug("Generating movie")
-                    self.scope.generate_movie()
-                self.scope.close_fig()
+            try:
+                self.logger.debug("Saving summary file results")
+                self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
 
-            self.logger.debug("Saving summary file results")
-            self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+                if self.visualisation:
+                    if self.scope.record_movie and not caught_exception:
+                        self.logger.debug("Generating movie")
+                        self.scope.generate_movie()
+                    self.scope.close_fig()
+            except Exception as e:  # The result must be returned even if it could not be saved
+                self.logger.error("Could not save all output files.", exc_info=e)
+                warnings.warn(f"Could not save all output files. Caught exception: {e!r}", RuntimeWarning)
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
@@ -1119,7 +1123,11 @@ class GloMPOManager:
                                      'end_cond': reason},
                                  self.result.origin)
 
-            self.opt_log.close()
+            try:
+                self.opt_log.close()
+            except Exception as e:
+                self.logger.error("Could not close the log file.", exc_info=e)
+                warnings.warn(f"Could not close the log file. Caught exception: {e!r}", RuntimeWarning)
 
             self.logger.info("GloMPO Optimization Routine Done")
 
-- 
2.43.0


From 6ed741e3a93b5fd28eee05ad4910801d74f5eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 084/121] fix: do not leave a partial summary file

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 52ee9f7..40c58d1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1859,9 +1859,10 @@ class GloMPOManager:
                                 "exit cond.": LiteralWrapper(nested_string_formatting(reason)),
                                 "x": FlowList(result.x) if result.x is not None else result.x}
 
+            summary = yaml.dump(data, Dumper=Dumper, default_flow_style=False, sort_keys=False)
             with (dump_dir / "glompo_manager_log.yml").open("w") as file:
                 self.logger.debug("Saving manager summary file.")
-                yaml.dump(data, file, Dumper=Dumper, default_flow_style=False, sort_keys=False)
+                file.write(summary)
 
         if summary_files > 1:
             self.logger.debug("Saving trajectory plot.")
-- 
2.43.0


From 2e572127347e73d0173765439c83c2ac2a123400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 085/121] fix: only purge images which GloMPO produces

---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 40c58d1..2d26c03 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -6,6 +6,7 @@ import logging
 import multiprocessing as mp
 import queue
 import random
+import re
 import shutil
 import socket
 import string
@@ -2114,8 +2115,8 @@ class GloMPOManager:
         """ Identifies and removes old log files if allowed. """
 
         to_remove = [*self.working_dir.glob("glompo_manager_log.yml")]
-        to_remove += [*self.working_dir.glob("trajectories*.png")]
-        to_remove += [*self.working_dir.glob("opt*_parms.png")]
+        to_remove += [file for file in self.working_dir.glob("*.png")
+                      if re.fullmatch(r'trajectories(_log)?(_best)?|opt[0-9]+_parms', file.stem)]
         if not self._is_restart:
             to_remove += [*self.working_dir.glob("glompo_log.h5")]
 
-- 
2.43.0


From 2089a0eea8b130e34e9d79ea9dd8cc4517a85f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 086/121] fix: log large metadata without failing

---
 glompo/core/optimizerlogger.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index f522a32..ad69785 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -444,7 +444,16 @@ class FileLogger(BaseLogger):
             super().put_metadata(opt_id, key, value)
         except KeyError:
             pass
-        self._get_group(opt_id)._v_attrs[key] = value
+        self._put_attribute(opt_id, key, value)
+
+    def _put_attribute(self, opt_id: int, key: str, value: Any):
+        """ Records optimizer metadata into the HDF5 file (in which the size of an attribute is limited to 64 kB). """
+        if isinstance(value, str) and len(value) > 15_000:
+            value = f"{value[:7_000]} ... {value[-7_000:]}"
+        try:
+            self._get_group(opt_id)._v_attrs[key] = value
+        except HDF5ExtError:
+            warnings.warn(f"Could not append '{key}' of optimizer {opt_id} to the HDF5 log file.")
 
     def put_manager_metadata(self, key: str, value: Any):
         """ Records optimization settings and history information (similar to that in ``glompo_manager_log.yml``) into
@@ -549,7 +558,7 @@ class FileLogger(BaseLogger):
                 if key not in record['metadata']:
                     del group._v_attrs[key]
             for key, val in record['metadata'].items():
-                group._v_attrs[key] = val
+                self._put_attribute(opt_id, key, val)
 
             if group['messages'].nrows != len(record['messages']):
                 group['messages'].remove()
-- 
2.43.0


From 47db8356a30d260228391187f91871d2c3a50ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 087/121] fix: do not take falsy arguments of setup as omitted

---
 glompo/core/manager.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2d26c03..4b0f712 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -522,7 +522,7 @@ class GloMPOManager:
         self.n_parms = len(self.bounds)
 
         # Save max_jobs
-        if max_jobs:
+        if max_jobs is not None:
             if isinstance(max_jobs, int):
                 if max_jobs > 0:
                     self.max_jobs = max_jobs
@@ -535,7 +535,7 @@ class GloMPOManager:
             self.logger.info("max_jobs set to one less than CPU count.")
 
         # Save convergence criteria
-        if convergence_checker:
+        if convergence_checker is not None:
             if isinstance(convergence_checker, BaseChecker):
                 self.convergence_checker = convergence_checker
             else:
@@ -545,7 +545,7 @@ class GloMPOManager:
             self.logger.info("Convergence set to default: KillsAfterConvergence(0, 1)")
 
         # Save x0 generator
-        if x0_generator:
+        if x0_generator is not None:
             if isinstance(x0_generator, BaseGenerator):
                 self.x0_generator = x0_generator
             else:
@@ -555,7 +555,7 @@ class GloMPOManager:
             self.logger.info("x0 generator set to default: RandomGenerator()")
 
         # Save killing conditions
-        if killing_conditions:
+        if killing_conditions is not None:
             if isinstance(killing_conditions, BaseHunter):
                 self.killing_conditions = killing_conditions
             else:
@@ -620,7 +620,7 @@ class GloMPOManager:
             warnings.warn(f"Unable to parse backend '{backend}'. 'processes' or 'threads' expected."
                           f"Defaulting to 'processes'.")
 
-        if end_timeout:
+        if end_timeout is not None:
             self.end_timeout = end_timeout
         else:
             if self.proc_backend:
-- 
2.43.0


From c2882330aa5a1e13c9f02b78d6dc7810e14af3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 088/121] fix: a bool is not a number of jobs

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 4b0f712..8aae85f 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -523,7 +523,7 @@ class GloMPOManager:
 
         # Save max_jobs
         if max_jobs is not None:
-            if isinstance(max_jobs, int):
+            if isinstance(max_jobs, int) and not isinstance(max_jobs, bool):
                 if max_jobs > 0:
                     self.max_jobs = max_jobs
                 else:
-- 
2.43.0


From a6904a6c459e0805a291a76414da21aa0c1782e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 089/121] fix: refuse checkpointing controls of the wrong type

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 8aae85f..7ccb16a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -586,6 +586,8 @@ class GloMPOManager:
                 warnings.warn("Checkpointing controls ignored. Cannot setup infrastructure without dill package.",
                               ResourceWarning)
                 self.checkpoint_control = None
+        elif checkpoint_control is not None:
+            raise TypeError("checkpoint_control not an instance of CheckpointingControl.")
         else:
             self.checkpoint_control = None
 
-- 
2.43.0


From 3d7946dc6c25454e4aad18643b45276d51b237e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 090/121] fix: share_best_solutions can be changed when loading
 a checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7ccb16a..6cb9c06 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -783,6 +783,8 @@ class GloMPOManager:
                 force_terminations_after = glompo_kwargs['force_terminations_after']
                 self.allow_forced_terminations = force_terminations_after > 0
                 self._too_long = force_terminations_after
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key == 'visualisation_args':
                 pass
             elif key == 'working_dir':
-- 
2.43.0


From f84e22a93d7f1cddc08e964dfb112a2bbe415807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 091/121] fix: nothing of a checkpoint which cannot be loaded
 remains in the manager

---
 glompo/core/manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6cb9c06..413bc32 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -713,6 +713,18 @@ class GloMPOManager:
             self.logger.warning("Manager already initialised, cannot reinitialise. Aborting")
             return
 
+        original_state = {**self.__dict__}
+        try:
+            self._load_checkpoint(path, task_loader, task, **glompo_kwargs)
+        except BaseException:
+            self.__dict__ = original_state  # Nothing of a checkpoint which could not be loaded may remain
+            raise
+
+    def _load_checkpoint(self, path: Union[Path, str],
+                         task_loader: Optional[Callable[[Union[Path, str]], Callable[[Sequence[float]], float]]],
+                         task: Optional[Callable[[Sequence[float]], float]], **glompo_kwargs):
+        """ Loads the checkpoint for :meth:`load_checkpoint`. """
+
         path = Path(path).resolve()
         self.logger.info("Initializing from Checkpoint: %s", path)
 
-- 
2.43.0


From 9c5bf5c407a96761249a55994562bab3ec4c5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 092/121] fix: failed construction of the scope does not affect
 the next setup

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 413bc32..342db77 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -595,9 +595,9 @@ class GloMPOManager:
         if visualisation:
             try:
                 from .scope import GloMPOScope  # Only imported if needed to avoid matplotlib compatibility issues
-                self.visualisation = visualisation
                 self.visualisation_args = visualisation_args if visualisation_args else {}
                 self.scope = GloMPOScope(**visualisation_args) if visualisation_args else GloMPOScope()
+                self.visualisation = visualisation
             except (ModuleNotFoundError, ImportError):
                 self.visualisation = False
                 self.logger.warning("Visualisation controls ignored. Cannot setup infrastructure without matplotlib "
-- 
2.43.0


From 01b0a6a4a229c5aecb46a7fe88f936fe158b44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 093/121] fix: log file can be requested when loading a
 checkpoint of a run without one

---
 glompo/core/manager.py         |  6 ++++--
 glompo/core/optimizerlogger.py | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 342db77..3a40101 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -822,8 +822,10 @@ class GloMPOManager:
                 self.scope = GloMPOScope(**self.visualisation_args)
 
         # Rebuild optimizer logger
-        self.opt_log = FileLogger if self.summary_files > 2 else BaseLogger
-        self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log')
+        if self.summary_files > 2:
+            self.opt_log = FileLogger.checkpoint_load(tmp_dir / 'opt_log', self.n_parms, self._log_expected_rows())
+        else:
+            self.opt_log = BaseLogger.checkpoint_load(tmp_dir / 'opt_log')
 
         # Modify/create missing variables
         assert len(self.dt_starts) == len(self.dt_ends), "Timestamps missing from checkpoint."
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index ad69785..2c0ad81 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -357,6 +357,25 @@ class FileLogger(BaseLogger):
         self._groups = {}  # In memory address to pytables_file groups (expensive otherwise)
         self._tables = {}  # In memory address to pytables_file tables (expensive otherwise)
 
+    @classmethod
+    def checkpoint_load(cls, path: Union[Path, str], n_parms: Optional[int] = None,
+                        expected_rows: Optional[int] = None):
+        """ Extends :meth:`.BaseLogger.checkpoint_load`. `n_parms` and `expected_rows` are only used if the
+        checkpointed optimization did not use a log file.
+        """
+        opt_log = super().checkpoint_load(path)
+
+        if '_writing_chunk' not in vars(opt_log):
+            opt_log.n_task_dims = n_parms
+            opt_log.expected_rows = expected_rows
+            opt_log._o_counter = len(opt_log._storage) + len(opt_log._cleared)
+            opt_log._writing_chunk = {opt_id: [] for opt_id in (*opt_log._storage, *opt_log._cleared)}
+            opt_log._est_iter_size = 0
+            opt_log._groups = {}
+            opt_log._tables = {}
+
+        return opt_log
+
     def __contains__(self, opt_id: int) -> bool:
         return f'/optimizer_{opt_id}' in self.pytab_file
 
-- 
2.43.0


From 799fda4aee044ff05d9b00083fb6c59037f8d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 094/121] fix: use the task given when loading a checkpoint if
 task_loader fails

---
 glompo/core/manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3a40101..ba25f2c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -764,12 +764,14 @@ class GloMPOManager:
 
             if not self.task and task_loader:
                 try:
-                    self.task = task_loader(tmp_dir)
-                    assert callable(self.task)
+                    loaded_task = task_loader(tmp_dir)
+                    assert callable(loaded_task)
+                    self.task = loaded_task
                     self.logger.info("Task successfully loaded.")
                 except Exception as e:
-                    self.logger.error("Use of task_loader failed.")
-                    raise e
+                    self.logger.error("Use of task_loader failed.", exc_info=e)
+                    if not task:
+                        raise e
 
             if not self.task and task:
                 try:
-- 
2.43.0


From 0f7de511e7e4f16d9f3a2d62259b5c3977d25f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 095/121] fix: arguments refused by the scope are not kept

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ba25f2c..720e903 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -595,8 +595,8 @@ class GloMPOManager:
         if visualisation:
             try:
                 from .scope import GloMPOScope  # Only imported if needed to avoid matplotlib compatibility issues
-                self.visualisation_args = visualisation_args if visualisation_args else {}
                 self.scope = GloMPOScope(**visualisation_args) if visualisation_args else GloMPOScope()
+                self.visualisation_args = visualisation_args if visualisation_args else {}
                 self.visualisation = visualisation
             except (ModuleNotFoundError, ImportError):
                 self.visualisation = False
-- 
2.43.0


From 8fb531fd9244c493782fa5bf838e003fc9255b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 096/121] fix: detailed_call may return any kind of sequence

---
 glompo/optimizers/baseoptimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/baseoptimizer.py b/glompo/optimizers/baseoptimizer.py
index 5fa5b0a..3b6afaa 100644
--- a/glompo/optimizers/baseoptimizer.py
+++ b/glompo/optimizers/baseoptimizer.py
@@ -96,7 +96,7 @@ class _MessagingWrapper:
         result = IterationResult(opt_id=self.opt_id,
                                  x=x,
                                  fx=calc[0],
-                                 extras=calc[1:])
+                                 extras=tuple(calc[1:]))
         self.results_queue.put_nowait(result)
 
         if caller == 'call':
-- 
2.43.0


From 2abafe889e8c1a209f2bef42d2a969b4b40f4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 097/121] fix: headers may give the function value any name

---
 glompo/core/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 720e903..88ade56 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1578,7 +1578,10 @@ class GloMPOManager:
                     if res.extras:
                         try:
                             # noinspection PyUnresolvedReferences
-                            extra_heads = self.task.headers()
+                            extra_heads = {**self.task.headers()}
+                            if len(extra_heads) == len(res.extras) + 1:  # The first one describes the function value
+                                fx_head, *_ = extra_heads
+                                extra_heads = {'fx': extra_heads.pop(fx_head), **extra_heads}
                         except (AttributeError, NotImplementedError):
                             extra_heads = infer_headers(res.extras)
                     self.opt_log.add_iter_history(res.opt_id, extra_heads)
-- 
2.43.0


From a68363381e4e878a41f600a772fc6b0b9a72ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 098/121] fix: columns of the log file follow the order of the
 headers

---
 glompo/core/optimizerlogger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 2c0ad81..4f9b1b1 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -1,5 +1,6 @@
 import datetime
 import warnings
+from copy import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
@@ -432,6 +433,10 @@ class FileLogger(BaseLogger):
 
         if extra_headers:
             headers = {**headers, **extra_headers}
+            if any(col._v_pos is None for col in headers.values()):  # Rows are written in the order of the headers
+                headers = {name: copy(col) for name, col in headers.items()}
+                for pos, col in enumerate(headers.values()):
+                    col._v_pos = pos
 
         table = self.pytab_file.create_table(where=f'/optimizer_{opt_id}',
                                              name='iter_hist',
-- 
2.43.0


From f9f32b53fe04eb3958af89a0d12c94fa9da3baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 099/121] fix: optimizers may mix plain and detailed calls

---
 glompo/core/optimizerlogger.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 4f9b1b1..ee71ae6 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -1,6 +1,7 @@
 import datetime
 import warnings
 from copy import copy
+from itertools import zip_longest
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
@@ -146,9 +147,9 @@ class BaseLogger:
         if iter_res.fx > self._max_eval and np.isfinite(iter_res.fx):
             self._max_eval = iter_res.fx
 
-        for k, v in zip(self._storage[iter_res.opt_id],
-                        (None, None, self._f_counter, iter_res.x, iter_res.fx, *iter_res.extras)):
-            if k in ('metadata', 'messages'):
+        for k, v in zip_longest(self._storage[iter_res.opt_id],
+                                (None, None, self._f_counter, iter_res.x, iter_res.fx, *iter_res.extras)):
+            if k in (None, 'metadata', 'messages'):  # Extras without a column (not every call was detailed) are dropped
                 continue
             self._storage[iter_res.opt_id][k].append(v)
 
@@ -458,11 +459,18 @@ class FileLogger(BaseLogger):
             self._est_iter_size = deepsizeof(iter_res)
 
         self._writing_chunk[iter_res.opt_id].append(
-            [(self._f_counter, iter_res.x, iter_res.fx, *iter_res.extras)])
+            [(self._f_counter, iter_res.x, iter_res.fx, *self._match_columns(iter_res))])
 
         if self._est_iter_size * sum((len(c) for c in self._writing_chunk.values())) > 100_000_000:  # Flush every 100MB
             self.flush(iter_res.opt_id)
 
+    def _match_columns(self, iter_res: IterationResult) -> List:
+        """ Extras of a result, one for each extra column (not every call of an optimizer needs to be detailed). """
+        table = self._get_table(iter_res.opt_id)
+        columns = table.colnames[3:]
+        extras = [*iter_res.extras[:len(columns)]]
+        return extras + [table.coldflts[name] for name in columns[len(extras):]]
+
     def put_metadata(self, opt_id: int, key: str, value: Any):
         try:
             super().put_metadata(opt_id, key, value)
-- 
2.43.0


From a3d3a8ba82511e7cab3162a640501d3777272388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 100/121] fix: infer columns of numpy scalars and bytes

---
 glompo/common/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index e342b36..9690eee 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -382,11 +382,12 @@ def infer_headers(infer_from: Sequence[Any]) -> Dict[str, tb.Col]:
         elif isinstance(arg, int):
             tb_type[f'result_{pos}'] = tb.Int64Col(pos=pos)
 
-        elif isinstance(arg, str):
+        elif isinstance(arg, (str, bytes)):
             tb_type[f'result_{pos}'] = tb.StringCol(280, pos=pos)
 
-        elif any((isinstance(arg, t) for t in (tuple, list, np.ndarray))):
-            arr = np.array(list(arg))  # Needed to properly pack nested arrays and save big memory
+        elif isinstance(arg, (tuple, list, np.ndarray, np.generic)):
+            # Needed to properly pack nested arrays and save big memory
+            arr = np.array(list(arg)) if np.ndim(arg) > 0 else np.array(arg)
             tb_type[f'result_{pos}'] = tb.Col.from_dtype(np.dtype((arr.dtype, arr.shape)), pos=pos)
 
         elif isinstance(arg, type(None)):
-- 
2.43.0


From 922b1fcfcf4e5ac692d7a7dac56b158a8e087abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 101/121] fix: log text which is not ASCII

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index ee71ae6..3326d4b 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -468,7 +468,7 @@ class FileLogger(BaseLogger):
         """ Extras of a result, one for each extra column (not every call of an optimizer needs to be detailed). """
         table = self._get_table(iter_res.opt_id)
         columns = table.colnames[3:]
-        extras = [*iter_res.extras[:len(columns)]]
+        extras = [val.encode('utf-8') if isinstance(val, str) else val for val in iter_res.extras[:len(columns)]]
         return extras + [table.coldflts[name] for name in columns[len(extras):]]
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
-- 
2.43.0


From 16a229cc5226fba6eb1c624e726f05b2237ac48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 102/121] fix: detailed form of ExpLeastSquaresCost begins with
 the function value

---
 glompo/benchmark_fncs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index c111e44..aa97ee3 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -508,19 +508,20 @@ class ExpLeastSquaresCost(BaseTestCase):
         self._min_fx = sum((g_train_core - self.g_train) ** 2)
 
     def __call__(self, x) -> float:
-        x = np.array(x)
-        return np.sum(self.detailed_call(x) ** 2)
+        return self.detailed_call(x)[0]
 
-    def detailed_call(self, x) -> Sequence[float]:
-        """ Returns a sequence of contributions which are squared and summed to get the final function value. """
+    def detailed_call(self, x) -> Tuple[float, Sequence[float]]:
+        """ Returns the final function value and the sequence of contributions which are squared and summed to get it.
+        """
         super().__call__(x)
 
+        x = np.array(x)
         g_x = np.sum(np.exp(np.einsum('j,h->hj', -x, self.u_train)), axis=1)
         error = g_x - self.g_train
 
         error *= 1 + np.random.uniform(-self.sigma_eval, self.sigma_eval)
 
-        return error
+        return np.sum(error ** 2), error
 
     @property
     def min_x(self) -> Sequence[float]:
-- 
2.43.0


From e0ea1e3370572ec3e91fa82de0f8fb2be6438872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 103/121] fix: log extra values of any form

---
 glompo/common/helpers.py       | 11 ++++++++---
 glompo/core/optimizerlogger.py | 13 +++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index 9690eee..224cbf6 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -387,8 +387,13 @@ def infer_headers(infer_from: Sequence[Any]) -> Dict[str, tb.Col]:
 
         elif isinstance(arg, (tuple, list, np.ndarray, np.generic)):
             # Needed to properly pack nested arrays and save big memory
-            arr = np.array(list(arg)) if np.ndim(arg) > 0 else np.array(arg)
-            tb_type[f'result_{pos}'] = tb.Col.from_dtype(np.dtype((arr.dtype, arr.shape)), pos=pos)
+            arr = np.array(arg) if isinstance(arg, np.generic) or np.shape(arg) == () else np.array(list(arg))
+            if arr.dtype.kind in 'US':
+                tb_type[f'result_{pos}'] = tb.StringCol(280, shape=arr.shape, pos=pos)
+            elif arr.dtype.kind in 'biufc':
+                tb_type[f'result_{pos}'] = tb.Col.from_dtype(np.dtype((arr.dtype, arr.shape)), pos=pos)
+            else:
+                tb_type[f'result_{pos}'] = tb.StringCol(280, pos=pos)  # Saved as text
 
         elif isinstance(arg, type(None)):
             tb_type[f'result_{pos}'] = tb.Float64Col(pos=pos)
@@ -397,7 +402,7 @@ def infer_headers(infer_from: Sequence[Any]) -> Dict[str, tb.Col]:
             tb_type[f'result_{pos}'] = tb.ComplexCol(itemsize=16, pos=pos)
 
         else:
-            raise TypeError(f"Cannot resolve type {type(arg)}.")
+            tb_type[f'result_{pos}'] = tb.StringCol(280, pos=pos)  # Saved as text
 
     return tb_type
 
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 3326d4b..31830c4 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -3,7 +3,7 @@ import warnings
 from copy import copy
 from itertools import zip_longest
 from pathlib import Path
-from typing import Any, Dict, List, Optional, Sequence, Union
+from typing import Any, Dict, List, Optional, Sequence, Tuple, Union
 
 import numpy as np
 import tables as tb
@@ -468,9 +468,18 @@ class FileLogger(BaseLogger):
         """ Extras of a result, one for each extra column (not every call of an optimizer needs to be detailed). """
         table = self._get_table(iter_res.opt_id)
         columns = table.colnames[3:]
-        extras = [val.encode('utf-8') if isinstance(val, str) else val for val in iter_res.extras[:len(columns)]]
+        extras = [self._to_bytes(val, table.coldescrs[name].shape) if table.coltypes[name] == 'string' else val
+                  for name, val in zip(columns, iter_res.extras)]
         return extras + [table.coldflts[name] for name in columns[len(extras):]]
 
+    @staticmethod
+    def _to_bytes(value: Any, shape: Tuple[int, ...]) -> Union[bytes, np.ndarray]:
+        """ Form in which text, and anything else in a column of text, is written to the HDF5 file. """
+        if shape:
+            value = np.array(value)
+            return np.char.encode(value, 'utf-8') if value.dtype.kind == 'U' else value
+        return value if isinstance(value, bytes) else str(value).encode('utf-8')
+
     def put_metadata(self, opt_id: int, key: str, value: Any):
         try:
             super().put_metadata(opt_id, key, value)
-- 
2.43.0


From 151e0e2905ca31ee251ceab3723667593b39b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 104/121] fix: scope plots the best value so far also after nan
 values, negative values in log scale and truncation

---
 glompo/core/scope.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 8d0b4a6..1578127 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -125,6 +125,7 @@ class GloMPOScope:
         self.events_per_flush = events_per_flush
         self.elitism = bool(elitism)
         self._event_counter = 0
+        self._best: Dict[int, float] = {}
         self.color_map = glompo_colors()
         self.interactive_mode = interactive_mode
         self.record_movie = record_movie
@@ -325,11 +326,10 @@ class GloMPOScope:
         """ Given `pt` is used to update the `opt_id` optimizer plot."""
         x, y = pt
         if self.elitism:
-            y_vals = self.opt_streams[opt_id].get_ydata()
-            if len(y_vals) > 0:
-                last = 10 ** y_vals[-1] if self.log_scale else y_vals[-1]
-                if last < y:
-                    y = last
+            best = self._best.get(opt_id, float('nan'))
+            if np.isnan(best) or y < best:
+                best = y
+            self._best[opt_id] = y = best
 
         self._update_point(opt_id, 'all_opt', (x, y))
         self._redraw_graph()
-- 
2.43.0


From ca96511e2e02f8211d1ebccd9065d8d89e8c6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 105/121] fix: scope marks a crash only for optimizers which
 crashed

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 88ade56..1529ce2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1452,7 +1452,7 @@ class GloMPOManager:
                     self.opt_log.put_message(opt_id, message)
                     self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
                     self.opt_crashed = "Traceback" in message or self.opt_crashed
-                    if self.visualisation:
+                    if self.visualisation and "Traceback" in message:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
             except EOFError:
-- 
2.43.0


From 03ba7eece662cea76bbcc6efe15111509d8112b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 106/121] fix: scope marks the end of every optimizer

---
 glompo/core/manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1529ce2..06ca6d6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1483,6 +1483,8 @@ class GloMPOManager:
                                             "signal to the manager.", opt_id)
                         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                         self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
+                        if self.visualisation:
+                            self.scope.update_norm_terminate(opt_id)
                 elif not self._check_signals(opt_id):  # Outstanding messages are collected first
                     self.opt_crashed = True
                     self._graveyard.add(opt_id)
@@ -1492,6 +1494,8 @@ class GloMPOManager:
                     self.logger.error("Optimizer %d terminated in error with code %d", opt_id, -exitcode)
                     self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                     self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
+                    if self.visualisation:
+                        self.scope.update_crash_terminate(opt_id)
 
             # Find hanging processes
             if pack.process.is_alive() and \
@@ -1506,6 +1510,8 @@ class GloMPOManager:
                     self._graveyard.add(opt_id)
                     self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                     self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
+                    if self.visualisation:
+                        self.scope.update_kill(opt_id)
                 pack.process.terminate()
 
             # Force kill zombies
@@ -1970,6 +1976,8 @@ class GloMPOManager:
                             self._graveyard.add(opt_id)
                             self.conv_counter += 1
                             not_chkpt.add(opt_id)
+                            if self.visualisation:
+                                self.scope.update_norm_terminate(opt_id)
                         elif key == 1:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
@@ -1977,6 +1985,8 @@ class GloMPOManager:
                         elif key == 9:
                             self.opt_log.put_message(opt_id, message)
                             self.opt_crashed = "Traceback" in message or self.opt_crashed
+                            if self.visualisation and "Traceback" in message:
+                                self.scope.update_crash_terminate(opt_id)
                         else:
                             raise RuntimeError(f"Unhandled message: {message}")
                 else:
-- 
2.43.0


From c525e5a24f733bb859db724ee8df7e65a05dbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 107/121] fix: no figure is left open after loading a scope

---
 glompo/core/manager.py | 1 +
 glompo/core/scope.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 06ca6d6..fb1b30a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -819,6 +819,7 @@ class GloMPOManager:
                     self.scope.load_state(tmp_dir)
                 except Exception as e:
                     warnings.warn(f"Could not load scope, building fresh. Error: {e}", RuntimeWarning)
+                    self.scope.close_fig()
                     self.scope = GloMPOScope(**self.visualisation_args)
             else:
                 self.scope = GloMPOScope(**self.visualisation_args)
diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 1578127..69e6ad5 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -452,6 +452,7 @@ class GloMPOScope:
         with Path(path, 'scope').open('rb') as file:
             data = dill.load(file)
 
+        plt.close(self.fig)  # Replaced by the saved one
         for var, val in data.items():
             setattr(self, var, val)
 
-- 
2.43.0


From ea14d36b99a5e72ab09fa6ba545c04d442ed378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 108/121] fix: scope figure is closed also if the results could
 not be saved

---
 glompo/core/manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fb1b30a..fca0201 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1123,14 +1123,16 @@ class GloMPOManager:
                 self.dt_ends.append(dt_end)
 
             try:
-                self.logger.debug("Saving summary file results")
-                self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+                try:
+                    self.logger.debug("Saving summary file results")
+                    self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
 
-                if self.visualisation:
-                    if self.scope.record_movie and not caught_exception:
+                    if self.visualisation and self.scope.record_movie and not caught_exception:
                         self.logger.debug("Generating movie")
                         self.scope.generate_movie()
-                    self.scope.close_fig()
+                finally:
+                    if self.visualisation:
+                        self.scope.close_fig()
             except Exception as e:  # The result must be returned even if it could not be saved
                 self.logger.error("Could not save all output files.", exc_info=e)
                 warnings.warn(f"Could not save all output files. Caught exception: {e!r}", RuntimeWarning)
-- 
2.43.0


From d1e3c7542116b329ed27c7fa4be2158507c038cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 109/121] fix: scope figure is closed also if the optimization
 does not start

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fca0201..c771118 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -949,6 +949,8 @@ class GloMPOManager:
             if self.converged:
                 self.logger.warning("Convergence conditions met before optimizer start. Aborting start.")
                 warnings.warn("Convergence conditions met before optimizer start. Aborting start.", RuntimeWarning)
+                if self.visualisation:
+                    self.scope.close_fig()
                 return self.result
         except Exception:
             reason = "None"
-- 
2.43.0


From 023903cf7c07cf41ce2068edb56192d9ac64a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 110/121] fix: loading a scope does not start an encoder which
 is never stopped and overwrites the movie

---
 glompo/core/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 69e6ad5..7829f4e 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -458,7 +458,7 @@ class GloMPOScope:
 
         if self.record_movie:
             self._new_writer()
-            self.setup_moviemaker()
+            self._is_setup = False  # The recording starts with the optimization
 
         if self.interactive_mode:
             self.fig.show()
-- 
2.43.0


From 1b357302b836410912ee403b99483f4795b26247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 111/121] fix: a user interrupt while the scope is drawn stops
 the optimization

---
 glompo/core/scope.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 7829f4e..8d7ab52 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -10,7 +10,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from ..common.helpers import glompo_colors
-from ..common.wrappers import catch_user_interrupt, decorate_all_methods, needs_optional_package
+from ..common.wrappers import needs_optional_package
 
 try:
     import dill
@@ -30,7 +30,6 @@ class MyFFMpegWriter(ani.FFMpegWriter):
         self._frame_sink().close()
 
 
-@decorate_all_methods(catch_user_interrupt)
 class GloMPOScope:
     """ Constructs and records the dynamic plotting of optimizers run in parallel.
 
-- 
2.43.0


From 33ccb1478dfadcfc60f2df699ec7d613b8be9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 112/121] fix: start shgo without a starting point, which it
 does not accept

---
 glompo/optimizers/scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/scipy.py b/glompo/optimizers/scipy.py
index 2e675a3..2a2d64e 100644
--- a/glompo/optimizers/scipy.py
+++ b/glompo/optimizers/scipy.py
@@ -80,8 +80,10 @@ class ScipyOptimizeWrapper(BaseOptimizer):
         if self.opt_meth is minimize:
             kwargs['method'] = self.opt_name
 
+        if self.opt_meth is not shgo:  # Samples its own starting points
+            kwargs['x0'] = x0
+
         sp_result = self.opt_meth(function,
-                                  x0=x0,
                                   callback=callback,
                                   **kwargs)
         try:
-- 
2.43.0


From 24bdea7ef1f8e68884383ddd055517aca471477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 113/121] fix: deliver whether the scipy optimizers converged

---
 glompo/optimizers/scipy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/glompo/optimizers/scipy.py b/glompo/optimizers/scipy.py
index 2a2d64e..24eec48 100644
--- a/glompo/optimizers/scipy.py
+++ b/glompo/optimizers/scipy.py
@@ -63,7 +63,6 @@ class ScipyOptimizeWrapper(BaseOptimizer):
                  bounds: Sequence[Tuple[float, float]],
                  callbacks: Callable = None, **kwargs) -> MinimizeResult:
         warnings.filterwarnings('ignore', "Method .+ cannot handle constraints nor bounds.")
-        general_opt = False
 
         def callback(*args, **kwargs):
             ret = None
@@ -97,8 +96,7 @@ class ScipyOptimizeWrapper(BaseOptimizer):
         result = MinimizeResult()
         result.x = sp_result.x
         result.fx = sp_result.fun
-        if general_opt:
-            result.success = sp_result.success
+        result.success = bool(sp_result.success)
 
         return result
 
-- 
2.43.0


From 7846477c1f496ad056dc83d523488c3095bfcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 114/121] fix: annealing generator does not hand out its own
 state

---
 glompo/generators/annealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/annealing.py b/glompo/generators/annealing.py
index dddb9ea..dd12c14 100644
--- a/glompo/generators/annealing.py
+++ b/glompo/generators/annealing.py
@@ -123,7 +123,7 @@ class AnnealingGenerator(BaseGenerator):
                 break
 
         self.last = self.state.current_location.copy()
-        return self.state.current_location
+        return self.state.current_location.copy()
 
     def reset_temperature(self):
         self.state.reset(self.obj_wrapper, self.rand_state)
-- 
2.43.0


From 9ac78b3a5fe4adf2fa1021cb7c23363989265791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 115/121] fix: annealing generator returns also if the bounds
 are narrow and far from zero

---
 glompo/generators/annealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/annealing.py b/glompo/generators/annealing.py
index dd12c14..941d028 100644
--- a/glompo/generators/annealing.py
+++ b/glompo/generators/annealing.py
@@ -113,7 +113,7 @@ class AnnealingGenerator(BaseGenerator):
             manager.f_counter += self.obj_wrapper.nfev - evals_0
             manager.opt_log._f_counter += self.obj_wrapper.nfev - evals_0
 
-            if np.all(np.isclose(self.state.current_location, self.last)):
+            if np.all(np.abs(self.state.current_location - self.last) <= 1e-5 * (self.ub - self.lb)):
                 self.logger.debug("Current location too close to previous one, reannealing.")
                 if reps >= 5:
                     self.logger.debug("To many reannealings without a location update, resetting temperature.")
-- 
2.43.0


From c3e59169e573a6a970086c462f2df6e3d86dbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 116/121] fix: annealing generator does not compare its first
 point to uninitialised memory

---
 glompo/generators/annealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/annealing.py b/glompo/generators/annealing.py
index 941d028..8a39360 100644
--- a/glompo/generators/annealing.py
+++ b/glompo/generators/annealing.py
@@ -68,7 +68,7 @@ class AnnealingGenerator(BaseGenerator):
         self.current_fx = float('inf')
         self.current_x = []
         self.iter = -1
-        self.last = np.empty(self.n_params)
+        self.last = np.full(self.n_params, np.nan)
 
         self.initial_temperature = initial_temp
         self.temperature = initial_temp
-- 
2.43.0


From 8525421a8996d6c95d5ac7ad0bdec852b0248464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 117/121] fix: annealing generator does not round its search to
 integers after a point given as integers

---
 glompo/generators/annealing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/annealing.py b/glompo/generators/annealing.py
index 8a39360..e4f612a 100644
--- a/glompo/generators/annealing.py
+++ b/glompo/generators/annealing.py
@@ -91,8 +91,9 @@ class AnnealingGenerator(BaseGenerator):
         best = manager.opt_log.get_best_iter()
         if best['fx'] < self.state.current_energy:
             self.logger.debug("State updated from children.")
-            self.state.update_best(best['fx'], best['x'].copy(), None)
-            self.state.update_current(best['fx'], best['x'].copy())
+            best_x = np.array(best['x'], dtype=float)
+            self.state.update_best(best['fx'], best_x, None)
+            self.state.update_current(best['fx'], best_x)
 
         reps = 0
         while True:
-- 
2.43.0


From 381c5107b2816d6c155f3772bc15788b9aef3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 118/121] fix: Levy sums its middle term over all but the last
 dimension, as documented

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index aa97ee3..8fcf885 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -706,8 +706,8 @@ class Levy(BaseTestCase):
 
         term1 = np.sin(np.pi * w[0]) ** 2
 
-        term2 = (w - 1) ** 2
-        term2 *= 1 + 10 * np.sin(np.pi * w + 1) ** 2
+        term2 = (w[:-1] - 1) ** 2
+        term2 *= 1 + 10 * np.sin(np.pi * w[:-1] + 1) ** 2
         term2 = np.sum(term2)
 
         term3 = (w[-1] - 1) ** 2
-- 
2.43.0


From c5b94083ff5f87a4c3ddf8340c91ddc3ea66bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 119/121] fix: LennardJones gradient has the right magnitude
 for any sigma

---
 glompo/benchmark_fncs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 8fcf885..d4ebb44 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -602,8 +602,8 @@ class LennardJones(BaseTestCase):
         # Pre-calculation shortcuts
         self._triu_indices = np.triu_indices(atoms, 1)
         self._sig2 = sigma ** 2
-        self._sig5 = sigma ** 5
-        self._sig11 = sigma ** 11
+        self._sig6 = sigma ** 6
+        self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
         super().__call__(x)
@@ -632,7 +632,7 @@ class LennardJones(BaseTestCase):
 
         energy_grads = np.einsum(
             "n,nd->nd",
-            -24 * self.eps * (2 * self._sig11 * dists_sq ** -7 - self._sig5 * dists_sq ** -4),
+            -24 * self.eps * (2 * self._sig12 * dists_sq ** -7 - self._sig6 * dists_sq ** -4),
             delta
         )
 
-- 
2.43.0


From a48ab730d8f702aeef7cbda7aaa69a36f606d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 120/121] fix: an optimizer thread which ends with SystemExit
 carries its exit code, as a process does

---
 glompo/core/_backends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 7333197..ce5969a 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -35,6 +35,10 @@ class CustomThread(threading.Thread):
                     warnings.warn("Prinstream redirect failed. Print stream will only redirect if ThreadPrintRedirect "
                                   "is setup beforehand.", RuntimeWarning)
             super().run()
+        except SystemExit as e:  # Same exit code as a process would have
+            if e.code is not None:
+                self.exitcode = e.code if isinstance(e.code, int) else 1
+            raise e
         except Exception as e:
             sys.stderr.write("".join(traceback.TracebackException.from_exception(e).format()))
             self.exitcode = -1
-- 
2.43.0


From af37d7144473378403dd46beec2ab60b80cf6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 121/121] fix: interrupting a checkpoint leaves no partial
 archive and does not lose the overwritten one

---
 glompo/core/manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c771118..c4b1a06 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1229,13 +1229,15 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except (tarfile.TarError, OSError) as e:
+            except BaseException as e:  # An interrupt must not leave a partial archive either
                 self.logger.error("Error encountered during compression.")
                 if tar_path.exists():
                     tar_path.unlink()
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
+                if not isinstance(e, Exception):
+                    raise
                 raise CheckpointingError("Could not compress checkpoint", e)
 
             # Delete old checkpoints
@@ -1251,9 +1253,6 @@ class GloMPOManager:
                     del_path.unlink()
 
         except Exception as e:
-            if not tar_path.exists():
-                self.checkpoint_history.discard(str(tar_path.resolve()))
-
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
                 raise e
@@ -1261,6 +1260,8 @@ class GloMPOManager:
             self.logger.warning("Checkpointing failed. Aborting checkpoint construction.", exc_info=e)
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
         finally:
+            if not tar_path.exists():
+                self.checkpoint_history.discard(str(tar_path.resolve()))
             shutil.rmtree(path, ignore_errors=True)
             try:
                 if ovw_path.exists():
-- 
2.43.0

