From b4dc8d9eee032da70487ad6558203b69d1ea038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:51 +0000
Subject: [PATCH 01/25] fix: wait of the multiprocessing backend indexed a
 shrinking list and raised task failures

---
 .../core/backends/pymp/core/object_store.py    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..a46bc16 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -131,17 +131,17 @@ class ObjectStore:
         ready = list()
         not_ready = list()
 
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
+        for data_id in data_ids:
+            if len(ready) < num_returns and not isinstance(
+                self.store_delayed[data_id], Delayed
+            ):
+                ready.append(data_id)
+            else:
+                not_ready.append(data_id)
 
         while len(ready) != num_returns:
-            self.get(not_ready[0])
+            while isinstance(self.store_delayed[not_ready[0]], Delayed):
+                pass
             ready.append(not_ready.pop(0))
 
         return ready, not_ready
-- 
2.43.0


From 186169d34ac418038be9f5ce86240fe3c0fbc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:51 +0000
Subject: [PATCH 02/25] fix: bytes objects could not be read back with the
 multiprocessing backend

---
 .../core/backends/pymp/core/object_store.py   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index a46bc16..adcf1c2 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -16,6 +16,20 @@ class Delayed:
     pass
 
 
+class SerializedCallable:
+    """
+    Class-type that holds a callable serialized with cloudpickle.
+
+    Parameters
+    ----------
+    data : bytes
+        Serialized callable.
+    """
+
+    def __init__(self, data):
+        self.data = data
+
+
 class ObjectStore:
     """
     Class that stores objects and provides access to these from different processes.
@@ -66,7 +80,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            SerializedCallable(pkl.dumps(data)) if callable(data) else data
+        )
         return data_id
 
     def get(self, data_ids):
@@ -101,7 +117,11 @@ class ObjectStore:
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = (
+                pkl.loads(value.data)
+                if isinstance(value, SerializedCallable)
+                else value
+            )
 
         return values if is_list else values[0]
 
-- 
2.43.0


From 14ded4fd70ee6657d3d0e0dc7d38893c9d923bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:51 +0000
Subject: [PATCH 03/25] fix: a worker of the multiprocessing backend died on
 results that are callable or cannot be stored

---
 .../core/backends/pymp/core/process_manager.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..90ffc40 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -41,19 +41,19 @@ class Worker(Process):
             data_ids = task.data_ids
             try:
                 value = task()
-            except Exception as e:
-                if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
-                else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
                 if data_ids is not None:
                     if isinstance(data_ids, list) and len(data_ids) > 1:
                         for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
+                            self._obj_store.put(val, data_id)
+                    else:
+                        self._obj_store.put(value, data_ids)
+            except Exception as e:
+                if data_ids is not None:
+                    if isinstance(data_ids, list) and len(data_ids) > 1:
+                        for data_id in data_ids:
+                            self._obj_store.put(e, data_id)
                     else:
-                        self._obj_store.store_delayed[data_ids] = value
+                        self._obj_store.put(e, data_ids)
             finally:
                 self.task_queue.task_done()
         return
-- 
2.43.0


From 428105abd1a9719a32df27ba7b5c49a282bff046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:51 +0000
Subject: [PATCH 04/25] fix: pyseq raised a failed argument at submission
 rather than from the returned references

---
 unidist/core/backends/pyseq/core/api.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..d8a8926 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -100,15 +100,14 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
         result = func(*materialized_args, **materialized_kwargs)
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
-- 
2.43.0


From adc22a35ec59a313f623f8fbeebfd9838fdb8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 05/25] fix: failed tasks were not reported as completed by MPI
 workers

---
 .../backends/mpi/core/worker/task_store.py    | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..bbca83c 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -233,6 +233,7 @@ class TaskStore:
         if inspect.iscoroutinefunction(task):
 
             async def execute():
+                completed_data_ids = []
                 try:
                     w_logger.debug("- Start task execution -")
 
@@ -257,14 +258,17 @@ class TaskStore:
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        for output_id in output_data_ids:
-                            local_store.put(output_id, e)
-                    else:
-                        local_store.put(output_data_ids, e)
+                    if output_data_ids is not None:
+                        if (
+                            isinstance(output_data_ids, (list, tuple))
+                            and len(output_data_ids) > 1
+                        ):
+                            for output_id in output_data_ids:
+                                local_store.put(output_id, e)
+                            completed_data_ids = list(output_data_ids)
+                        else:
+                            local_store.put(output_data_ids, e)
+                            completed_data_ids = [output_data_ids]
                 else:
                     if output_data_ids is not None:
                         if (
@@ -346,14 +350,17 @@ class TaskStore:
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
-                if (
-                    isinstance(output_data_ids, (list, tuple))
-                    and len(output_data_ids) > 1
-                ):
-                    for output_id in output_data_ids:
-                        local_store.put(output_id, e)
-                else:
-                    local_store.put(output_data_ids, e)
+                if output_data_ids is not None:
+                    if (
+                        isinstance(output_data_ids, (list, tuple))
+                        and len(output_data_ids) > 1
+                    ):
+                        for output_id in output_data_ids:
+                            local_store.put(output_id, e)
+                        completed_data_ids = list(output_data_ids)
+                    else:
+                        local_store.put(output_data_ids, e)
+                        completed_data_ids = [output_data_ids]
             else:
                 if output_data_ids is not None:
                     if (
-- 
2.43.0


From 03b46376311b1049c46b9bfafc9b9b8c9d3c3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 06/25] fix: get of the MPI backend hung if a remote reference
 was passed more than once

---
 unidist/core/backends/mpi/core/controller/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..fe0737f 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,8 +415,11 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
+    # each remote data ID should be requested only once
     remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
+        data_id
+        for data_id in dict.fromkeys(data_ids)
+        if not object_store.contains(data_id)
     ]
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
-- 
2.43.0


From e0bd9608def18e4adea3f54a61d5995ebb9c7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 07/25] fix: get of the MPI backend returned the exception of a
 failed task when called again

---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index fe0737f..514825e 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -433,6 +433,10 @@ def get(data_ids):
     # if all the tasks were completed
     garbage_collector.regular_cleanup()
 
+    for value in values:
+        if isinstance(value, Exception):
+            raise value
+
     return values if is_list else values[0]
 
 
-- 
2.43.0


From 6931df357a23d8e3148e3b5376b1fc1cb010da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 08/25] fix: shutdown waited for the wrong monitor process if
 the monitor of the root host is not rank 1

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 514825e..2dca7a0 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -328,7 +328,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From 772eaf05f740d0a427615da024191251dc41e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 09/25] fix: actor tasks were executed but not counted as
 submitted, so the cleanup was never or too early triggered

---
 unidist/core/backends/mpi/core/controller/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
-- 
2.43.0


From 8a3ce966917c7336c0faebb5cc9f832b44ecc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 10/25] fix: data IDs collected while a cleanup request was
 being sent were lost

---
 .../core/backends/mpi/core/controller/garbage_collector.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/garbage_collector.py b/unidist/core/backends/mpi/core/controller/garbage_collector.py
index 58b015b..d58a970 100644
--- a/unidist/core/backends/mpi/core/controller/garbage_collector.py
+++ b/unidist/core/backends/mpi/core/controller/garbage_collector.py
@@ -136,8 +136,9 @@ class GarbageCollector:
                         )
                     )
                     if executed_task_counter == self._task_counter:
-                        self._send_cleanup_request(self._cleanup_list)
-                        self._cleanup_list.clear()
+                        # data IDs can be collected while the request is being sent
+                        cleanup_list, self._cleanup_list = self._cleanup_list, []
+                        self._send_cleanup_request(cleanup_list)
                         self._cleanup_counter += 1
                         self._timestamp = time.perf_counter()
             else:
-- 
2.43.0


From 9ab798baecd67b677d078e8cf4d02a4589653822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 11/25] fix: a failed shared memory reservation leaked the part
 that was reserved

---
 .../core/backends/mpi/core/monitor/shared_memory_manager.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..b873ff4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -174,10 +174,11 @@ class SharedMemoryManager:
                 "`SharedMemoryManager` cannot be used if the shared object storage is not enabled."
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
-        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if first_index is None:
             raise MemoryError("Overflow memory")
+        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if service_index is None:
+            self.free_memory.release(first_index, last_index)
             raise MemoryError("Overflow service memory")
 
         reservation_info = ImmutableDict(
-- 
2.43.0


From 9e63c067d190a8c0f865379621faaf9aedf3b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 12/25] fix: boolean configs set to a negative string were
 turned on

---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..30389f5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value.strip().lower() in {"true", "yes", "1"}
+            if isinstance(value, str)
+            else bool(value)
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From 96fa9c8d8a2716b7f5a3297a4c6cca34b9cf2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:01 +0000
Subject: [PATCH 13/25] fix: parallel_memcopy accessed memory out of bounds for
 data within a single block

---
 unidist/core/backends/mpi/core/memory/memory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..450b579 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -29,6 +29,11 @@ namespace unidist {
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right < left) {
+      // The data does not cross a block boundary so there is nothing to parallelize.
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From 01303d2da2de18781e51238ecf3d563a9134978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 14/25] fix: initialization of the Dask backend out of the main
 thread failed with UnboundLocalError

---
 unidist/core/base/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unidist/core/base/utils.py b/unidist/core/base/utils.py
index eab9c87..af196cf 100644
--- a/unidist/core/base/utils.py
+++ b/unidist/core/base/utils.py
@@ -30,12 +30,13 @@ def init_backend():
     elif backend_name == BackendName.DASK:
         import threading
 
+        from unidist.core.backends.dask.backend import DaskBackend
+
         if threading.current_thread() is threading.main_thread():
-            from unidist.core.backends.dask.backend import DaskBackend
             from unidist.core.backends.dask.utils import initialize_dask
 
             initialize_dask()
-            backend_cls = DaskBackend()
+        backend_cls = DaskBackend()
     elif backend_name == BackendName.RAY:
         from unidist.core.backends.ray.backend import RayBackend
         from unidist.core.backends.ray.utils import initialize_ray
-- 
2.43.0


From fd7ec21647504afb83ae2c09f9f795bdd518be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 15/25] fix: environment variables with quotes or backslashes
 broke or altered the start of MPI workers

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2dca7a0..47005fe 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -187,7 +187,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From cfbf79723b039efb631d7ba550e0ce5296e13df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 16/25] fix: requests and pending tasks waiting for the outputs
 of a coroutine task were lost on MPI workers

---
 unidist/core/backends/mpi/core/worker/loop.py | 12 +++-----
 .../backends/mpi/core/worker/task_store.py    | 29 +++++++++++++++++--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..d213e69 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -119,7 +119,7 @@ async def worker_loop():
                     task_store.put(pending_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -141,9 +141,7 @@ async def worker_loop():
                 request_store.discard_data_request(request["id"])
 
                 # Check pending requests. Maybe some data became available.
-                task_store.check_pending_tasks()
-                # Check pending actor requests also.
-                task_store.check_pending_actor_tasks()
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -163,9 +161,7 @@ async def worker_loop():
             request_store.discard_data_request(result["id"])
 
             # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+            task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -198,7 +194,7 @@ async def worker_loop():
                     task_store.put_actor(pending_actor_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_actor_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index bbca83c..8f46015 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -128,6 +128,26 @@ class TaskStore:
 
         self._pending_actor_tasks_list.clear()
 
+    def check_all_pending_tasks(self):
+        """
+        Check both pending task and pending actor task execution requests.
+
+        Notes
+        -----
+        A task may become ready due to the outputs of an actor task and vice versa,
+        so the check is repeated until no request gets processed.
+        """
+        while True:
+            num_pending = len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            )
+            self.check_pending_tasks()
+            self.check_pending_actor_tasks()
+            if num_pending == len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            ):
+                break
+
     def request_worker_data(self, dest_rank, data_id):
         """
         Send GET operation with data request to destination worker.
@@ -306,6 +326,7 @@ class TaskStore:
                             completed_data_ids = [output_data_ids]
 
                 RequestStore.get_instance().check_pending_get_requests(output_data_ids)
+                RequestStore.get_instance().check_pending_wait_requests(output_data_ids)
                 # Monitor the task execution
                 # We use a blocking send here because we have to wait for
                 # completion of the communication, which is necessary for the pipeline to continue.
@@ -318,6 +339,8 @@ class TaskStore:
                     completed_data_ids,
                     root_monitor,
                 )
+                # The tasks pending on this worker may depend on the outputs of this task.
+                self.check_all_pending_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
@@ -397,6 +420,7 @@ class TaskStore:
                             )
                         completed_data_ids = [output_data_ids]
             RequestStore.get_instance().check_pending_get_requests(output_data_ids)
+            RequestStore.get_instance().check_pending_wait_requests(output_data_ids)
             # Monitor the task execution.
             # We use a blocking send here because we have to wait for
             # completion of the communication, which is necessary for the pipeline to continue.
@@ -459,10 +483,9 @@ class TaskStore:
             request["kwargs"] = kwargs
             return request
         else:
+            # Pending requests for the outputs are processed once the task is complete,
+            # which is not the case here if the task is coroutine.
             self.execute_received_task(output_ids, task, args, kwargs)
-            if output_ids is not None:
-                RequestStore.get_instance().check_pending_get_requests(output_ids)
-                RequestStore.get_instance().check_pending_wait_requests(output_ids)
             return None
 
     def __del__(self):
-- 
2.43.0


From 7771a7f17d8dd5a29126f230f807396b60474419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:05 +0000
Subject: [PATCH 17/25] fix: reading an object back emptied the out-of-band
 buffers of its cached serialized form

---
 unidist/core/backends/mpi/core/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..784df4b 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,7 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From b6451e03bc28b3c63227df559ff59e851652359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:27 +0000
Subject: [PATCH 18/25] fix: put of the Dask backend split containers into
 their elements

---
 unidist/core/backends/dask/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..6061863 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,8 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # A container is wrapped, otherwise its elements would be put separately.
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From 65295dd3507ef3334f431a7ae3026d6e483b9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:24 +0000
Subject: [PATCH 19/25] fix: tuples, sets and exceptions holding functions or
 classes could not be sent by the MPI backend

---
 unidist/core/backends/mpi/core/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 784df4b..f3980cf 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -67,6 +67,8 @@ def is_cpkl_serializable(data):
         or inspect.ismethod(data)
         or data.__class__.__module__ != "builtins"
         or isinstance(data, KeysView)
+        # these may hold objects which only cloudpickle is able to serialize
+        or isinstance(data, (tuple, set, frozenset, BaseException))
     )
 
 
-- 
2.43.0


From 1d9c27ab3b66c059cc72377727f999fc256a3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 20/25] fix: a blocking data request was not answered if the
 data had been pushed to the requester before

---
 unidist/core/backends/mpi/core/controller/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..a8abd79 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -252,8 +252,10 @@ def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
     """
     local_store = LocalObjectStore.get_instance()
 
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # A blocking requester is always answered since the data that was pushed before
+    # may not have been received by the requester yet.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         logger.debug("PUT LOCAL {} id to {} rank".format(data_id._id, dest_rank))
 
         mpi_state = communication.MPIState.get_instance()
@@ -310,8 +312,10 @@ def _push_shared_data(dest_rank, data_id, is_blocking_op):
         even for a worker since it can get into controller mode.
     """
     local_store = LocalObjectStore.get_instance()
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # A blocking requester is always answered since the data that was pushed before
+    # may not have been received by the requester yet.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         mpi_state = communication.MPIState.get_instance()
         shared_store = SharedObjectStore.get_instance()
         mpi_state = communication.MPIState.get_instance()
-- 
2.43.0


From 35f49a289b4e8910ac2dedaabe865c7cb87cf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:36 +0000
Subject: [PATCH 21/25] fix: buffers of a blocking data reply got mixed up with
 buffers of data pushed to the requester before

---
 unidist/core/backends/mpi/core/common.py           |  5 +++++
 unidist/core/backends/mpi/core/communication.py    | 14 ++++++++------
 .../core/backends/mpi/core/controller/common.py    |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/common.py b/unidist/core/backends/mpi/core/common.py
index 8e61ab7..fb36926 100755
--- a/unidist/core/backends/mpi/core/common.py
+++ b/unidist/core/backends/mpi/core/common.py
@@ -104,12 +104,17 @@ class MPITag:
     OBJECT_BLOCKING : int, default: 114
         The tag for send/recv of a regular Python object
         to indicate the blocking get request.
+    BUFFER_BLOCKING : int, default: 115
+        The tag for send/recv of a buffer-like object of the blocking get request.
+        It differs from ``BUFFER`` to not mix up with the buffers of the data
+        that was pushed to the requester but has not been received yet.
     """
 
     OPERATION = 111
     OBJECT = 112
     BUFFER = 113
     OBJECT_BLOCKING = 114
+    BUFFER_BLOCKING = 115
 
 
 class MetadataPackage(ImmutableDict):
diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..2da1b73 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -651,14 +651,14 @@ def _send_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package):
     Notes
     -----
     The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    ``common.MPITag.OBJECT_BLOCKING`` and ``common.MPITag.BUFFER_BLOCKING``.
     """
     # wrap to dict for sending and correct deserialization of the object by the recipient
     comm.send(dict(info_package), dest=dest_rank, tag=common.MPITag.OBJECT_BLOCKING)
     with pkl5._bigmpi as bigmpi:
-        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER)
+        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
         for sbuf in raw_buffers:
-            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER)
+            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
 
 
 def send_complex_data(comm, data, dest_rank, is_serialized=False):
@@ -813,7 +813,7 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     return handlers, s_data, raw_buffers, buffer_count
 
 
-def recv_complex_data(comm, source_rank, info_package):
+def recv_complex_data(comm, source_rank, info_package, tag=common.MPITag.BUFFER):
     """
     Receive the data that may consist of different user provided complex types, lambdas and buffers.
 
@@ -827,6 +827,8 @@ def recv_complex_data(comm, source_rank, info_package):
         Source MPI process to receive data from.
     info_package : unidist.core.backends.mpi.core.common.MetadataPackage
         Required information to deserialize data.
+    tag : common.MPITag, default: common.MPITag.BUFFER
+        Message tag of the buffers.
 
     Returns
     -------
@@ -842,9 +844,9 @@ def recv_complex_data(comm, source_rank, info_package):
     buffer_count = info_package["buffer_count"]
     raw_buffers = list(map(bytearray, info_package["raw_buffers_len"]))
     with pkl5._bigmpi as bigmpi:
-        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=common.MPITag.BUFFER)
+        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=tag)
         for rbuf in raw_buffers:
-            comm.Recv(bigmpi(rbuf), source=source_rank, tag=common.MPITag.BUFFER)
+            comm.Recv(bigmpi(rbuf), source=source_rank, tag=tag)
 
     return deserialize_complex_data(msgpack_buffer, raw_buffers, buffer_count)
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index a8abd79..1e7a6aa 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -128,7 +128,9 @@ def pull_data(comm, owner_rank=None):
     object
         Received data object from another MPI process.
     """
+    buffer_tag = common.MPITag.BUFFER
     if owner_rank is None:
+        buffer_tag = common.MPITag.BUFFER_BLOCKING
         info_package, source = communication.mpi_iprobe_recv_object(
             comm, tag=common.MPITag.OBJECT_BLOCKING
         )
@@ -155,7 +157,7 @@ def pull_data(comm, owner_rank=None):
     elif info_package["package_type"] == common.MetadataPackage.LOCAL_DATA:
         local_store = LocalObjectStore.get_instance()
         data = communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
         data_id = info_package["id"]
         local_store.put(data_id, data)
-- 
2.43.0


From 8895d903e8b7522dfc94b6f7a1befb57c688dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 22/25] fix: a config value that is not among the choices
 replaced the current value

---
 unidist/config/parameter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 30389f5..540901e 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -233,7 +233,12 @@ class Parameter(object):
         """
         if not _TYPE_PARAMS[cls.type].verify(value):
             raise ValueError(f"Unsupported value: {value}")
-        cls._value = _TYPE_PARAMS[cls.type].normalize(value)
+        value = _TYPE_PARAMS[cls.type].normalize(value)
+        if cls.choices is not None and value not in cls.choices:
+            raise ValueError(
+                f"Unsupported value '{value}'. Supported set of values is {cls.choices}."
+            )
+        cls._value = value
         cls._value_source = ValueSource.SET_BY_USER
 
 
-- 
2.43.0


From 329703e3c0b2a7e17f9e89558bf077d2f96e0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 23/25] fix: the value source of the MPI pickle threshold got
 stale when the shared object store was switched

---
 unidist/config/backends/mpi/envvars.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/unidist/config/backends/mpi/envvars.py b/unidist/config/backends/mpi/envvars.py
index 417cfa7..5dfac00 100644
--- a/unidist/config/backends/mpi/envvars.py
+++ b/unidist/config/backends/mpi/envvars.py
@@ -55,11 +55,21 @@ class MpiPickleThreshold(EnvironmentVariable, type=int):
         int
         """
         if MpiSharedObjectStore.get():
-            mpi_pickle_threshold = MpiSharedObjectStoreThreshold.get()
-            cls.put_value_source(MpiSharedObjectStoreThreshold.get_value_source())
-        else:
-            mpi_pickle_threshold = super().get()
-        return mpi_pickle_threshold
+            return MpiSharedObjectStoreThreshold.get()
+        return super().get()
+
+    @classmethod
+    def get_value_source(cls):
+        """
+        Get value source of minimum buffer size for serialization with pickle 5 protocol.
+
+        Returns
+        -------
+        int
+        """
+        if MpiSharedObjectStore.get():
+            return MpiSharedObjectStoreThreshold.get_value_source()
+        return super().get_value_source()
 
 
 class MpiBackoff(EnvironmentVariable, type=float):
-- 
2.43.0


From 158ef0e0af7cfbcc1aeba174f9a0d78b72f5e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:41 +0000
Subject: [PATCH 24/25] fix: shutdown hung if cancelled workers were sending
 data to each other

---
 .../backends/mpi/core/async_operations.py     | 10 +++++
 unidist/core/backends/mpi/core/worker/loop.py | 41 ++++++++++++-------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/unidist/core/backends/mpi/core/async_operations.py b/unidist/core/backends/mpi/core/async_operations.py
index 03a9ebb..82a86e0 100644
--- a/unidist/core/backends/mpi/core/async_operations.py
+++ b/unidist/core/backends/mpi/core/async_operations.py
@@ -60,6 +60,16 @@ class AsyncOperations:
             tup for tup in self._send_async_handlers if not is_ready(tup[0])
         ]
 
+    def is_empty(self):
+        """
+        Check whether there are no MPI async send requests in progress.
+
+        Returns
+        -------
+        bool
+        """
+        return not self._send_async_handlers
+
     def finish(self):
         """Finish all MPI async send requests."""
         for handler, _ in self._send_async_handlers:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index d213e69..6de1ace 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -14,6 +14,7 @@ except ImportError:
         "Missing dependency 'mpi4py'. Use pip or conda to install it."
     ) from None
 
+from unidist.config import MpiBackoff
 import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.object_store import ObjectStore
@@ -100,7 +101,23 @@ async def worker_loop():
     # Once all workers excluding ``Root`` and ``Monitor`` ranks are ready to shutdown,
     # ``Monitor` sends the shutdown signal to every worker so they can exit the loop.
     ready_to_shutdown_posted = False
+    is_cancelled = False
     while True:
+        if is_cancelled and not ready_to_shutdown_posted:
+            # The receivers of the data being sent may have been cancelled as well and wait for
+            # completion of their sends to this worker, so keep receiving in the meantime.
+            async_operations.check()
+            if async_operations.is_empty():
+                communication.mpi_send_operation(
+                    mpi_state.global_comm,
+                    common.Operation.READY_TO_SHUTDOWN,
+                    mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+                )
+                ready_to_shutdown_posted = True
+            elif not mpi_state.global_comm.iprobe(tag=common.MPITag.OPERATION):
+                await asyncio.sleep(MpiBackoff.get())
+                continue
+
         # Listen receive operation from any source
         operation_type, source_rank = await async_wrap(
             communication.mpi_recv_operation
@@ -112,7 +129,7 @@ async def worker_loop():
         # Proceed the request
         if operation_type == common.Operation.EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 # Execute the task if possible
                 pending_request = task_store.process_task_request(request)
                 if pending_request:
@@ -123,14 +140,14 @@ async def worker_loop():
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if request is not None and not ready_to_shutdown_posted:
+            if request is not None and not is_cancelled:
                 request_store.process_get_request(
                     request["source"], request["id"], request["is_blocking_op"]
                 )
 
         elif operation_type == common.Operation.PUT_DATA:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 w_logger.debug(
                     "PUT (RECV) {} id from {} rank".format(
                         request["id"]._id, source_rank
@@ -145,7 +162,7 @@ async def worker_loop():
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 local_store.put_data_owner(request["id"], request["owner"])
 
                 w_logger.debug(
@@ -165,13 +182,13 @@ async def worker_loop():
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 w_logger.debug("WAIT for {} id".format(request["id"]._id))
                 request_store.process_wait_request(request["id"])
 
         elif operation_type == common.Operation.ACTOR_CREATE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 cls = request["class"]
                 args = request["args"]
                 kwargs = request["kwargs"]
@@ -180,7 +197,7 @@ async def worker_loop():
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
-            if not ready_to_shutdown_posted:
+            if not is_cancelled:
                 # Prepare the data
                 # Actor method here is a data id so we have to retrieve it from the storage
                 method_name = object_store.get(request["task"])
@@ -208,13 +225,7 @@ async def worker_loop():
             task_store.clear_pending_actor_tasks()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
-            async_operations.finish()
-            communication.mpi_send_operation(
-                mpi_state.global_comm,
-                common.Operation.READY_TO_SHUTDOWN,
-                mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
-            )
-            ready_to_shutdown_posted = True
+            is_cancelled = True
         elif operation_type == common.Operation.SHUTDOWN and ready_to_shutdown_posted:
             w_logger.debug("Exit worker event loop")
             SharedObjectStore.get_instance().finalize()
@@ -225,5 +236,5 @@ async def worker_loop():
             raise ValueError(f"Unsupported operation: {operation_type}")
 
         # Check completion status of previous async MPI routines
-        if not ready_to_shutdown_posted:
+        if not is_cancelled:
             async_operations.check()
-- 
2.43.0


From 3f069011c03a5523a80e026c467c0baad20c61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:12 +0000
Subject: [PATCH 25/25] fix: ImmutableDict could be modified in place by the |=
 operator

---
 unidist/core/backends/mpi/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unidist/core/backends/mpi/utils.py b/unidist/core/backends/mpi/utils.py
index e038fb2..1abc65f 100644
--- a/unidist/core/backends/mpi/utils.py
+++ b/unidist/core/backends/mpi/utils.py
@@ -35,3 +35,6 @@ class ImmutableDict(dict):
 
     def setdefault(self, *args, **kwargs):
         raise ImmutableDict.__readonly_exception
+
+    def __ior__(self, *args, **kwargs):
+        raise ImmutableDict.__readonly_exception
-- 
2.43.0

