From 047633e6b18e2c67588fa4aadc63cfefa3130675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 01/79] fix: Flow.train accepts None as the iterable of an
 already trained node

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..f2416b3 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 6534b12e0a7236e0cc7c7d18b63a745ad360c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 02/79] fix: Flow.__iadd__ leaves the flow unchanged when the
 result is inconsistent

---
 mdp/linear_flows.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index f2416b3..bb869e4 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -548,14 +548,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
-- 
2.43.0


From e4118cb3874d0e41f5b834a5b5755e7f291c9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 03/79] fix: assigning an iterator to a slice of a Flow keeps
 its nodes

---
 mdp/linear_flows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index bb869e4..118acce 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -498,6 +498,8 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            # 'value' can be an iterator: it is used more than once below
+            value = list(value)
             [self._check_value_type_isnode(item) for item in value]
         else:
             self._check_value_type_isnode(value)
-- 
2.43.0


From b92aaca222d8c00d5856f29e2f6e60434c278e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 04/79] fix: deactivating an extension restores methods
 overridden in a subclass

---
 mdp/extension.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..fc5d194 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -324,9 +324,11 @@ def activate_extension(extension_name, verbose=False):
                                + "' and newly activated extension '" +
                                extension_name + "'.")
                         raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
+                    # the attribute has to be saved if it belongs to this
+                    # class, an inherited one only if no extension is yet
+                    # active on the superclasses
+                    if (attr_name in node_cls.__dict__ or
+                            ext_attr_name not in dir(node_cls)):
                         original_attr = getattr(node_cls, attr_name)
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
@@ -369,8 +371,10 @@ def deactivate_extension(extension_name, verbose=False):
                 # method, otherwise we would inject unwanted methods.
                 # Note: '==' tests identity for .__func__ and .__self__,
                 #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
+                # If a superclass is still extended then its original counts.
+                if all([getattr(x, attr_name, None) != original_attr and
+                        getattr(x, original_name, None) != original_attr
+                        for x in node_cls.__mro__[1:]]):
                     setattr(node_cls, attr_name, original_attr)
                 delattr(node_cls, original_name)
             else:
-- 
2.43.0


From 7df671288436c52a7c132856ab7abb3fba206f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 05/79] fix: a failed extension activation leaves attributes of
 other extensions alone

---
 mdp/extension.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdp/extension.py b/mdp/extension.py
index fc5d194..35e8f3c 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -356,6 +356,11 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            if (node_cls.__dict__.get(_EXTENSION_ATTR_PREFIX + attr_name)
+                    != extension_name):
+                # this attribute was not set by this extension, because the
+                # activation failed or it was registered later
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
-- 
2.43.0


From 71f03968f4b49791683108e6deb7aa6852bafbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 06/79] fix: deactivating an extension restores static and
 class methods as such

---
 mdp/extension.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 35e8f3c..24ffe54 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -329,7 +329,9 @@ def activate_extension(extension_name, verbose=False):
                     # active on the superclasses
                     if (attr_name in node_cls.__dict__ or
                             ext_attr_name not in dir(node_cls)):
-                        original_attr = getattr(node_cls, attr_name)
+                        # use the __dict__ to keep static and class methods
+                        original_attr = node_cls.__dict__.get(
+                            attr_name, getattr(node_cls, attr_name))
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
                                 (extension_name, attr_name, node_cls.__name__))
@@ -370,7 +372,7 @@ def deactivate_extension(extension_name, verbose=False):
                     print ("extension %s: restoring %s in %s" %
                            (extension_name, attr_name, node_cls.__name__))
                 delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
+                original_attr = node_cls.__dict__[original_name]
                 # Check if the attribute is defined by one of the super
                 # classes and test if the overwritten method is not that
                 # method, otherwise we would inject unwanted methods.
-- 
2.43.0


From 25ce81c19e44aa90243c6cf573e81d9b2a6a54d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 07/79] fix: an extension class inherits the overrides of its
 extension superclass

---
 mdp/extension.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 24ffe54..2611789 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -219,12 +219,18 @@ class ExtensionNodeMetaclass(NodeMetaclass):
         # reverse order and register all attributes starting from the
         # classes which are subclasses from ExtensionNode.
         extension_subtree = False
+        overrides = {}
+        for base in reversed(ext_node_cls.__mro__):
+            if ExtensionNode in base.__mro__:
+                overrides.update(dict.fromkeys(base.__dict__, base))
         for base in reversed(ext_node_cls.__mro__):
             # make sure we only inject methods in classes which have
             # ExtensionNode as superclass
             if extension_subtree and ExtensionNode in base.__mro__:
                 for attr_name, attr_value in list(base.__dict__.items()):
-                    if attr_name not in _NON_EXTENSION_ATTRIBUTES:
+                    # skip what is overridden in the extension class hierarchy
+                    if (attr_name not in _NON_EXTENSION_ATTRIBUTES and
+                            overrides[attr_name] is base):
                         # check if this attribute has not already been
                         # extended in one of the base classes
                         already_active = False
-- 
2.43.0


From ae8f77c2cecef55b8d52c26dbe156f41fdbb755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 08/79] fix: Scheduler stays usable after a failing task or a
 missing callable

---
 mdp/parallel/scheduling.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..30e9b14 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -248,6 +248,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -350,9 +351,16 @@ class Scheduler(object):
         Warning: Note that fork has not been called yet, so the provided
         task_callable must not be called. Only a forked version can be called.
         """
-        # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            # IMPORTANT: always call fork, since it must be called at least
+            # once!
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            # the task is lost, leave the scheduler in a usable state
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From 48bebbdd205566eb2401a94be329047298e380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 09/79] fix: Scheduler.set_task_callable accepts functions like
 add_task

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 30e9b14..dd19f74 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -275,6 +275,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if task_callable is not None and not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
-- 
2.43.0


From ec3995a4e2152eac993a245562fa70ac98bde16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 10/79] fix: OrderedResultContainer returns an empty list when
 there are no results

---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index dd19f74..8ef69b0 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -73,7 +73,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return [result for result, _ in results]
 
 
 class TaskCallable(object):
-- 
2.43.0


From 15121fd0a86634d701cab1c0dc684f6071274c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 11/79] fix: ThreadScheduler respects the maximum number of
 threads

---
 mdp/parallel/thread_schedule.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..dc6eda7 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -60,6 +60,7 @@ class ThreadScheduler(Scheduler):
                 time.sleep(SLEEP_TIME)
                 self._lock.acquire()
             else:
+                self._n_active_threads += 1
                 self._lock.release()
                 task_callable = task_callable.fork()
                 if self.copy_callable:
@@ -79,9 +80,15 @@ class ThreadScheduler(Scheduler):
                         print ("unable to create new thread,"
                                " waiting 2 seconds...")
                     time.sleep(2)
+                    self._lock.acquire()
+                    self._n_active_threads -= 1
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
-        self._n_active_threads -= 1
+        try:
+            result = task_callable(data)
+            self._store_result(result, task_index)
+        finally:
+            self._lock.acquire()
+            self._n_active_threads -= 1
+            self._lock.release()
-- 
2.43.0


From 22989d9f1c2f13fe4bc7e0f6fe0799bee937094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 12/79] fix: ProcessScheduler runs each task with the callable
 it was added with

---
 mdp/parallel/process_schedule.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..0c0ed7b 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -141,6 +141,8 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # the callable can be changed while this task waits for its process
+        callable_index = self._last_callable_index
         task_started = False
         while not task_started:
             if not len(self._free_processes):
@@ -154,7 +156,8 @@ class ProcessScheduler(Scheduler):
                     self._lock.release()
                     thread = threading.Thread(target=self._task_thread,
                                               args=(process, data,
-                                                    task_callable, task_index))
+                                                    task_callable, task_index,
+                                                    callable_index))
                     thread.start()
                     task_started = True
                 except thread.error:
@@ -163,7 +166,8 @@ class ProcessScheduler(Scheduler):
                                " waiting 2 seconds...")
                     time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -173,8 +177,8 @@ class ProcessScheduler(Scheduler):
         try:
             if self._cache_callable:
                 # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                if process._callable_index != callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
-- 
2.43.0


From 87af5d35d6c77a5f2671bab669b258b89f79c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 13/79] fix: ProcessScheduler can be shut down once all results
 are there

---
 mdp/parallel/process_schedule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 0c0ed7b..10f5ef4 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -127,6 +127,7 @@ class ProcessScheduler(Scheduler):
         """
         self._lock.acquire()
         if len(self._free_processes) < self._n_processes:
+            self._lock.release()
             raise Exception("some slave process is still working")
         for process in self._free_processes:
             pickle.dump("EXIT", process.stdin)
@@ -191,9 +192,10 @@ class ProcessScheduler(Scheduler):
             traceback.print_exc()
             self._free_processes.append(process)
             sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
+        # clean up and store the result, in this order since the scheduler
+        # can be shut down as soon as the last result is stored
         self._free_processes.append(process)
+        self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
-- 
2.43.0


From 15f919892a76943dbc7c56c1995fad4799394e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 14/79] fix: ParallelFlow.train accepts an iterable of
 schedulers when all nodes are trained

---
 mdp/parallel/parallelflows.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..1ad5512 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -324,19 +324,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
-- 
2.43.0


From a36e00b314a1564c9723dc05e674b3b06a84e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 15/79] fix: ParallelFlow can be used again after its parallel
 training failed

---
 mdp/parallel/parallelflows.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 1ad5512..ec1fe13 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -375,9 +375,9 @@ class ParallelFlow(mdp.Flow):
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
             finally:
-                # reset iterable references, which cannot be pickled
-                self._train_data_iterables = None
-                self._train_data_iterator = None
+                # reset iterable references, which cannot be pickled,
+                # after an error the training is not underway any more
+                self._reset_parallel_training()
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
@@ -409,7 +409,18 @@ class ParallelFlow(mdp.Flow):
         self._train_data_iterables = self._train_check_iterables(data_iterables)
         self._i_train_node = 0
         self._flownode = FlowNode(mdp.Flow(self.flow))
-        self._next_train_phase()
+        try:
+            self._next_train_phase()
+        except:
+            self._reset_parallel_training()
+            raise
+
+    def _reset_parallel_training(self):
+        """Reset all internal variables used for parallel training."""
+        self._train_data_iterables = None
+        self._train_data_iterator = None
+        self._i_train_node = None
+        self._next_task = None
 
     def _next_train_phase(self):
         """Find the next phase or node for parallel training.
@@ -697,7 +708,11 @@ class ParallelFlow(mdp.Flow):
             self._post_stop_training_hook()
             if not self.flow[self._i_train_node].is_training():
                 self._i_train_node += 1
-            self._next_train_phase()
+            try:
+                self._next_train_phase()
+            except:
+                self._reset_parallel_training()
+                raise
         elif self.is_parallel_executing:
             self._exec_data_iterator = None
             ys = [result[0] for result in results]
-- 
2.43.0


From 7ef778a30c55e59c752f5ae18d6d32d1e6486a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 16/79] fix: ParallelFlow keeps no task after its parallel
 execution failed

---
 mdp/parallel/parallelflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index ec1fe13..bac7dc4 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -594,6 +594,8 @@ class ParallelFlow(mdp.Flow):
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
+            # after an error there can be an unused task
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, nodenr=None,
@@ -625,6 +627,7 @@ class ParallelFlow(mdp.Flow):
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
         if first_task is None:
+            self._exec_data_iterator = None
             errstr = ("The execute data iterator is empty.")
             raise mdp.FlowException(errstr)
         task_data_chunk = first_task[0]
-- 
2.43.0


From 4030acf175ea70357204f9292548b2c835997083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 17/79] fix: ParallelCheckpointFlow can be trained without a
 scheduler

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index bac7dc4..5713c48 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -743,7 +743,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From 2e9c04c775dbe66905c5280cbbaa80d9597898d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 18/79] fix: ParallelFlow.setup_parallel_execution works
 without execute

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 5713c48..e87c278 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -581,7 +581,6 @@ class ParallelFlow(mdp.Flow):
                               ExecuteResultContainer):
                 scheduler.result_container = ExecuteResultContainer()
         # do parallel execution
-        self._flownode = FlowNode(mdp.Flow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable,
@@ -622,6 +621,7 @@ class ParallelFlow(mdp.Flow):
         if self.is_parallel_training:
             raise ParallelFlowException("Parallel training is underway.")
         self._execute_callable_class = execute_callable_class
+        self._flownode = FlowNode(mdp.Flow(self.flow))
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
         self._exec_data_iterator = iter(iterable)
-- 
2.43.0


From 1e9005462b7580622806840ffee3450c05217097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 19/79] fix: ParallelFlow respects nodenr in parallel execution

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index e87c278..b9be799 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -636,6 +636,7 @@ class ParallelFlow(mdp.Flow):
         # forked in the scheduler.
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
+                                                        nodenr=nodenr,
                                                         purge_nodes=True))
 
     def _create_execute_task(self):
-- 
2.43.0


From df828c11f130fdd7e80e335afa38b50762010f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 20/79] fix: a refused setup of a parallel training leaves its
 checkpoints alone

---
 mdp/parallel/parallelflows.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index b9be799..62935ee 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -764,6 +764,10 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                 train_callable_class=FlowTrainCallable,
                                 **kwargs):
         """Checkpoint version of parallel training."""
+        if self.is_parallel_training:
+            # leave the checkpoints of the current training alone
+            err = "Parallel training is already underway."
+            raise ParallelFlowException(err)
         self._checkpoints = self._train_check_checkpoints(checkpoints)
         super(ParallelCheckpointFlow, self).setup_parallel_training(
                                     data_iterables,
-- 
2.43.0


From e9a8e38c1cf47037db6a0e3bf9a1468315b2781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 21/79] fix: a binode coroutine can end with a return value

---
 bimdp/binode.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..9512dad 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -530,10 +530,9 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value given to return (in Python 2 only arguments of
+                # a raised StopIteration are possible)
+                return getattr(exception, "value", exception.args or None)
         # turn the signature into the one specified by the args
         interface_infodict = infodict.copy()
         interface_infodict["signature"] = ", ".join(args)
@@ -555,10 +554,9 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value given to return (in Python 2 only arguments of
+                # a raised StopIteration are possible)
+                return getattr(exception, "value", exception.args or None)
         coroutine_initialization = mdp.NodeMetaclass._wrap_function(
             _coroutine_initialization, infodict)
         return coroutine_initialization
-- 
2.43.0


From 3ffd67c4238e2dc167366249ba830f69151ca1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 22/79] fix: BiFlow rejects relative targets outside of the
 flow

A target two or more nodes before the start wrapped around to the end of the
flow, one beyond the end raised an IndexError.
---
 bimdp/biflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..a1dc7c5 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -558,6 +558,10 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value references a node outside of "
+                           "the flow (target " + str(target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 722be70294db78677ff8c5e73ed0b749bd2859d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 23/79] fix: BiCheckpointFlow accepts checkpoint functions
 returning None

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index a1dc7c5..e11f1cc 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -611,7 +611,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 2bfc65dc67d94094ab6b872a6b2972ae91673737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 24/79] fix: BiFlow.execute accepts an iterable of messages
 without data and targets

---
 bimdp/biflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e11f1cc..2a4fbab 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -460,6 +460,8 @@ class BiFlow(mdp.Flow):
                 if isinstance(msg_iterable, dict):
                     msg_iterable = [msg_iterable]
                     target_iterable = [target_iterable]
+                elif target_iterable is None:
+                    target_iterable = NoneIterable()
         else:
             if msg_iterable is None:
                 msg_iterable = NoneIterable()
-- 
2.43.0


From 8404e59969315e5caa059a3a86c404586f6f2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 25/79] fix: BiFlow.execute accepts several chunks without data
 result

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 2a4fbab..81b9fde 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -348,7 +348,7 @@ class BiFlow(mdp.Flow):
             else:
                 if y_results is None:
                     y_results = False
-                else:
+                elif y_results is not False:
                     err = "Some but not all y return values were None."
                     raise BiFlowException(err)
         if empty_iterator:
-- 
2.43.0


From 6ba034961e299587e69b2584e022122e92e799c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 26/79] fix: BiFlow does not change the messages it is given

The nodes remove and update keys of the message dict in place, so in the second
training phase (or for the next node, if the data is given as an array) the
messages were no longer the ones given by the user.
---
 bimdp/biflow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 81b9fde..5c799a6 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -176,6 +176,9 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes change the message, but it is used in every phase
+                msg = msg.copy()
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -252,7 +255,7 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -311,6 +314,9 @@ class BiFlow(mdp.Flow):
         for (x, msg, target) in zip(iterable, msg_iterable,
                                                target_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes change the message, so do not use the original
+                msg = msg.copy()
             if not target:
                 i_node = 0
             else:
-- 
2.43.0


From 1e9bafca2b3efdbad3999e96f2dbc822a8ddf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 27/79] fix: layers do not cast the output of all nodes to the
 type of the first

A first node with integer output truncated the output of all other nodes.
---
 mdp/hinet/layer.py | 50 ++++++++--------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..48d3d35 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -182,46 +182,24 @@ class Layer(mdp.Node):
         """Process the data through the internal nodes."""
         in_start = 0
         in_stop = 0
-        out_start = 0
-        out_stop = 0
-        y = None
+        y = []
         for node in self.nodes:
-            out_start = out_stop
-            out_stop += node.output_dim
             in_start = in_stop
             in_stop += node.input_dim
-            if y is None:
-                node_y = node.execute(x[:, in_start:in_stop], *args, **kwargs)
-                y = numx.zeros([node_y.shape[0], self.output_dim],
-                               dtype=node_y.dtype)
-                y[:, out_start:out_stop] = node_y
-            else:
-                y[:, out_start:out_stop] = node.execute(x[:, in_start:in_stop],
-                                                        *args, **kwargs)
-        return y
+            y.append(node.execute(x[:, in_start:in_stop], *args, **kwargs))
+        return numx.hstack(y)
 
     def _inverse(self, x, *args, **kwargs):
         """Combine the inverse of all the internal nodes."""
         in_start = 0
         in_stop = 0
-        out_start = 0
-        out_stop = 0
-        y = None
+        y = []
         for node in self.nodes:
             # compared with execute, input and output are switched
-            out_start = out_stop
-            out_stop += node.input_dim
             in_start = in_stop
             in_stop += node.output_dim
-            if y is None:
-                node_y = node.inverse(x[:, in_start:in_stop], *args, **kwargs)
-                y = numx.zeros([node_y.shape[0], self.input_dim],
-                               dtype=node_y.dtype)
-                y[:, out_start:out_stop] = node_y
-            else:
-                y[:, out_start:out_stop] = node.inverse(x[:, in_start:in_stop],
-                                                        *args, **kwargs)
-        return y
+            y.append(node.inverse(x[:, in_start:in_stop], *args, **kwargs))
+        return numx.hstack(y)
 
     # container methods
 
@@ -347,17 +325,5 @@ class SameInputLayer(Layer):
 
     def _execute(self, x, *args, **kwargs):
         """Process the data through the internal nodes."""
-        out_start = 0
-        out_stop = 0
-        y = None
-        for node in self.nodes:
-            out_start = out_stop
-            out_stop += node.output_dim
-            if y is None:
-                node_y = node.execute(x, *args, **kwargs)
-                y = numx.zeros([node_y.shape[0], self.output_dim],
-                               dtype=node_y.dtype)
-                y[:, out_start:out_stop] = node_y
-            else:
-                y[:, out_start:out_stop] = node.execute(x, *args, **kwargs)
-        return y
+        return numx.hstack([node.execute(x, *args, **kwargs)
+                            for node in self.nodes])
-- 
2.43.0


From b4688f2f5430f244df61b7efd594c99359460daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 28/79] fix: a layer refuses data with wrong dimensions before
 its nodes are trained

Without output_dim the first nodes were already trained with their slice of the
data when the data was refused.
---
 mdp/hinet/layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 48d3d35..edb192d 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -165,6 +165,7 @@ class Layer(mdp.Node):
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform normal checks."""
         if self.output_dim is None:
+            self._check_input(x)
             # first make sure that the output_dim is set for all nodes
             in_start = 0
             in_stop = 0
@@ -313,6 +314,7 @@ class SameInputLayer(Layer):
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform nromal checks."""
         if self.output_dim is None:
+            self._check_input(x)
             # first make sure that the output_dim is set for all nodes
             for node in self.nodes:
                 node._pre_execution_checks(x)
-- 
2.43.0


From c96bb5899d0bdef04ddbaa5ea89d43070d02961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 29/79] fix: CloneLayer forwards additional arguments to its
 node

---
 mdp/hinet/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index edb192d..205faeb 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -250,13 +250,13 @@ class CloneLayer(Layer):
     def _execute(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-        y = self.node.execute(x)
+        y = self.node.execute(x, *args, **kwargs)
         return y.reshape(n_samples, self.output_dim)
 
     def _inverse(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
-        y = self.node.inverse(x)
+        y = self.node.inverse(x, *args, **kwargs)
         return y.reshape(n_samples, self.input_dim)
 
 
-- 
2.43.0


From 5824a65e75adf96553052fe5d80dbcb3aaae5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 30/79] fix: executing an untrained CloneLayer trains its node
 with all slices

If the output dimension was not set then only the first slice was used.
---
 mdp/hinet/layer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 205faeb..c9c3201 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -247,6 +247,15 @@ class CloneLayer(Layer):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
+    def _pre_execution_checks(self, x):
+        """Make sure that an untrained node is trained with all slices."""
+        if (self.output_dim is None and self.get_current_train_phase() == 0
+            and not self._train_phase_started):
+            while self.is_training():
+                self.train(x)
+                self.stop_training()
+        super(CloneLayer, self)._pre_execution_checks(x)
+
     def _execute(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-- 
2.43.0


From a67a67a06e582c7fcbed0b19ef7af8e5e0b59f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 31/79] fix: a FlowNode without output_dim gets the one of its
 last node

When executed its output_dim was set to the input_dim, which was refused (e.g. for
a PolynomialExpansionNode) or wrong (e.g. after a PCANode with output_dim).
---
 mdp/hinet/flownode.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..2553c6f 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -170,6 +170,27 @@ class FlowNode(mdp.Node):
                                                         train_seq[-1][1]))
         return train_seq
 
+    def _pre_execution_checks(self, x):
+        """Make sure that output_dim is the one of the last node."""
+        if self.output_dim is None:
+            if (self.get_current_train_phase() == 0 and
+                not self._train_phase_started):
+                while self.is_training():
+                    self.train(x)
+                    self.stop_training()
+            self._if_training_stop_training()
+            self._check_input(x)
+            # use the default of Node for all nodes which are not determined
+            input_dim = self.input_dim
+            for node in self._flow:
+                if node.input_dim is None:
+                    node.input_dim = input_dim
+                if node.output_dim is None:
+                    node.output_dim = node.input_dim
+                input_dim = node.output_dim
+            self.output_dim = self._flow[-1].output_dim
+        super(FlowNode, self)._pre_execution_checks(x)
+
     def _execute(self, x, *args, **kwargs):
         return self._flow.execute(x, *args, **kwargs)
 
-- 
2.43.0


From bab911531ace70c36df5ac5c61b08a1744b1c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 32/79] fix: a failing copy of a FlowNode does not remove its
 nodes

---
 mdp/hinet/flownode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 2553c6f..273cf56 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -221,9 +221,11 @@ class FlowNode(mdp.Node):
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
+        try:
+            new_flownode = _copy.deepcopy(self)
+        finally:
+            self._flow.flow = old_nodes
         new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From b4db747638335344518b7f359825f8ddef4bc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 33/79] fix: a FlowNode can wrap a single node whose output_dim
 cannot be set

Such as a PolynomialExpansionNode, for which setting output_dim is always refused.
---
 mdp/hinet/flownode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 273cf56..d84b30f 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -81,9 +81,11 @@ class FlowNode(mdp.Node):
 
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
-        if len(self._flow) == 1:
+        if last_node.output_dim is not None:
+            pass
+        elif len(self._flow) == 1:
             self._flow[-1].output_dim = n
-        elif last_node.output_dim is None:
+        else:
             self._fix_nodes_dimensions()
             # check if it worked
             if last_node.output_dim is None:
-- 
2.43.0


From a904a393c2d4960624b49288748f9cffe7e3522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 34/79] fix: executing an online FlowNode without output_dim
 does not stop its training

---
 mdp/hinet/flownode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index d84b30f..12d887d 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -174,7 +174,8 @@ class FlowNode(mdp.Node):
 
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is the one of the last node."""
-        if self.output_dim is None:
+        # online nodes do not stop their training for an execution
+        if self.output_dim is None and not isinstance(self, mdp.OnlineNode):
             if (self.get_current_train_phase() == 0 and
                 not self._train_phase_started):
                 while self.is_training():
-- 
2.43.0


From b8db68e97aac37a35b313f67e54fff859811cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 35/79] fix: the process scheduler survives that a thread
 cannot be started

---
 mdp/parallel/process_schedule.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 10f5ef4..40e0fc9 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -152,20 +152,22 @@ class ProcessScheduler(Scheduler):
                 time.sleep(SLEEP_TIME)
                 self._lock.acquire()
             else:
+                process = self._free_processes.pop()
+                self._lock.release()
                 try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
                     thread = threading.Thread(target=self._task_thread,
                                               args=(process, data,
                                                     task_callable, task_index,
                                                     callable_index))
                     thread.start()
                     task_started = True
-                except thread.error:
+                except Exception:
                     if self.verbose:
                         print ("unable to create new task thread,"
                                " waiting 2 seconds...")
                     time.sleep(2)
+                    self._lock.acquire()
+                    self._free_processes.append(process)
 
     def _task_thread(self, process, data, task_callable, task_index,
                      callable_index):
-- 
2.43.0


From 2624b4261022eb60c5a93144d87e8e0c92850da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 36/79] fix: refuse negative connection indices in switchboards

The inverse of connections such as [0, -1] mixed the components up, the mean
inverse failed, and indices below -input_dim were only noticed on execution.
---
 mdp/hinet/switchboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..0322e43 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,9 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = "One or more switchboard connection indices are negative."
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
-- 
2.43.0


From 69a6df9cf4fe6f01c9cada8501b396deaa808ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 37/79] fix: let the switchboard factory build
 DoubleRhomb2dSwitchboards

The keyword of the constructor is long_in_channels_xy.
---
 mdp/hinet/switchboard_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 6df50eb..784c99f 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -132,6 +132,6 @@ class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        return {"long_out_channels_xy": prev_switchboard.long_out_channels_xy,
+        return {"long_in_channels_xy": prev_switchboard.long_out_channels_xy,
                 "diag_field_channels": free_params["field_size"],
                 "in_channel_dim": in_channel_dim}
-- 
2.43.0


From 3fca38bd6aa4dde2fdbc701a3a2f5d557d725ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 38/79] fix: do not modify the parameters given to the
 switchboard factory

---
 mdp/hinet/switchboard_factory.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 784c99f..a0e3fa6 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -94,13 +94,11 @@ class FactoryRectangular2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        if not "ignore_cover" in free_params:
-            free_params["ignore_cover"] = True
         return {"in_channels_xy": prev_switchboard.out_channels_xy,
                 "field_channels_xy": free_params["field_channels_xy"],
                 "field_spacing_xy": free_params["field_spacing_xy"],
                 "in_channel_dim": in_channel_dim,
-                "ignore_cover": free_params["ignore_cover"]}
+                "ignore_cover": free_params.get("ignore_cover", True)}
 
 
 class FactoryDoubleRect2dSwitchboard(FactoryExtensionChannelSwitchboard,
@@ -114,12 +112,10 @@ class FactoryDoubleRect2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        if not "ignore_cover" in free_params:
-            free_params["ignore_cover"] = True
         return {"in_channels_xy": prev_switchboard.out_channels_xy,
                 "field_channels_xy": free_params["field_channels_xy"],
                 "in_channel_dim": in_channel_dim,
-                "ignore_cover": free_params["ignore_cover"]}
+                "ignore_cover": free_params.get("ignore_cover", True)}
 
 
 class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
-- 
2.43.0


From fb3a9d08b9f3bdf5024ae6c1ee030df98d98fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 39/79] fix: do not modify the parameters given to the bi
 switchboard factory

---
 bimdp/hinet/biswitchboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bimdp/hinet/biswitchboard.py b/bimdp/hinet/biswitchboard.py
index 4196104..afd7bc3 100644
--- a/bimdp/hinet/biswitchboard.py
+++ b/bimdp/hinet/biswitchboard.py
@@ -110,6 +110,7 @@ def _binode_create_switchboard(cls, free_params, prev_switchboard,
                " is not compatible with this switchboard class" +
                " '%s'." % cls.__name__)
         raise mdp.hinet.SwitchboardException(err)
+    free_params = free_params.copy()
     for key, value in list(free_params.items()):
         if key.endswith('_xy') and isinstance(value, int):
             free_params[key] = (value, value)
-- 
2.43.0


From 6a2305d4545ada38226d73492dfa99f701f88903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 40/79] fix: let graph nodes with self-loops be removed

The loop was listed twice, and removing it the second time raised a
ValueError and left the node in the graph.
---
 mdp/graph/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..6299089 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -153,7 +153,10 @@ class Graph(object):
             raise GraphException(errstr)
 
         # remove all edges containing this node
-        for edge in node.get_edges():
+        # (an edge from the node to itself is both entering and outgoing)
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From 875c8f499df9f5c84c88edf62032f3b2aae37c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 41/79] fix: visit graph nodes in depth first order

A node was marked as visited when it was put on the stack, so it was not
moved up when it turned out to be a son of a node visited earlier.
---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 6299089..c923bc7 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -290,7 +290,7 @@ class Graph(object):
         # result list containing the nodes in Depth-First order
         dfs_list = []
         # keep track of all already visited nodes
-        visited_nodes = { root: None }
+        visited_nodes = {}
 
         # stack (lifo) list
         dfs_stack = []
@@ -299,6 +299,10 @@ class Graph(object):
         while len(dfs_stack):
             # consider the next node on the stack
             node = dfs_stack.pop()
+            # it might have been visited since it was put on the stack
+            if node in visited_nodes:
+                continue
+            visited_nodes[node] = None
             dfs_list.append(node)
             # visit the node
             if visit_fct is not None:
@@ -306,7 +310,6 @@ class Graph(object):
             # add all sons to the stack (if not already visited)
             for son in neighbors_fct(node):
                 if son not in visited_nodes:
-                    visited_nodes[son] = None
                     dfs_stack.append(son)
 
         return dfs_list
-- 
2.43.0


From cb56ad8005496ee9a19f0df0ba52d58bdcb8e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 42/79] fix: cache only the classes and instances of the last
 activation

activate_caching kept the classes of a previous activation when it was only
given instances, and the other way around.
---
 mdp/caching/caching_extension.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..f41bf32 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -155,10 +155,9 @@ def activate_caching(cachedir=None,
     _cache_active_global = (cache_classes is None and cache_instances is None)
 
     # active cache for specific classes and instances
-    if cache_classes is not None:
-        _cached_classes = list(cache_classes)
-    if cache_instances is not None:
-        _cached_instances = list(cache_instances)
+    # (those of a previous activation are forgotten)
+    _cached_classes = list(cache_classes or [])
+    _cached_instances = list(cache_instances or [])
 
     activate_extension('cache_execute')
 
-- 
2.43.0


From 215e4f45243c2a8d0166937406c7cdb2ac775646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 43/79] fix: let the caching of an instance be switched off
 after activating it twice

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index f41bf32..a8c3ec7 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -99,7 +99,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         # add to global dictionary
         global _cached_instances
         if active:
-            _cached_instances.append(self)
+            if self not in _cached_instances:
+                _cached_instances.append(self)
         else:
             if self in _cached_instances:
                 _cached_instances.remove(self)
-- 
2.43.0


From 9312ba5f5933b42f2cc213f4a5c8c01212e4c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 44/79] fix: repeat the checks before caching when they failed
 the first time

The node was registered before its pre-execution checks; when these raised
they were skipped next time, and the result was stored for the wrong state.
---
 mdp/caching/caching_extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index a8c3ec7..2c7303f 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -115,12 +115,12 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
 
         if self not in _cached_methods:
             global _memory
-            _cached_methods[self] = _memory.cache(
-                self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
             # settings of things like dtype and input_dim are done, and
             # caching begins from first execution, not the second
             self._pre_execution_checks(x)
+            _cached_methods[self] = _memory.cache(
+                self._non_extension_execute.__func__)
 
         return _cached_methods[self](self, x, *args, **kwargs)
 
-- 
2.43.0


From 86f6f1eb8fbea6bacd4f52d72c36d64a72b2dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 45/79] fix: TimeDelayNode failed on data shorter than its
 largest delay

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..711dd26 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,7 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            y[gap*frame:, frame*n:(frame+1)*n] = x[:max(rows-gap*frame, 0), :]
 
         return y
 
-- 
2.43.0


From 7167a698caa3cc8b0a69d59f0ee614ea6f17591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 46/79] fix: OnlineTimeDiffNode kept the wrong samples (and the
 caller's array) when trained in batches

---
 mdp/nodes/stats_nodes_online.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..4a2d0f7 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,13 +169,15 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-        self.x_prev = self.x_cur
-        self.x_cur = x[-1:]
+        # the last two samples, also if x is a block of samples
+        x = mdp.numx.vstack((self.x_cur, x))[-2:]
+        self.x_prev = x[:1]
+        self.x_cur = x[1:]
 
     @staticmethod
     def is_invertible():
-- 
2.43.0


From 6ae1cc778a9f554e0bf65f6ec778fb0a477e36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 47/79] fix: OnlineFlow asked for the training arguments of
 nodes that are already trained

---
 mdp/linear_flows_online.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..59cd44b 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -117,7 +117,8 @@ class OnlineFlow(mdp.Flow):
                 try:
                     node = self.flow[nodenr]
                     # check if the required number of arguments was given
-                    if self._train_args_needed_list[nodenr]:
+                    # (a node that is already trained does not need any)
+                    if self._train_args_needed_list[nodenr] and node.is_training():
                         # the nodenr'th arguments tuple are passed only to the
                         # currently training node, allowing the implementation of
                         # supervised nodes
@@ -131,8 +132,7 @@ class OnlineFlow(mdp.Flow):
                                    "List of required argument keys: " +
                                    str(self._train_arg_keys_list[nodenr]))
                             raise OnlineFlowException(err)
-                        if node.is_training():
-                            node.train(x, *arg)
+                        node.train(x, *arg)
                     else:
                         if node.is_training():
                             node.train(x)
-- 
2.43.0


From ea182f13246a56615fea9e54f4d11bd231361c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 48/79] fix: OnlineFlow trained a terminal Node on the first
 data array only, failed with several training phases of it, and ended the
 training of a terminal OnlineNode with several phases

---
 mdp/linear_flows_online.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 59cd44b..5c2ae38 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -137,8 +137,10 @@ class OnlineFlow(mdp.Flow):
                         if node.is_training():
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node (executing a terminal trainable
+                    # Node would end its training with the first data array)
+                    if isinstance(node, mdp.OnlineNode) or not node.is_training():
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
@@ -165,9 +167,6 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
-            # close the previous training phase
-            self.flow[-1].stop_training()
 
     def _train_check_iterables(self, data_iterables):
         """Return the data iterable after some checks and sanitizing.
@@ -227,6 +226,10 @@ class OnlineFlow(mdp.Flow):
 
         # close training the terminal node only if it is a trainable Node
         if not isinstance(self.flow[-1], mdp.OnlineNode):
+            while self.flow[-1].is_training() and self.flow[-1].get_remaining_train_phase() > 1:
+                # close the training phase and go on with the next one
+                self.flow[-1].stop_training()
+                self._train_nodes(data_iterables)
             self._close_last_node()
 
     # private container methods
-- 
2.43.0


From ec31cb6e79094b8bbb7d6b0a128cd34bc14ee30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 49/79] fix: OnlineFlow slice assignment from a generator
 deleted the slice

---
 mdp/linear_flows_online.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 5c2ae38..0a28dff 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -258,6 +258,7 @@ class OnlineFlow(mdp.Flow):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            value = list(value)
             [self._check_value_type_is_online_or_nontrainable_node(item) for item in value]
         else:
             self._check_value_type_is_online_or_nontrainable_node(value)
-- 
2.43.0


From 3757fa98506c16575d1983f4f25f1a615daa77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 50/79] fix: a refused in-place concatenation left an
 OnlineFlow (CircularOnlineFlow) changed

---
 mdp/linear_flows_online.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 0a28dff..49a47e8 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -309,15 +309,17 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
         return self
 
@@ -624,15 +626,17 @@ class CircularOnlineFlow(OnlineFlow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From b991fa617e949c89b5dd35d00f690e18543bcc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 51/79] fix: CircularOnlineFlow could not be concatenated with
 a flow, nor a flow with it

---
 mdp/linear_flows_online.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 49a47e8..e43935f 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -285,7 +285,7 @@ class OnlineFlow(mdp.Flow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            flow_copy = list(self.flow).__add__(other.flow)
+            flow_copy = list(self.flow) + list(other.flow)
             # check OnlineFlow compatibility
             self._check_compatibility(flow_copy)
             # check dimension consistency
@@ -603,8 +603,7 @@ class CircularOnlineFlow(OnlineFlow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy = list(self.flow) + list(other.flow)
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
-- 
2.43.0


From b558945e84b17adb153089bf545fb5d6e65b450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 52/79] fix: CircularOnlineFlow.set_stored_input ignored the
 input while the input dimension was unset

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index e43935f..29a72d3 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -428,7 +428,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From 49586fc5b221697d5cc87fef9f239f257e58e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 53/79] fix: inverting a CircularOnlineFlow failed (slice of a
 deque) and left out the output node

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 29a72d3..8a1b8f2 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -543,7 +543,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
-- 
2.43.0


From bd789e801a4cc9c924a508236eabebf5e91beafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 54/79] fix: CircularOnlineFlow accepted an input or output
 node index past the last node

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 8a1b8f2..e61b2c7 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -553,7 +553,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -561,7 +561,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From 6c6dba00fa1c46b583a8a64fbdbbabf1c4ac9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 55/79] fix: CircularOnlineFlow: setting, inserting and
 deleting nodes raised errors after changing the flow, or lost the output node

---
 mdp/linear_flows_online.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index e61b2c7..506be67 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -575,12 +575,25 @@ class CircularOnlineFlow(OnlineFlow):
 
     # private container methods
 
+    @staticmethod
+    def _get_positions(key, length):
+        # the positions (in a flow with 'length' nodes) that 'key' stands for
+        if isinstance(key, slice):
+            return range(*key.indices(length))
+        key = key % length if length else 0
+        return range(key, key + 1)
+
     def __setitem__(self, key, value):
+        old_len = len(self.flow)
         super(CircularOnlineFlow, self).__setitem__(key, value)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        replaced = self._get_positions(key, old_len)
+        if self.output_node_idx in replaced:
             print('Output node is replaced! Resetting the output node.')
             self.reset_output_node()
+        elif replaced.step == 1 and self.output_node_idx >= replaced.start:
+            # nodes were inserted or deleted in front of the output node
+            self.output_node_idx += len(self.flow) - old_len
 
     def __getitem__(self, key):
         if isinstance(key, slice):
@@ -592,13 +605,14 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        deleted = self._get_positions(key, len(self.flow))
         super(CircularOnlineFlow, self).__delitem__(key)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        if self.output_node_idx in deleted:
             print('Output node deleted! Resetting the output node to the default last node.')
             self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
+        else:
+            self.output_node_idx -= len([i for i in deleted if i < self.output_node_idx])
 
     def __add__(self, other):
         # append other to self
@@ -662,6 +676,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From d76aeab3fc1f1b7a42779befdd69fe7c447278c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 56/79] fix: MultipleCovarianceMatrices.weight accepted neither
 a list nor a single value

---
 mdp/utils/covariance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..a174d34 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -496,9 +496,11 @@ class MultipleCovarianceMatrices(object):
         Argument can be a sequence or a single value. In the latter case
         the same weight is applied to all matrices."""
         # apply a weighting vector to cov matrices
-        err = ("len(weights)=%d does not match number "
-               "of matrices (%d)" % (len(weights), self.ncovs))
-        assert len(weights) == self.ncovs, err
+        weights = numx.asarray(weights)
+        if weights.ndim > 0:
+            err = ("len(weights)=%d does not match number "
+                   "of matrices (%d)" % (len(weights), self.ncovs))
+            assert len(weights) == self.ncovs, err
         self.covs *= mdp.utils.refcast(weights, self.dtype)
 
     def rotate(self, angle, indices):
-- 
2.43.0


From 9d2651a25d5f7cf6ba3b5fa3719528cadc4b8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 57/79] fix: VartimeCovarianceMatrix.fix left the last sample
 behind: the next data were joined to it

---
 mdp/utils/covariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index a174d34..b0c024d 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -335,6 +335,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # the next chunk is the first one again
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
-- 
2.43.0


From 332d17eec4defa642048ddb6ab091306963e4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 58/79] fix: VartimeCovarianceMatrix counted the time before a
 chunk of a single sample twice

---
 mdp/utils/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index b0c024d..43c8db1 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,7 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            _dt = dt[len(dt)-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
-- 
2.43.0


From 57958ac7590f004846ba05610797ef1c2790cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 59/79] fix: CrossCovarianceMatrix kept the dtype of data it
 refused

---
 mdp/utils/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 43c8db1..ea01334 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -553,11 +553,11 @@ class CrossCovarianceMatrix(CovarianceMatrix):
 
     def _init_internals(self, x, y):
         if self._dtype is None:
-            self._dtype = x.dtype
             if y.dtype != x.dtype:
                 err = 'dtype mismatch: x (%s) != y (%s)' % (x.dtype,
                                                             y.dtype)
                 raise mdp.MDPException(err)
+            self._dtype = x.dtype
         dim_x = x.shape[1]
         dim_y = y.shape[1]
         type_ = self._dtype
-- 
2.43.0


From cabf5c7b1523b95257c2b9d5eed2e35fa664ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 60/79] fix: RecursiveExpansionNode returned the wrong
 functions for degree one (legendre_rational) and a result of the wrong size
 for degree zero

---
 mdp/nodes/recursive_expansion_nodes.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..db81e27 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -586,13 +586,11 @@ class RecursiveExpansionNode(_ExpansionNode):
                     pos += 1
         # in case input is unreasonable
         elif deg == 1:
-            result[:, 0] = 1
+            # (the init function may set the second order, too)
+            first = np.empty([num_samples, 3], dtype=self.dtype)
             for i in range(num_vars):
-                result[:, i+1] = x[:, i]
-        elif self.with0:
-            return np.ones((num_samples, num_vars))
-        else:
-            return None
+                self.r_init(first, x, 1, i)
+                result[:, i+1] = first[:, 1]
 
         todoList = []
         for i in range(1, num_vars):
-- 
2.43.0


From 5cfab1b6facc8c1c205faa01b2dfa9d315bc21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 61/79] fix: executing a NormalizingRecursiveExpansionNode
 changed the input data, and the node could not be saved

---
 mdp/nodes/recursive_expansion_nodes.py | 47 +++++++++++++-------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index db81e27..8a4e5b4 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -688,7 +688,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        x = self.domain_transformation(x)
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
@@ -730,30 +730,26 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
+        # the transformation is (x - offset) * factor
+        self._offset = 0.
+        self._factor = 1.
+
         # the following conditionals go through different domain types
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._offset = self.diff
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._offset = self.diff
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -765,18 +761,23 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                pass
             elif datamaxdev < dev:
-                def f(x):
-                    x += (-datamean)+mean
-                    return x
+                self._offset = datamean-mean
             else:
-                def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
-        self.domain_transformation = f
+                self._offset = datamean-mean*datamaxdev/dev
+                self._factor = dev/datamaxdev
+
+    def domain_transformation(self, x):
+        """Transform the data to the domain of the family of functions.
+
+        :param x: The data.
+        :type x: numpy.ndarray
+
+        :return: The transformed data.
+        :rtype: numpy.ndarray
+        """
+        return (x-self._offset)*self._factor
 
     @staticmethod
     def is_trainable():
-- 
2.43.0


From fddcbbf756c8956794f6d39a7db3a4a3aa343ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 62/79] fix: RBFExpansionNode rounded the inverses of integer
 covariance matrices

---
 mdp/nodes/expansion_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/expansion_nodes.py b/mdp/nodes/expansion_nodes.py
index d492fc0..97e0719 100644
--- a/mdp/nodes/expansion_nodes.py
+++ b/mdp/nodes/expansion_nodes.py
@@ -217,6 +217,9 @@ class RBFExpansionNode(mdp.Node):
 
         # multiply sizes if necessary
         sizes = numx.array(sizes, self.dtype)
+        if not numx.issubdtype(sizes.dtype, numx.floating):
+            # the inverse of an integer matrix is not an integer matrix
+            sizes = sizes.astype('d')
         if sizes.ndim==0 or sizes.ndim==2:
             sizes = numx.array([sizes]*self._output_dim)
         else:
-- 
2.43.0


From 4945a11665fa700cb0c07879068109d96073f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 63/79] fix: RecursiveExpansionNode can be constructed with
 input_dim

---
 mdp/nodes/recursive_expansion_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 8a4e5b4..4e557f1 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -500,11 +500,12 @@ class RecursiveExpansionNode(_ExpansionNode):
             Default is None.
         :type dtype: numpy.dtype or str
         """
-        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
-
         self.degree = degree
         self.check = check
         self.with0 = with0
+
+        # setting the input dimension needs the attributes above
+        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
         # if in dictionary
         if recf in recfs:
                 # intialises the elements not based on recursion formula
-- 
2.43.0


From db9d8a41f6537c646bec94830c0dc431f6c1da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 64/79] fix: KNNClassifier keeps its own copy of the training
 data

The samples were stored as references to the caller's array, so reusing
the buffer for the next chunk changed what the classifier had learned.
---
 mdp/nodes/classifier_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..2e02e53 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -773,7 +773,8 @@ class KNNClassifier(ClassifierNode):
         """Store x set for later neirest-neighbour calculation."""
         if label not in self._label_samples:
             self._label_samples[label] = []
-        self._label_samples[label].append(x)
+        # the caller may reuse the memory of the data
+        self._label_samples[label].append(x.copy())
         
     def _check_train_args(self, x, labels):
         if isinstance(labels, (list, tuple, numx.ndarray)) and (
-- 
2.43.0


From 523892e3c6d3bbbb776d97825fe95f4776ebff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 65/79] fix: ClassifierCumulator accepts lists, tuples and
 single labels

Only arrays worked, although the code prepares a list for a single label.
---
 mdp/classifier_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..15c3981 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -123,7 +123,7 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         else:
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(numx.asarray(labels).ravel().tolist())
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
-- 
2.43.0


From a2e232db064ff4be4fb6bc087289b2605be9ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 66/79] fix: SimpleMarkovClassifier takes a single string label
 as one label

A string was iterated over, giving the first rows its characters as labels.
---
 mdp/nodes/classifier_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 2e02e53..4e0a1c2 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -180,6 +180,8 @@ class SimpleMarkovClassifier(ClassifierNode):
             the same class.
         """
         # if labels is a number, all x's belong to the same class
+        if not isinstance(labels, (list, tuple, numx.ndarray)):
+            labels = [labels] * len(x)
         for xi, labeli in mdp.utils.izip_stretched(x, labels):
             self._learn(xi, labeli)
 
-- 
2.43.0


From d28ce3f82011f6e1dcaf71f2ded6d8d4bf0eeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 67/79] fix: GaussianClassifier refuses classes without a
 usable covariance

A class with one sample gave nan probabilities for every class instead of
the error for a singular covariance matrix.
---
 mdp/nodes/classifier_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 4e0a1c2..6c76e4b 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -536,7 +536,8 @@ class GaussianClassifier(ClassifierNode):
             cov, mean, p = self._cov_objs[lbl].fix()
             nitems += p
             self._sqrt_def_covs.append(numx.sqrt(numx_linalg.det(cov)))
-            if self._sqrt_def_covs[-1] == 0.0:
+            # a class with a single sample has no covariance at all (nan)
+            if not self._sqrt_def_covs[-1] > 0.0:
                 err = ("The covariance matrix is singular for at least "
                        "one class.")
                 raise mdp.NodeException(err)
-- 
2.43.0


From ced121006b43ddb323f0ac6260a9bb901dcac404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 68/79] fix: KMeansClassifier keeps its centroids when max_iter
 is reached

They were only stored on convergence, otherwise the trained node failed.
---
 mdp/nodes/classifier_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 6c76e4b..e312a15 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -437,6 +437,7 @@ class KMeansClassifier(ClassifierNode):
                 self._centroids = centroids
                 return
             centroids = new_centroids
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From a5740cc5b68ade6bb1ebd00a4caed468fd233e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 69/79] fix: joining a fork without data leaves a parallel node
 unchanged

Joining the empty covariance matrix raised a TypeError.
---
 mdp/parallel/parallelnodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..a6ff562 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -169,6 +169,9 @@ class ParallelExtensionNode(mdp.ExtensionNode, mdp.Node):
         cov -- Instance of CovarianceMatrix, to which the forked_cov instance
             is aded in-place.
         """
+        if forked_cov._cov_mtx is None:
+            # the fork has not seen any data
+            return
         cov._cov_mtx += forked_cov._cov_mtx
         cov._avg += forked_cov._avg
         cov._tlen += forked_cov._tlen
-- 
2.43.0


From 3f912dd2861bcd2e265fe230f702a3cb5f49cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 70/79] fix: ParallelPCANode takes the dtype of the joined
 covariance matrix

It used its own empty one, which has none.
---
 mdp/parallel/parallelnodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index a6ff562..80fd126 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -188,7 +188,7 @@ class ParallelPCANode(ParallelExtensionNode, mdp.nodes.PCANode):
     def _join(self, forked_node):
         """Combine the covariance matrices."""
         if self._cov_mtx._cov_mtx is None:
-            self.set_dtype(self._cov_mtx._dtype)
+            self.set_dtype(forked_node._cov_mtx._dtype)
             self._cov_mtx = forked_node._cov_mtx
         else:
             self._join_covariance(self._cov_mtx, forked_node._cov_mtx)
-- 
2.43.0


From 735466d3886d5406d56bb34efa4c7e22bc389ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 71/79] fix: ParallelFDANode forks of the second phase start
 without data

The fork of a node that had already seen data counted as trained, and a
fork that had seen none could not be joined.
---
 mdp/parallel/parallelnodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index 80fd126..35c7804 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -218,6 +218,7 @@ class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
             forked_node = self.copy()
             # reset the variables that might contain data from this train phase
             forked_node._S_W = None
+            forked_node._train_phase_started = False
             forked_node._allcov = mdp.utils.CovarianceMatrix(dtype=self.dtype)
         else:
             forked_node = self._default_fork()
@@ -229,7 +230,10 @@ class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
                 msg = ("This node is in training phase 1, but the forked node "
                        "is not.")
                 raise NotForkableParallelException(msg)
-            if self._S_W is None:
+            if forked_node._S_W is None:
+                # the fork has not seen any data
+                pass
+            elif self._S_W is None:
                 self.set_dtype(forked_node._allcov._dtype)
                 self._allcov = forked_node._allcov
                 self._S_W = forked_node._S_W
-- 
2.43.0


From f4e6a8167f54f6b34bd8a71c2e9e504ccbad4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 72/79] fix: cumulator nodes keep their own copy of the
 training data

The chunks were stored as references to the caller's arrays, so reusing a
buffer for the next chunk changed what the node had seen.
---
 mdp/signal_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..c9f598d 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -775,7 +775,8 @@ def VariadicCumulator(*fields):
             """Collect all input data in a list."""
             self.tlen += args[0].shape[0]
             for field, data in zip(self._cumulator_fields, args):
-                getattr(self, field).append(data)
+                # the caller may reuse the memory of the data
+                getattr(self, field).append(numx.array(data))
 
         def _stop_training(self, *args, **kwargs):
             """Concatenate the collected data in a single array."""
-- 
2.43.0


From 6a651c11bab9abd6836f35d0ada2499bda7b2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 73/79] fix: HistogramNode keeps its own copy of the first
 training chunk

The history held a reference to the caller's array.
---
 mdp/nodes/misc_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 711dd26..f8a11b5 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -900,7 +900,8 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            # the caller may reuse the memory of the data
+            self.data_hist = x.copy()
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
-- 
2.43.0


From 87062586b603ece0c338d36562754d28facdbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 74/79] fix: AdaptiveCutoffNode cuts off the upper fraction it
 was asked for

When the fraction of the samples is a whole number one sample too few was
cut off (none at all for one sample), other than at the lower end.
---
 mdp/nodes/misc_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index f8a11b5..af6bd60 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -990,9 +990,8 @@ class AdaptiveCutoffNode(HistogramNode):
                 index = self.lower_cutoff_fraction * len(sorted_data)
                 self.lower_bounds = sorted_data[int(index)]
             if self.upper_cutoff_fraction:
-                index = (len(sorted_data) -
-                         self.upper_cutoff_fraction * len(sorted_data))
-                self.upper_bounds = sorted_data[int(index)]
+                index = self.upper_cutoff_fraction * len(sorted_data)
+                self.upper_bounds = sorted_data[-1 - int(index)]
         super(AdaptiveCutoffNode, self)._stop_training()
 
     def _execute(self, x):
-- 
2.43.0


From f70932bf5c09c79e9ec3b5d1fce70473afe19643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 75/79] fix: nodes can be saved to a file with protocol 0

The file was opened in text mode, which does not take bytes.
---
 mdp/signal_node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index c9f598d..40210a3 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,9 +721,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            # pickles are bytes with any protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 901167ba203ae16c54714321b4941ce17c12572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 76/79] fix: flows can be saved to a file with protocol 0

The file was opened in text mode, which does not take bytes.
---
 mdp/linear_flows.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 118acce..b3d81d6 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,9 +438,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickles are bytes with any protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
-- 
2.43.0


From 6e81fd7bd8f7e7d4d0997853ef9c569dc61bc564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 77/79] fix: NoiseNode can be saved to a file with protocol 0

The file was opened in text mode, which does not take bytes.
---
 mdp/nodes/misc_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index af6bd60..aa50eb0 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickles are bytes with any protocol
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 8f62803d6ae665179fbbc2c22cae79afa87e1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 78/79] fix: trained HitParadeNodes can be pickled

Their hit parades claim to be mdp.nodes.OneDimensionalHitParade, a name
that did not exist, so neither save nor parallel processing worked.
---
 mdp/nodes/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..b63cc93 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -32,7 +32,9 @@ from .recursive_expansion_nodes import (RecursiveExpansionNode,
                                         NormalizingRecursiveExpansionNode)
 
 # import internals for use in test_suites
-from .misc_nodes import OneDimensionalHitParade as _OneDimensionalHitParade
+# pickle looks the class up under its own name
+from .misc_nodes import OneDimensionalHitParade
+_OneDimensionalHitParade = OneDimensionalHitParade
 from .expansion_nodes import expanded_dim as _expanded_dim
 
 from .mca_nodes_online import MCANode
-- 
2.43.0


From 2c82abad498bfb5e06b836b6ea4be65b36606c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 79/79] fix: ParallelLayer forks and joins the nodes that
 require it during execution

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0

