From 8de4a3ba2b85a14c59a85aacf8a30a2147eff7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 01/81] fix: resume an interrupted state only when no
 overlapping breakdown is active

---
 prodsys/simulation/state.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..aaee68b 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -251,6 +251,17 @@ class State(ABC, BaseModel):
         except:
             raise RuntimeError(f"state {self.state_data.ID} is allready succeded!!")
 
+    def wait_until_active(self) -> Generator:
+        """
+        Waits until the state and its resource are both active. If another breakdown starts while waiting, the wait continues until this breakdown is over, too.
+
+        Yields:
+            Generator: The generator yields when the state and its resource are active.
+        """
+        yield events.AllOf(self.env, [self.active, self.resource.active])
+        while not (self.active.triggered and self.resource.active.triggered):
+            yield events.AllOf(self.env, [self.active, self.resource.active])
+
     @abstractmethod
     def process_state(self) -> Generator:
         """
@@ -318,10 +329,10 @@ class ProductionState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -334,7 +345,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -430,10 +441,10 @@ class TransportState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -446,7 +457,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -629,10 +640,10 @@ class SetupState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 running_processes = [
                     state.process
                     for state in self.resource.production_states
@@ -652,7 +663,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -729,10 +740,10 @@ class ChargingState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -745,7 +756,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 88cfffce3afdade8860bf312d20feb21df71e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 02/81] fix: look up processes by equal ID, not by substring

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From b736b83345572baecb1337fc1e2218c9e6a2cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 03/81] fix: keep the order of precedence edges independent of
 the hash seed

---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..1e96be7 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -135,7 +135,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From ef2d02526f391b55a5d34fc700fe04007522f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 04/81] fix: honour precedence edges to processes that have no
 entry of their own

---
 prodsys/factories/product_factory.py | 4 ++--
 prodsys/simulation/proces_models.py  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodsys/factories/product_factory.py b/prodsys/factories/product_factory.py
index 66bee8b..620a803 100644
--- a/prodsys/factories/product_factory.py
+++ b/prodsys/factories/product_factory.py
@@ -84,8 +84,8 @@ class ProductFactory:
         id_predecessor_adjacency_matrix = (
             proces_models.get_predecessors_adjacency_matrix(id_adjacency_matrix)
         )
-        for key in id_adjacency_matrix.keys():
-            sucessor_ids = id_adjacency_matrix[key]
+        for key in id_predecessor_adjacency_matrix.keys():
+            sucessor_ids = id_adjacency_matrix.get(key, [])
             predecessor_ids = id_predecessor_adjacency_matrix[key]
             process = self.process_factory.get_process(key)
             successors = [
diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index 1e96be7..b6c2bac 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -118,7 +118,8 @@ def get_predecessors_adjacency_matrix(
         Dict[str, List[str]]: Predecessor adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the predecessing processes.
     """
     predecessors_adjacency_matrix = {}
-    for process_id in adjacency_matrix.keys():
+    process_ids = dict.fromkeys([*adjacency_matrix.keys(), *flatten(list(adjacency_matrix.values()))])
+    for process_id in process_ids:
         predecessors_adjacency_matrix[process_id] = get_predecessor_processes(
             process_id, adjacency_matrix
         )
-- 
2.43.0


From 7d865f901375e5ebaf36138af644a3c54a0390c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 05/81] fix: accept the euclidian metric that the distance time
 model data defines

---
 prodsys/simulation/time_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..20460c3 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -233,7 +233,7 @@ class DistanceTimeModel(TimeModel):
         Returns:
             float: The distance between the two points.
         """
-        if self.time_model_data.metric == "euclidean":
+        if self.time_model_data.metric in ("euclidian", "euclidean"):
             return np.linalg.norm(np.array(origin) - np.array(target))
         elif self.time_model_data.metric == "manhattan":
             return np.sum(np.abs(np.array(origin) - np.array(target)))
-- 
2.43.0


From ae341e66ee71e670b7af3fe9a0e2dfb1a96fc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 06/81] fix: nearest origin policies use the location of the
 transport resource

---
 prodsys/simulation/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..2d7ff79 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -993,7 +993,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1009,7 +1009,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
-- 
2.43.0


From 74ffacb2421d498ab2c1fee112603555a730502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 07/81] fix: LIFO policy serves the latest request on every
 call

---
 prodsys/simulation/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 2d7ff79..8503d0b 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -945,12 +945,13 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Sort the requests according to the LIFO principle (latest request first). The other requests keep their order of arrival.
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    if requests:
+        requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From 445f79166ac8cc9c2078b6ef15f51593e2eda564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 08/81] fix: draw one repair time per process breakdown

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index aaee68b..b8d2607 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -580,7 +580,7 @@ class ProcessBreakDownState(State):
             yield events.AllOf(
                 self.env, [state.active for state in self.production_states]
             )
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
+            debug_logging(self, f"interrupted states")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 76964e9401085a96b27ccf1831eb3202c529c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 09/81] fix: collect all processes that compound processes
 contain

---
 prodsys/adapters/adapter.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..75721aa 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1108,12 +1108,10 @@ def get_contained_production_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_production_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_production_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_capability_processes_from_compound_processes(
@@ -1122,12 +1120,10 @@ def get_contained_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_transport_processes_from_compound_processes(
@@ -1136,12 +1132,10 @@ def get_contained_transport_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_transport_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_transport_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 
@@ -1151,11 +1145,10 @@ def get_contained_required_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            process = processes[0]
-            processes.append(process)
+            processes += contained_processes
     return processes
 
 
-- 
2.43.0


From d8ac2961e2d38050b7e54eee01c1de3d30d73349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 10/81] fix: a batch takes all its requests and products and
 waits for enough free processes

---
 prodsys/simulation/control.py | 50 +++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 8503d0b..8b3c78b 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -358,35 +358,54 @@ class BatchController(Controller):
         else:
             raise ValueError("Resource is not a ProductionResource")
 
+    def get_batch_requests(self, batch_size: int) -> List[request_module.Request]:
+        """
+        Get the requests of the next batch, i.e. the first requests in the list of requests that ask for the same process with the same product type and that fill a batch.
+
+        Args:
+            batch_size (int): The batch size of the resource.
+
+        Returns:
+            List[request_module.Request]: The requests of the next batch. Empty if no batch can be filled.
+        """
+        batches = {}
+        for process_request in self.requests:
+            batch_key = (
+                process_request.get_process().process_data.ID,
+                process_request.get_product().product_data.product_type,
+            )
+            batch_requests = batches.setdefault(batch_key, [])
+            batch_requests.append(process_request)
+            if len(batch_requests) == batch_size:
+                return batch_requests
+        return []
+
     def get_next_product_for_process(
-        self, resource: resources.Resource, process_request: request_module.Request
+        self, resource: resources.Resource, batch_requests: List[request_module.Request]
     ) -> List[events.Event]:
         """
         Get the next batch of products for a process. The products are removed (get) from the input queues of the resource.
 
         Args:
             resource (resources.Resource): The resource to take the products from.
-            process_request (request_module.Request): The request that is requesting the products.
+            batch_requests (List[request_module.Request]): The requests of the products of the batch.
 
         Returns:
             List[events.Event]: The events that are triggered when the products are taken from the queue.
         """
         events = []
         if isinstance(resource, resources.ProductionResource):
-            batch_size = self.get_batch_size(resource)
             internal_input_queues = [
                 queue
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
-            for queue in internal_input_queues:
-                while len(events) < batch_size:
-                    event = queue.get(
-                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
-                    )
-                    if not event:
+            for process_request in batch_requests:
+                product_data = process_request.get_product().product_data
+                for queue in internal_input_queues:
+                    if product_data in queue.items:
+                        events.append(queue.get(filter=lambda item, product_data=product_data: item is product_data))
                         break
-                    events.append(event)
             if not events:
                 raise ValueError("No products available in the queue to fulfill the batch size requirement")
             return events
@@ -440,9 +459,10 @@ class BatchController(Controller):
             Generator: The generator yields lists of free states.
         """
         possible_states = resource.get_processes(process)
+        batch_size = self.get_batch_size(resource)
         while True:
             free_states = resource.get_free_processes(process)
-            if free_states:
+            if len(free_states) >= batch_size:
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
@@ -481,7 +501,7 @@ class BatchController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
+            if self.resource.full or not self.get_batch_requests(batch_size):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
@@ -508,7 +528,9 @@ class BatchController(Controller):
         batch_size = self.get_batch_size(self.resource)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
         yield self.env.timeout(0)
-        process_request = self.requests.pop(0)
+        batch_requests = self.get_batch_requests(batch_size)
+        process_request = batch_requests[0]
+        self.requests[:] = [request for request in self.requests if request not in batch_requests]
         self.reserved_requests_count -= 1
         resource = process_request.get_resource()
         process = process_request.get_process()
@@ -520,7 +542,7 @@ class BatchController(Controller):
         yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
-            product_retrieval_events = self.get_next_product_for_process(resource, process_request)
+            product_retrieval_events = self.get_next_product_for_process(resource, batch_requests)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve products for batch from queue"})
             product_data_list = yield events.AllOf(resource.env, product_retrieval_events)
 
-- 
2.43.0


From e22b0c3b474edaa629ba8415eef29720077fbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 11/81] fix: a vehicle drives to the first node of the link
 graph instead of skipping it

---
 prodsys/simulation/route_finder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..e0b63ce 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -77,7 +77,8 @@ class RouteFinder:
             return []
         route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=process.links)
         from prodsys.simulation.resources import TransportResource
-        if isinstance(origin, TransportResource):
+        if isinstance(origin, TransportResource) and len(route) > 1 and route[1].get_location() == origin.get_location():
+            # the transport resource already stands at the first node of the link graph
             route = route[1:]
         return route
 
-- 
2.43.0


From 277315a2b673eb1035d4f7716411c0e70e9dad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 12/81] fix: count an interrupted process as not running in the
 resource utilisation

---
 prodsys/util/post_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..80b9a35 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -457,7 +457,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -542,7 +542,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -673,7 +673,7 @@ class PostProcessor:
         )
         negative_condition = (
             (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
+            & (df["Activity"].isin(["end state", "start interrupt"]))
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
-- 
2.43.0


From 882d1a6933c9ef045cfb5dce81d6fc61658388db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 13/81] fix: compute the dynamic throughput time and WIP KPIs

---
 prodsys/util/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 80b9a35..ce9841f 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -320,7 +320,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
@@ -1161,7 +1161,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From d417024f05f87d32b8cf4997a140edc15ee2b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 14/81] fix: refer to the state module when collecting the time
 models of states

---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..d6400d1 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [s.time_model for s in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -138,7 +138,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_model_data = [time_model.to_model() for time_model in time_models]
         process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        state_data = [s.to_model() for s in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 058be5dc8877c18ce68ff48cbae50ea4ce4de0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 15/81] fix: reject states with unknown repair or battery time
 models

---
 prodsys/adapters/adapter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 75721aa..b9f8ef2 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -721,6 +721,14 @@ class ProductionSystemAdapter(ABC, BaseModel):
                 raise ValueError(
                     f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
                 )
+            for time_model_id in [
+                getattr(state, "repair_time_model_id", None),
+                getattr(state, "battery_time_model_id", None),
+            ]:
+                if time_model_id is not None and time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of state {state.ID} is not a valid time model of {time_models}."
+                    )
         return states
 
     @field_validator("process_data")
-- 
2.43.0


From 25c0dc8167a4d5aed31f4bbea288ca94d2a5ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 16/81] fix: reject processes with unknown loading, unloading
 or reworked references

---
 prodsys/adapters/adapter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index b9f8ef2..60f9251 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -742,6 +742,21 @@ class ProductionSystemAdapter(ABC, BaseModel):
                 raise ValueError(
                     f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
                 )
+            for time_model_id in [
+                getattr(process, "loading_time_model_id", None),
+                getattr(process, "unloading_time_model_id", None),
+            ]:
+                if time_model_id and time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of process {process.ID} is not a valid time model of {time_models}."
+                    )
+            if isinstance(process, processes_data_module.ReworkProcessData):
+                process_ids = get_set_of_IDs(processes)
+                for process_id in process.reworked_process_ids:
+                    if process_id not in process_ids:
+                        raise ValueError(
+                            f"The reworked process {process_id} of process {process.ID} is not a valid process of {process_ids}."
+                        )
         return processes
 
     @field_validator("resource_data")
-- 
2.43.0


From 87f34671f33d4291c4646b42cea0d7d4fe68c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 17/81] fix: report an unknown transport process of a product
 as a validation error

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 60f9251..df79be8 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -797,7 +797,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for product in products:
             all_processes = get_set_of_IDs(values["process_data"])
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
-- 
2.43.0


From d0f58bdef99047a8c32421c7e5ef979cb60543f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 18/81] fix: check the successors in the adjacency matrix of a
 product

---
 prodsys/adapters/adapter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index df79be8..099833f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -810,7 +810,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ):
                 required_processes = set(util.flatten(product.processes))
             elif isinstance(product.processes, dict):
-                required_processes = set(product.processes.keys())
+                required_processes = set(product.processes.keys()) | set(
+                    util.flatten(product.processes.values())
+                )
             if required_processes - all_processes != set():
                 raise ValueError(
                     f"The processes {required_processes - all_processes} of product {product.ID} are not a valid processes of {all_processes}."
@@ -1235,7 +1237,7 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     """
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
-    required_dict_processes = util.flatten([list(product.processes.keys()) for product in configuration.product_data if isinstance(product.processes, dict)])
+    required_dict_processes = util.flatten([[list(product.processes.keys()), list(product.processes.values())] for product in configuration.product_data if isinstance(product.processes, dict)])
     required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
-- 
2.43.0


From 9e7ee758c855b239f0549ab85d3f7b3641cd6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 19/81] fix: validate the processes of states and the
 references of auxiliaries

---
 prodsys/adapters/adapter.py | 66 +++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 099833f..2035815 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -927,10 +927,14 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ValueError: If multiple objects are positioned at the same location.
             ValueError: If not all required process are available.
             ValueError: If not all links are available for LinkTransportProcesses.
+            ValueError: If states refer to processes that are not available.
+            ValueError: If auxiliaries or their queues and processes are not available.
         """
         assert_no_redudant_locations(self)
         assert_required_processes_in_resources_available(self)
         assert_all_links_available(self)
+        assert_state_processes_available(self)
+        assert_auxiliaries_available(self)
 
 
 def remove_duplicate_locations(input_list: List[List[float]]) -> List[List[float]]:
@@ -1019,6 +1023,68 @@ def assert_all_links_available(adapter: ProductionSystemAdapter):
                 )
 
 
+def assert_state_processes_available(adapter: ProductionSystemAdapter):
+    """
+    Asserts that all processes that are specified by setup states and process breakdown states exist.
+
+    Args:
+        adapter (ProductionSystemAdapter): Production system configuration
+
+    Raises:
+        ValueError: If a process of a state does not exist.
+    """
+    process_ids = get_set_of_IDs(adapter.process_data)
+    for state in adapter.state_data:
+        if isinstance(state, state_data_module.SetupStateData):
+            state_process_ids = [state.origin_setup, state.target_setup]
+        elif isinstance(state, state_data_module.ProcessBreakDownStateData):
+            state_process_ids = [state.process_id]
+        else:
+            continue
+        for process_id in state_process_ids:
+            if process_id not in process_ids:
+                raise ValueError(
+                    f"The process {process_id} of state {state.ID} is not a valid process of {process_ids}."
+                )
+
+
+def assert_auxiliaries_available(adapter: ProductionSystemAdapter):
+    """
+    Asserts that the auxiliaries required by products exist and that the queues and processes of auxiliaries exist.
+
+    Args:
+        adapter (ProductionSystemAdapter): Production system configuration
+
+    Raises:
+        ValueError: If an auxiliary of a product or a queue or process of an auxiliary does not exist.
+    """
+    auxiliary_data = adapter.auxiliary_data or []
+    auxiliary_ids = get_set_of_IDs(auxiliary_data)
+    for product in adapter.product_data:
+        for auxiliary_id in product.auxiliaries or []:
+            if auxiliary_id not in auxiliary_ids:
+                raise ValueError(
+                    f"The auxiliary {auxiliary_id} of product {product.ID} is not a valid auxiliary of {auxiliary_ids}."
+                )
+    process_ids = get_set_of_IDs(adapter.process_data)
+    queue_ids = get_set_of_IDs(adapter.queue_data)
+    for auxiliary in auxiliary_data:
+        for process_id in [
+            auxiliary.transport_process,
+            *auxiliary.relevant_processes,
+            *auxiliary.relevant_transport_processes,
+        ]:
+            if process_id not in process_ids:
+                raise ValueError(
+                    f"The process {process_id} of auxiliary {auxiliary.ID} is not a valid process of {process_ids}."
+                )
+        for queue_id in auxiliary.storages:
+            if queue_id not in queue_ids:
+                raise ValueError(
+                    f"The storage {queue_id} of auxiliary {auxiliary.ID} is not a valid queue of {queue_ids}."
+                )
+
+
 def check_for_clean_compound_processes(
         adapter_object: ProductionSystemAdapter,
 ) -> bool:
-- 
2.43.0


From 84ea55362a69d3c54a2fc6a5135f42b1277edb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 20/81] fix: report faulty data as a validation error instead
 of a KeyError

---
 prodsys/adapters/adapter.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 2035815..5103ec7 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from abc import ABC, abstractmethod
 from hashlib import md5
-from typing import List, Any, Set, Optional, Tuple, Union
+from typing import Dict, List, Any, Set, Optional, Tuple, Union
 from pydantic import BaseModel, ConfigDict, field_validator, ValidationError, ValidationInfo
 
 import logging
@@ -72,6 +72,22 @@ def get_set_of_IDs(list_of_objects: List[Any]) -> Set[str]:
     return set([obj.ID for obj in list_of_objects])
 
 
+def assert_data_available(values: Dict[str, Any], *fields: str):
+    """
+    Asserts that the fields that a validator depends on have been validated successfully.
+
+    Args:
+        values (Dict[str, Any]): Values of the fields that are already validated.
+        fields (str): Names of the fields that the validator depends on.
+
+    Raises:
+        ValueError: If a field is missing or faulty.
+    """
+    for field in fields:
+        if field not in values:
+            raise ValueError(f"The field {field} is missing or faulty.")
+
+
 def get_default_queues_for_resource(
     resource: resource_data_module.ProductionResourceData,
     queue_capacity: Union[float, int] = 0.0,
@@ -715,6 +731,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("state_data")
     def check_states(cls, states: List[state_data_module.STATE_DATA_UNION], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "time_model_data")
         for state in states:
             time_models = get_set_of_IDs(values["time_model_data"])
             if state.time_model_id not in time_models:
@@ -734,6 +751,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("process_data")
     def check_processes(cls, processes: List[processes_data_module.PROCESS_DATA_UNION], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "time_model_data")
         for process in processes:
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
@@ -762,6 +780,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("resource_data")
     def check_resources(cls, resources: List[resource_data_module.RESOURCE_DATA_UNION], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "process_data", "state_data", "queue_data")
         for resource in resources:
             processes = get_set_of_IDs(values["process_data"])
             for process in resource.process_ids:
@@ -794,6 +813,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("product_data")
     def check_products(cls, products: List[product_data_module.ProductData], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "process_data")
         for product in products:
             all_processes = get_set_of_IDs(values["process_data"])
             if product.transport_process not in all_processes:
@@ -823,6 +843,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("sink_data")
     def check_sinks(cls, sinks: List[sink_data_module.SinkData], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "queue_data")
         for sink in sinks:
             try:
                 products = get_set_of_IDs(values["product_data"])
@@ -855,6 +876,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     @field_validator("source_data")
     def check_sources(cls, sources: List[source_data_module.SourceData], info: ValidationInfo):
         values = info.data
+        assert_data_available(values, "time_model_data", "queue_data")
         for source in sources:
             time_models = get_set_of_IDs(values["time_model_data"])
             if source.time_model_id not in time_models:
-- 
2.43.0


From 65625a47e178c324c720002e4630caebec40450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 21/81] fix: reject configurations whose products have no sink

---
 prodsys/adapters/adapter.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 5103ec7..c6af232 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -949,12 +949,14 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ValueError: If multiple objects are positioned at the same location.
             ValueError: If not all required process are available.
             ValueError: If not all links are available for LinkTransportProcesses.
+            ValueError: If the products of a source have no sink.
             ValueError: If states refer to processes that are not available.
             ValueError: If auxiliaries or their queues and processes are not available.
         """
         assert_no_redudant_locations(self)
         assert_required_processes_in_resources_available(self)
         assert_all_links_available(self)
+        assert_sinks_available(self)
         assert_state_processes_available(self)
         assert_auxiliaries_available(self)
 
@@ -1045,6 +1047,24 @@ def assert_all_links_available(adapter: ProductionSystemAdapter):
                 )
 
 
+def assert_sinks_available(adapter: ProductionSystemAdapter):
+    """
+    Asserts that the products of all sources have a sink to leave the system.
+
+    Args:
+        adapter (ProductionSystemAdapter): Production system configuration
+
+    Raises:
+        ValueError: If there is no sink for the products of a source.
+    """
+    sink_product_types = set([sink.product_type for sink in adapter.sink_data])
+    for source in adapter.source_data:
+        if source.product_type not in sink_product_types:
+            raise ValueError(
+                f"There is no sink for the product type {source.product_type} of source {source.ID}."
+            )
+
+
 def assert_state_processes_available(adapter: ProductionSystemAdapter):
     """
     Asserts that all processes that are specified by setup states and process breakdown states exist.
-- 
2.43.0


From 1cc664a721e0ebfe7fcbca36ad2a37a7bb99fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 22/81] fix: consider the input locations of sinks when
 checking for redundant locations

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index c6af232..1c555c8 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -997,7 +997,7 @@ def assert_no_redudant_locations(adapter: ProductionSystemAdapter):
     for sink in adapter.sink_data:
         sink_locations += get_location_of_locatable(sink)
     sink_locations = remove_duplicate_locations(
-        [sink.location for sink in adapter.sink_data]
+        sink_locations
     )
     store_locations = []
     for store in adapter.queue_data:
-- 
2.43.0


From 0b29be9960223c386edb083a6ba156a5b97eb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 23/81] fix: accept a machine with its input and output at one
 location

---
 prodsys/adapters/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 1c555c8..2f429b5 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -967,9 +967,9 @@ def remove_duplicate_locations(input_list: List[List[float]]) -> List[List[float
 
 def get_location_of_locatable(locatable: Union[resource_data_module.ProductionResourceData, source_data_module.SourceData, sink_data_module.SinkData, queue_data.StoreData]) -> List[List[float]]:
     locations = [locatable.location]
-    if hasattr(locatable, "input_location") and locatable.input_location != locatable.location:
+    if hasattr(locatable, "input_location") and locatable.input_location not in locations:
         locations.append(locatable.input_location)
-    if hasattr(locatable, "output_location") and locatable.output_location != locatable.location:
+    if hasattr(locatable, "output_location") and locatable.output_location not in locations:
         locations.append(locatable.output_location)
     return locations
 
-- 
2.43.0


From a4f03140a87c12e468b11903234c04cf4151dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 24/81] fix: keep the locations of stores when a configuration
 is serialised

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 2f429b5..e85996a 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -309,7 +309,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From 2cff82859c974dddda8e471868509d595921ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 25/81] fix: hash link transport processes without a capability

---
 prodsys/models/processes_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..7c6a005 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -476,7 +476,7 @@ class LinkTransportProcessData(TransportProcessData):
 
         sorted_links = sorted(["-".join(link) for link in self.links])
 
-        input_data = base_class_hash + "".join(sorted_links) + self.capability
+        input_data = base_class_hash + "".join(sorted_links) + (self.capability or "")
 
         return md5(input_data.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From cdb9c7baf023bf5f3a7c1a2e35bd46f03906f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 26/81] fix: keep a process down until all breakdowns that
 affect it are repaired

---
 prodsys/simulation/state.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index b8d2607..7471b1e 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -217,6 +217,7 @@ class State(ABC, BaseModel):
     resource: resources.Resource = Field(init=False, default=None)
     process: Optional[events.Process] = Field(default=None)
     state_info: StateInfo = Field(None)
+    number_of_deactivations: int = Field(default=0, init=False)
 
     model_config=ConfigDict(arbitrary_types_allowed=True)
 
@@ -235,17 +236,22 @@ class State(ABC, BaseModel):
 
     def deactivate(self):
         """
-        Deactivates the state by setting the active event to a new event which is not yet triggered.
+        Deactivates the state by setting the active event to a new event which is not yet triggered. If the state is already deactivated, it stays deactivated until it is activated as often as it was deactivated.
         """
-        self.active = events.Event(self.env)
+        self.number_of_deactivations += 1
+        if self.active.triggered:
+            self.active = events.Event(self.env)
 
     def activate(self):
         """
-        Activates the state by triggering the active event.
+        Activates the state by triggering the active event, unless another deactivation of the state is still in place.
 
         Raises:
             RuntimeError: If the state is allready active.
         """
+        self.number_of_deactivations -= 1
+        if self.number_of_deactivations > 0:
+            return
         try:
             self.active.succeed()
         except:
-- 
2.43.0


From 04695d1b4e0b00dcb51c956690136432ae45e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 27/81] fix: match the capability and link transport processes
 that compound processes contain

---
 prodsys/simulation/process.py | 10 ++++++----
 prodsys/simulation/product.py |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index d998689..2728b40 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -92,9 +92,9 @@ class CapabilityProcess(Process):
             return False
         if isinstance(requested_process, CompoundProcess):
             return self.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in requested_process.contained_processes_data
-                if isinstance(p, CapabilityProcess)
+                if isinstance(p, (processes_data.CapabilityProcessData, processes_data.RequiredCapabilityProcessData))
             ]
         return requested_process.process_data.capability == self.process_data.capability
 
@@ -271,12 +271,14 @@ class LinkTransportProcess(TransportProcess):
         if isinstance(requested_process, CompoundProcess):
             possible_processes = []
             for process_data_instance in requested_process.contained_processes_data:
-                if is_process_with_capability(process_data_instance) and self.process_data.capability and self.process_data.capability == process_data_instance.capability:
+                if self.process_data.capability and self.process_data.capability == getattr(process_data_instance, "capability", None):
                     possible_processes.append(process_data_instance)
-                if isinstance(process_data_instance, LinkTransportProcess) and process_data_instance.ID == self.process_data.ID:
+                if process_data_instance.ID == self.process_data.ID:
                     possible_processes.append(process_data_instance)
             if not possible_processes:
                 return False
+            elif hasattr(request, "auxiliary"):
+                return True
 
         if is_process_with_capability(requested_process):
             if not requested_process.process_data.capability == self.process_data.capability:
diff --git a/prodsys/simulation/product.py b/prodsys/simulation/product.py
index 27f136b..39e4093 100644
--- a/prodsys/simulation/product.py
+++ b/prodsys/simulation/product.py
@@ -161,6 +161,7 @@ class Product(BaseModel):
         process.TransportProcess,
         process.RequiredCapabilityProcess,
         process.LinkTransportProcess,
+        process.CompoundProcess,
     ]
     product_router: router.Router
 
-- 
2.43.0


From 33bdf3a7e857b50f2d400e9e87ee1cafd0c94b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 28/81] fix: do not lead vehicles to other vehicles on their
 first drive on a link network

---
 prodsys/simulation/route_finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index e0b63ce..48c22b9 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -107,6 +107,8 @@ class RouteFinder:
             closest_locatable = None
             for link in links:
                 for locatable in link:
+                    if isinstance(locatable, TransportResource):
+                        continue
                     if closest_locatable is None:
                         closest_locatable = locatable
                     if self.calculate_cost(origin_location, locatable.get_location()) < self.calculate_cost(origin_location, closest_locatable.get_location()):
-- 
2.43.0


From b049be115e3ebb356f85c3cec5ad5366937c7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 29/81] fix: a batch with a common process time of zero does
 not draw new times

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7471b1e..3e99630 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -327,7 +327,7 @@ class ProductionState(State):
         self.active = events.Event(self.env).succeed()
 
     def process_state(self, time: Optional[float] = None) -> Generator:
-        if not time:
+        if time is None:
             time = self.time_model.get_next_time()
         self.done_in = time
         self.resource.consider_battery_usage(self.done_in)
-- 
2.43.0


From 478549a1ff015d8880469da1129ccec3656981ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 30/81] fix: count the products of all running batches towards
 the capacity of a machine

---
 prodsys/simulation/control.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 8b3c78b..1cd4fc6 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -474,6 +474,22 @@ class BatchController(Controller):
                 ],
             )
 
+    def get_running_production(self, resource: resources.Resource) -> List[events.Event]:
+        """
+        Get the running production processes of a resource.
+
+        Args:
+            resource (resources.Resource): The resource.
+
+        Returns:
+            List[events.Event]: The running processes of the production states of the resource.
+        """
+        return [
+            production_state.process
+            for production_state in resource.production_states
+            if production_state.process is not None and production_state.process.is_alive
+        ]
+
     def control_loop(self) -> Generator:
         """
         The control loop is the main process of the controller. It has to run indefinetely.
@@ -552,6 +568,14 @@ class BatchController(Controller):
 
             for simulation_product in products:
                 production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            # all products that are processed at the same time, also by other batches, count towards the capacity
+            while (
+                len(production_states) < batch_size
+                or len(self.get_running_production(resource)) + batch_size > resource.capacity
+            ):
+                yield events.AnyOf(self.env, self.get_running_production(resource))
+                production_states = resource.get_free_processes(process)
+            production_states = production_states[:batch_size]
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
             yield self.env.process(self.run_process(production_states, products, process))
-- 
2.43.0


From 6fbfc8a29cde77279b4a928aa79b554fdd2d59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 31/81] fix: use the exchange places of a machine at both ends
 of a link when comparing routes

---
 prodsys/simulation/route_finder.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index 48c22b9..c394bf7 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -118,19 +118,16 @@ class RouteFinder:
         for link in links:
             link_origin = link[0]
             link_target = link[1]
-            if not isinstance(link_origin, (ProductionResource, Store)) or not link_origin == origin:
-                origin_location = link_origin.get_location()
-            elif empty_transport:
-                origin_location = link_origin.get_input_location()
-            elif not empty_transport:
-                origin_location = link_origin.get_output_location()
-
-            if not isinstance(link_target, (ProductionResource, Store)) or not link_target == target:
-                target_location = link_target.get_location()
-            elif empty_transport:
-                target_location = link_target.get_output_location()
-            elif not empty_transport:
-                target_location = link_target.get_input_location()
+            link_locations = []
+            for locatable in (link_origin, link_target):
+                # links are bidirectional, so that origin and target of the route can be at both ends of a link
+                if not isinstance(locatable, (ProductionResource, Store)) or (locatable is not origin and locatable is not target):
+                    link_locations.append(locatable.get_location())
+                elif (locatable is origin) == empty_transport:
+                    link_locations.append(locatable.get_input_location())
+                else:
+                    link_locations.append(locatable.get_output_location())
+            origin_location, target_location = link_locations
 
             edge = self.get_graph_edge(
                 link_origin, 
-- 
2.43.0


From 6580817d4bc44dbdf84470e544b54254481f06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 32/81] fix: a moved process module is not added twice to a
 machine

---
 prodsys/optimization/adapter_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..5265ed5 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -268,7 +268,8 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
         from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From 0035b2f73ba6950d9c4b66b2c6b5929fad058491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 33/81] fix: the partial crossover exchanges the machines of
 both individuals

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 5265ed5..e95953a 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 7b21e5159f7f06d55580b90151dec8b34e1b5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 34/81] fix: resources keep unique IDs in a crossover of
 related individuals

---
 prodsys/optimization/adapter_manipulation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index e95953a..adc099c 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -25,6 +25,20 @@ from uuid import uuid1
 from prodsys.util.util import flatten
 
 
+def assign_unique_IDs(machines: List[resource_data.ProductionResourceData]) -> None:
+    """
+    Function that assigns a new ID to all machines whose ID is already used by another machine of the list.
+
+    Args:
+        machines (List[resource_data.ProductionResourceData]): List of machines of one production system configuration.
+    """
+    used_IDs = set()
+    for machine in machines:
+        if machine.ID in used_IDs:
+            machine.ID = str(uuid1())
+        used_IDs.add(machine.ID)
+
+
 def crossover(ind1, ind2):
     ind1[0].ID = str(uuid1())
     ind2[0].ID = str(uuid1())
@@ -46,6 +60,8 @@ def crossover(ind1, ind2):
                 machines_1[:min_length] + machines_2[min_length:],
                 machines_2[:min_length] + machines_1[min_length:],
             )
+            assign_unique_IDs(machines_1)
+            assign_unique_IDs(machines_2)
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 1416b219b1d976a0de1f6e8048ca27bac1664585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 35/81] fix: keep setup and charging states when renewing the
 breakdown states of resources

---
 prodsys/optimization/util.py | 37 ++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..3a5ee6b 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -339,6 +339,33 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
             )
 
 
+def get_other_state_ids_of_resource(
+    resource: resource_data.RESOURCE_DATA_UNION,
+    adapter_object: adapters.ProductionSystemAdapter,
+) -> List[str]:
+    """
+    Function that returns the IDs of all states of a resource that are no breakdown states, e.g. setup states or charging states.
+
+    Args:
+        resource (resource_data.RESOURCE_DATA_UNION): Resource of the production system.
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration with specified scenario data.
+
+    Returns:
+        List[str]: List of state IDs.
+    """
+    other_state_ids = set(
+        [
+            state.ID
+            for state in adapter_object.state_data
+            if not isinstance(
+                state,
+                (state_data.BreakDownStateData, state_data.ProcessBreakDownStateData),
+            )
+        ]
+    )
+    return [state_id for state_id in resource.state_ids if state_id in other_state_ids]
+
+
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
@@ -350,7 +377,9 @@ def clean_out_breakdown_states_of_resources(
             or BreakdownStateNamingConvention.PROCESS_MODULE_BREAKDOWN_STATE.value
             in state.ID
         ):
-            resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
+            resource.state_ids = get_other_state_ids_of_resource(
+                resource, adapter_object
+            ) + get_breakdown_state_ids_of_machine_with_processes(
                 resource.process_ids, adapter_object
             )
         elif isinstance(resource, resource_data.TransportResourceData) and any(
@@ -359,9 +388,9 @@ def clean_out_breakdown_states_of_resources(
             if state.ID
             == BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
         ):
-            resource.state_ids = [
-                BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
-            ]
+            resource.state_ids = get_other_state_ids_of_resource(
+                resource, adapter_object
+            ) + [BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value]
 
 
 def get_weights(
-- 
2.43.0


From 61b66920f669b192e7d2e5be7b32ffc43c54b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 36/81] fix: do not choose an auxiliary to change if no
 auxiliary is required

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index adc099c..3056984 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -352,6 +352,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -376,6 +378,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
-- 
2.43.0


From c5ef3d4b3a642e19b9dc35777362bebeb5b63f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 37/81] fix: change policies that are not part of the options
 of the scenario

---
 prodsys/optimization/adapter_manipulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 3056984..3b27f0f 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -410,9 +410,10 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
             adapter_object.scenario_data.options.transport_controllers
         )
 
-    if len(possible_control_policies) < 2:
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
+    if not possible_control_policies:
         return False
-    possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -429,9 +430,10 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     possible_routing_policies = deepcopy(
         adapter_object.scenario_data.options.routing_heuristics
     )
-    if len(possible_routing_policies) < 2:
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
+    if not possible_routing_policies:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From e6c885ebdc600723cc78d947bb6edaa2906d3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 38/81] fix: reconfiguration costs without optional cost
 parameters

---
 prodsys/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..2bb2413 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -30,7 +30,7 @@ def get_process_module_cost(
         if isinstance(process_module_cost, dict):
             process_cost = process_module_cost.get(process, 0)
         else:
-            process_cost = process_module_cost
+            process_cost = process_module_cost or 0
         sum_process_module_cost += max(
             0,
             (
@@ -99,7 +99,7 @@ def get_auxiliary_cost(
             auxiliary_cost += max(
                 0,
                 (storage - storage_before)
-                * adapter_object.scenario_data.info.auxiliary_cost,
+                * (adapter_object.scenario_data.info.auxiliary_cost or 0),
             )
     return auxiliary_cost
 
-- 
2.43.0


From 4e81b5a04d3f1cf8a685216cd7a2e97c53070778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 39/81] fix: compare the position of machines, not their input
 location, with the possible positions

---
 prodsys/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2bb2413..e80a4c2 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -143,7 +143,7 @@ def valid_positions(configuration: adapters.ProductionSystemAdapter) -> bool:
         return False
 
     positions = [
-        machine.input_location
+        machine.location
         for machine in adapters.get_production_resources(configuration)
     ]
     possible_positions = configuration.scenario_data.options.positions
-- 
2.43.0


From a68c47ef6c0d222bd6792f12577775786ea16ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 40/81] fix: do not reuse the performance of a configuration
 with other control policies

---
 prodsys/optimization/optimization.py |  9 +++++----
 prodsys/optimization/util.py         | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index e80a4c2..341aad1 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -10,6 +10,7 @@ from prodsys.optimization.util import (
     get_grouped_processes_of_machine,
     get_num_of_process_modules,
     get_required_auxiliaries,
+    get_solution_key,
     get_weights,
 )
 from prodsys.util.post_processing import PostProcessor
@@ -267,12 +268,12 @@ def evaluate(
     """
 
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
-    adapter_object_hash = adapter_object.hash()
-    if adapter_object_hash in solution_dict["hashes"]:
-        evaluated_adapter_generation = solution_dict["hashes"][adapter_object_hash][
+    solution_key = get_solution_key(adapter_object)
+    if solution_key in solution_dict["hashes"]:
+        evaluated_adapter_generation = solution_dict["hashes"][solution_key][
             "generation"
         ]
-        evaluated_adapter_id = solution_dict["hashes"][adapter_object_hash]["ID"]
+        evaluated_adapter_id = solution_dict["hashes"][solution_key]["ID"]
         return performances[evaluated_adapter_generation][evaluated_adapter_id][
             "fitness"
         ]
diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 3a5ee6b..cdb14b7 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -498,6 +498,25 @@ def adjust_process_capacities(
         resource.process_capacities = [resource.capacity] * len(resource.process_ids)
 
 
+def get_solution_key(adapter_object: adapters.ProductionSystemAdapter) -> str:
+    """
+    Returns a key that identifies configurations with the same performance. In contrast to the hash of the adapter,
+    which only considers the physical structure, the key also considers the control policies of the resources, which
+    are changed in the optimization.
+
+    Args:
+        adapter_object (adapters.ProductionSystemAdapter): Configuration.
+
+    Returns:
+        str: Key of the configuration.
+    """
+    control_policies = sorted(
+        resource.hash(adapter_object) + str(getattr(resource.control_policy, "value", resource.control_policy))
+        for resource in adapter_object.resource_data
+    )
+    return adapter_object.hash() + "".join(control_policies)
+
+
 def document_individual(
     solution_dict: Dict[str, Union[list, str]],
     save_folder: str,
@@ -506,8 +525,9 @@ def document_individual(
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
     current_generation = solution_dict["current_generation"]
 
-    if adapter_object.hash() not in solution_dict["hashes"]:
-        solution_dict["hashes"][adapter_object.hash()] = {
+    solution_key = get_solution_key(adapter_object)
+    if solution_key not in solution_dict["hashes"]:
+        solution_dict["hashes"][solution_key] = {
             "generation": current_generation,
             "ID": adapter_object.ID,
         }
-- 
2.43.0


From 58eb65ebb12b6f216044fac438ab4f9761849948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 41/81] fix: read configurations with a machine without
 processes

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..8caf9b9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From 6a6ad37510bc831461866c85365059de3ec4924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 42/81] fix: do not reuse the performance of a configuration
 with other processes of the same duration

---
 prodsys/optimization/util.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index cdb14b7..cb92097 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -502,7 +502,7 @@ def get_solution_key(adapter_object: adapters.ProductionSystemAdapter) -> str:
     """
     Returns a key that identifies configurations with the same performance. In contrast to the hash of the adapter,
     which only considers the physical structure, the key also considers the control policies of the resources, which
-    are changed in the optimization.
+    are changed in the optimization, and distinguishes processes and states with the same time models.
 
     Args:
         adapter_object (adapters.ProductionSystemAdapter): Configuration.
@@ -510,11 +510,18 @@ def get_solution_key(adapter_object: adapters.ProductionSystemAdapter) -> str:
     Returns:
         str: Key of the configuration.
     """
-    control_policies = sorted(
-        resource.hash(adapter_object) + str(getattr(resource.control_policy, "value", resource.control_policy))
+    resource_keys = sorted(
+        str(
+            (
+                resource.hash(adapter_object),
+                getattr(resource.control_policy, "value", resource.control_policy),
+                sorted(zip(resource.process_ids, resource.process_capacities)),
+                sorted(resource.state_ids),
+            )
+        )
         for resource in adapter_object.resource_data
     )
-    return adapter_object.hash() + "".join(control_policies)
+    return adapter_object.hash() + "".join(resource_keys)
 
 
 def document_individual(
-- 
2.43.0


From 8882aeaf24be05d9bd89c009ccb6f1170c6a9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 43/81] fix: the hash of a resource depends on which process
 has which capacity

---
 prodsys/models/resource_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 8caf9b9..b4fc571 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -135,14 +135,16 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        processes_with_capacities = sorted(zip(process_hashes, self.process_capacities))
+
         return md5((
             "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    *[process_hash for process_hash, _ in processes_with_capacities], 
+                    *[str(capacity) for _, capacity in processes_with_capacities], 
                     *sorted(state_hashes)
                 ]
             )
-- 
2.43.0


From 46052eee99d70326a26310fdfa3e66297daaf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 44/81] fix: hash of auxiliaries independent of the order of
 queues and processes

---
 prodsys/models/auxiliary_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index aebe15e..c41e382 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -55,9 +55,11 @@ class AuxiliaryData(CoreAsset):
         relevant_processes_hashes = []
         relevant_transport_processes_hashes = []
 
-        for queue in adapter.queue_data:
-            if queue.ID in self.storages:
-                storages_hashes.append(queue.hash())
+        for storage in self.storages:
+            for queue in adapter.queue_data:
+                if queue.ID == storage:
+                    storages_hashes.append(queue.hash())
+                    break
         for process in adapter.process_data:
             if process.ID in self.relevant_processes:
                 relevant_processes_hashes.append(process.hash(adapter))
@@ -66,4 +68,4 @@ class AuxiliaryData(CoreAsset):
             if process.ID == self.transport_process:
                 transport_processes_hash = process.hash(adapter)
         
-        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *relevant_processes_hashes, *relevant_transport_processes_hashes])]).encode("utf-8")).hexdigest()
\ No newline at end of file
+        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *sorted(relevant_processes_hashes), *sorted(relevant_transport_processes_hashes)])]).encode("utf-8")).hexdigest()
\ No newline at end of file
-- 
2.43.0


From 0664482ddf5d31cc8c76ef6609d4eda7dcaf6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 45/81] fix: list the adapters of a project in the web service
 instead of failing

---
 app/routers/adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/adapters.py b/app/routers/adapters.py
index 8b9d33e..0c15a8e 100644
--- a/app/routers/adapters.py
+++ b/app/routers/adapters.py
@@ -1,4 +1,4 @@
-from typing import List, Dict
+from typing import List
 
 
 from fastapi import APIRouter
@@ -14,7 +14,7 @@ router = APIRouter(
 )
 
 
-@router.get("/", response_model=Dict[str, JsonProductionSystemAdapter])
+@router.get("/", response_model=List[JsonProductionSystemAdapter])
 async def get_adapters(project_id: str) -> List[JsonProductionSystemAdapter]:
     return prodsys_backend.get_adapters(project_id)
 
-- 
2.43.0


From b2025fd43f533d49c3478b24e1565b1d2644a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 46/81] fix: drop the performance of a deleted or replaced
 adapter in the web service

---
 app/backends/in_memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 4b17a07..02d3d65 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -62,8 +62,9 @@ class InMemoryBackend:
         for adapter_index, adapter in enumerate(project.adapters):
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
+                if project.performances:
+                    project.performances.pop(adapter_id, None)
                 return
-        self.delete_performance(project_id, adapter_id)
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
 
-- 
2.43.0


From 355b81b26ba4ee6cad60b4346bb3f7a0ac427f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 47/81] fix: do not lose a project or adapter that is renamed
 to an existing one

---
 app/backends/in_memory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 02d3d65..335043a 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -27,6 +27,9 @@ class InMemoryBackend:
         return project
 
     def update_project(self, project_id: str, project: Project) -> Project:
+        self.get_project(project_id)
+        if project.ID != project_id and project.ID in self.database:
+            raise HTTPException(409, f"Project {project.ID} already exists.")
         self.delete_project(project_id)
         return self.create_project(project)
 
@@ -54,6 +57,9 @@ class InMemoryBackend:
         return adapter
 
     def update_adapter(self, project_id: str, adapter_id: str, adapter: JsonProductionSystemAdapter) -> JsonProductionSystemAdapter:
+        self.get_adapter(project_id, adapter_id)
+        if adapter.ID != adapter_id and adapter.ID in [a.ID for a in self.get_adapters(project_id)]:
+            raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
         self.delete_adapter(project_id, adapter_id)
         return self.create_adapter(project_id, adapter)
 
-- 
2.43.0


From 87ce57433021598042f9d59642088416ce8833fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 48/81] fix: refuse objects whose ID already exists in the web
 service

---
 app/dao/process_dao.py    | 20 ++++++++++++--------
 app/dao/product_dao.py    | 20 ++++++++++++--------
 app/dao/queue_dao.py      | 20 ++++++++++++--------
 app/dao/resources_dao.py  | 20 ++++++++++++--------
 app/dao/sink_dao.py       | 20 ++++++++++++--------
 app/dao/source_dao.py     | 20 ++++++++++++--------
 app/dao/state_dao.py      | 19 ++++++++++++-------
 app/dao/time_model_dao.py | 20 ++++++++++++--------
 8 files changed, 96 insertions(+), 63 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c75b672..6bbd156 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -21,15 +21,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, process: processes_data.PROCESS_DATA_UNION
 ) -> processes_data.PROCESS_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, process.ID):
-            raise HTTPException(
-                404,
-                f"Process with ID {process.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == process.ID for existing in adapter.process_data):
+        raise HTTPException(
+            409,
+            f"Process with ID {process.ID} already exists. Try updating instead.",
+        )
     adapter.process_data.append(process)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return process
@@ -44,6 +41,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_process in enumerate(adapter.process_data):
         if existing_process.ID == process_id:
+            if process.ID != process_id and any(
+                existing.ID == process.ID for existing in adapter.process_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Process with ID {process.ID} already exists.",
+                )
             adapter.process_data[idx] = process
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 6802fff..3859c2b 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, product_id: str) -> product_data.Produ
 def add(
     project_id: str, adapter_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
-    try:
-        if get(project_id, adapter_id, product.ID):
-            raise HTTPException(
-                404,
-                f"Product with ID {product.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == product.ID for existing in adapter.product_data):
+        raise HTTPException(
+            409,
+            f"Product with ID {product.ID} already exists. Try updating instead.",
+        )
     adapter.product_data.append(product)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return product
@@ -41,6 +38,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_product in enumerate(adapter.product_data):
         if existing_product.ID == product_id:
+            if product.ID != product_id and any(
+                existing.ID == product.ID for existing in adapter.product_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Product with ID {product.ID} already exists.",
+                )
             adapter.product_data[idx] = product
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 41e66bc..d9dcadd 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 def add(
     project_id: str, adapter_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
-    try:
-        if get(project_id, adapter_id, queue.ID):
-            raise HTTPException(
-                404,
-                f"Queue with ID {queue.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == queue.ID for existing in adapter.queue_data):
+        raise HTTPException(
+            409,
+            f"Queue with ID {queue.ID} already exists. Try updating instead.",
+        )
     adapter.queue_data.append(queue)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return queue
@@ -41,6 +38,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_queue in enumerate(adapter.queue_data):
         if existing_queue.ID == queue_id:
+            if queue.ID != queue_id and any(
+                existing.ID == queue.ID for existing in adapter.queue_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Queue with ID {queue.ID} already exists.",
+                )
             adapter.queue_data[idx] = queue
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index 2388b1d..d64f75d 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -40,15 +40,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, resource: resource_data.RESOURCE_DATA_UNION
 ) -> resource_data.RESOURCE_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, resource.ID):
-            raise HTTPException(
-                404,
-                f"Resource with ID {resource.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == resource.ID for existing in adapter.resource_data):
+        raise HTTPException(
+            409,
+            f"Resource with ID {resource.ID} already exists. Try updating instead.",
+        )
     adapter.resource_data.append(resource)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return resource
@@ -63,6 +60,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_resource in enumerate(adapter.resource_data):
         if existing_resource.ID == resource_id:
+            if resource.ID != resource_id and any(
+                existing.ID == resource.ID for existing in adapter.resource_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Resource with ID {resource.ID} already exists.",
+                )
             adapter.resource_data[idx] = resource
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index 68cc1ea..1514e57 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, sink_id: str) -> sink_data.SinkData:
 def add(
     project_id: str, adapter_id: str, sink: sink_data.SinkData
 ) -> sink_data.SinkData:
-    try:
-        if get(project_id, adapter_id, sink.ID):
-            raise HTTPException(
-                404,
-                f"Sink with ID {sink.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == sink.ID for existing in adapter.sink_data):
+        raise HTTPException(
+            409,
+            f"Sink with ID {sink.ID} already exists. Try updating instead.",
+        )
     adapter.sink_data.append(sink)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return sink
@@ -44,6 +41,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_sink in enumerate(adapter.sink_data):
         if existing_sink.ID == sink_id:
+            if sink.ID != sink_id and any(
+                existing.ID == sink.ID for existing in adapter.sink_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Sink with ID {sink.ID} already exists.",
+                )
             adapter.sink_data[idx] = sink
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 78a9ded..a8ddd6d 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, source_id: str) -> source_data.SourceD
 def add(
     project_id: str, adapter_id: str, source: source_data.SourceData
 ) -> source_data.SourceData:
-    try:
-        if get(project_id, adapter_id, source.ID):
-            raise HTTPException(
-                404,
-                f"Source with ID {source.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == source.ID for existing in adapter.source_data):
+        raise HTTPException(
+            409,
+            f"Source with ID {source.ID} already exists. Try updating instead.",
+        )
     adapter.source_data.append(source)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return source
@@ -44,6 +41,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_source in enumerate(adapter.source_data):
         if existing_source.ID == source_id:
+            if source.ID != source_id and any(
+                existing.ID == source.ID for existing in adapter.source_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Source with ID {source.ID} already exists.",
+                )
             adapter.source_data[idx] = source
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 97bc685..c48713a 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -18,14 +18,12 @@ def get(project_id: str, adapter_id: str, state_id: str) -> state_data.STATE_DAT
 
 
 def add(project_id: str, adapter_id: str, state: state_data.STATE_DATA_UNION):
-    try:
-        if get(project_id, adapter_id, state.ID):
-            raise HTTPException(
-                404, f"State with ID {state.ID} already exists. Try updating instead."
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == state.ID for existing in adapter.state_data):
+        raise HTTPException(
+            409,
+            f"State with ID {state.ID} already exists. Try updating instead.",
+        )
     adapter.state_data.append(state)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return state
@@ -37,6 +35,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_state in enumerate(adapter.state_data):
         if existing_state.ID == state_id:
+            if state.ID != state_id and any(
+                existing.ID == state.ID for existing in adapter.state_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"State with ID {state.ID} already exists.",
+                )
             adapter.state_data[idx] = state
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 78e47cf..e6047ba 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -23,15 +23,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, time_model: time_model_data.TIME_MODEL_DATA
 ) -> time_model_data.TIME_MODEL_DATA:
-    try:
-        if get(project_id, adapter_id, time_model.ID):
-            raise HTTPException(
-                404,
-                f"Time model with ID {time_model.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == time_model.ID for existing in adapter.time_model_data):
+        raise HTTPException(
+            409,
+            f"Time model with ID {time_model.ID} already exists. Try updating instead.",
+        )
     adapter.time_model_data.append(time_model)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return time_model
@@ -46,6 +43,13 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_time_model in enumerate(adapter.time_model_data):
         if existing_time_model.ID == time_model_id:
+            if time_model.ID != time_model_id and any(
+                existing.ID == time_model.ID for existing in adapter.time_model_data
+            ):
+                raise HTTPException(
+                    409,
+                    f"Time model with ID {time_model.ID} already exists.",
+                )
             adapter.time_model_data[idx] = time_model
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return time_model
-- 
2.43.0


From 40ef7ec490120bbe5f5afdfb882ef7462c7af644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 49/81] fix: answers of creating, updating and deleting
 processes in the web service

---
 app/dao/process_dao.py   | 2 +-
 app/routers/processes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index 6bbd156..abd1839 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -59,6 +59,6 @@ def delete(project_id: str, adapter_id: str, process_id: str):
     for idx, process in enumerate(adapter.process_data):
         if process.ID == process_id:
             adapter.process_data.pop(idx)
-            prodsys_backend.update_adapter(project_id, adapter)
+            prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
     raise HTTPException(404, f"Process with ID {process_id} not found.")
diff --git a/app/routers/processes.py b/app/routers/processes.py
index 6a72590..9da0e95 100644
--- a/app/routers/processes.py
+++ b/app/routers/processes.py
@@ -39,7 +39,7 @@ async def get_processes(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully created process",
@@ -73,7 +73,7 @@ async def get_process(project_id: str, adapter_id: str, process_id: str):
 
 @router.put(
     "/{process_id}",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully updated process",
-- 
2.43.0


From 218a70c31bb3e09a1eefaacee35f3536f1281fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 50/81] fix: deleting a missing product answers not found

---
 app/dao/product_dao.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 3859c2b..78ba0d6 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -58,3 +58,4 @@ def delete(project_id: str, adapter_id: str, product_id: str):
             adapter.product_data.pop(idx)
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
+    raise HTTPException(404, f"Product with ID {product_id} not found.")
-- 
2.43.0


From 63414200f73e199e3aedc043c79906c99a4cddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 51/81] fix: objectives of a scenario in the web service:
 throughput time and missing objectives

---
 app/dao/scenario_dao.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index ccb8600..4e67764 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -103,7 +103,7 @@ def add_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
@@ -129,7 +129,7 @@ def update_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
@@ -140,7 +140,7 @@ def update_objective(
         if objective.name == existing_objective.name:
             scenario.objectives[idx] = objective
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective.name} not found for scenario of adapter {adapter_id}.",
     )
@@ -154,7 +154,7 @@ def delete_objective(
         if objective.name == objective_name:
             scenario.objectives.pop(idx)
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective_name} not found for scenario of adapter {adapter_id}.",
     )
-- 
2.43.0


From d4ad2e9ca25103aa35166f3924eb69961bf467ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 52/81] fix: keep the locations of stores in the web service

---
 app/dao/queue_dao.py | 12 ++++++------
 app/routers/queue.py | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index d9dcadd..51cb94b 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -5,12 +5,12 @@ from app.dependencies import prodsys_backend
 from prodsys.models import queue_data
 
 
-def get_all(project_id: str, adapter_id: str) -> List[queue_data.QueueData]:
+def get_all(project_id: str, adapter_id: str) -> List[queue_data.QUEUE_DATA_UNION]:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     return adapter.queue_data
 
 
-def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData:
+def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for queue in adapter.queue_data:
         if queue.ID == queue_id:
@@ -19,8 +19,8 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 
 
 def add(
-    project_id: str, adapter_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if any(existing.ID == queue.ID for existing in adapter.queue_data):
         raise HTTPException(
@@ -33,8 +33,8 @@ def add(
 
 
 def update(
-    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_queue in enumerate(adapter.queue_data):
         if existing_queue.ID == queue_id:
diff --git a/app/routers/queue.py b/app/routers/queue.py
index 3048ce5..f161d29 100644
--- a/app/routers/queue.py
+++ b/app/routers/queue.py
@@ -22,7 +22,7 @@ router = APIRouter(
 
 @router.get(
     "/",
-    response_model=List[queue_data.QueueData],
+    response_model=List[queue_data.QUEUE_DATA_UNION],
     responses={
         200: {
             "description": "Sucessfully returned queues",
@@ -37,22 +37,22 @@ async def get_queues(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def create_queue(
     project_id: str,
     adapter_id: str,
     queue: Annotated[
-        queue_data.QueueData,
+        queue_data.QUEUE_DATA_UNION,
         Body(examples=queue_data.QueueData.model_config["json_schema_extra"]["examples"]),
     ],
-) -> queue_data.QueueData:
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.add(project_id, adapter_id, queue)
 
 
 @router.get(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully returned queue",
@@ -67,14 +67,14 @@ async def get_queue(project_id: str, adapter_id: str, queue_id: str):
 
 @router.put(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def update_queue(
     project_id: str,
     adapter_id: str,
     queue_id: str,
-    queue: Annotated[queue_data.QueueData, Body(examples=QUEUE_LIST_EXAMPLE)],
-) -> queue_data.QueueData:
+    queue: Annotated[queue_data.QUEUE_DATA_UNION, Body(examples=QUEUE_LIST_EXAMPLE)],
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.update(project_id, adapter_id, queue_id, queue)
 
 
-- 
2.43.0


From dc518a68bf712e2ee55c97481b62e6cce6ffc7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 53/81] fix: distinguish simulation progress of equally named
 adapters of different projects

---
 app/dependencies.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 49acda7..0f15af3 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,5 +1,5 @@
 import time
-from typing import Dict
+from typing import Dict, Tuple
 
 import os
 import json
@@ -30,17 +30,17 @@ def get_backend() -> Backend:
 
 
 prodsys_backend = get_backend()
-runners: Dict[str, prodsys.runner.Runner] = {}
+runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
 def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressReport:
-    if adapter_id not in runners:
+    if (project_id, adapter_id) not in runners:
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
         )
-    steps_done = runners[adapter_id].env.pbar.n
-    steps_total = runners[adapter_id].env.pbar.total
-    time_done = time.time() - runners[adapter_id].env.pbar.start_t
+    steps_done = runners[(project_id, adapter_id)].env.pbar.n
+    steps_total = runners[(project_id, adapter_id)].env.pbar.total
+    time_done = time.time() - runners[(project_id, adapter_id)].env.pbar.start_t
 
     ratio_done = steps_done / steps_total
     expected_total_time = time_done / ratio_done
@@ -57,7 +57,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
-    runners[adapter_id] = runner_object
+    runners[(project_id, adapter_id)] = runner_object
     runner_object.initialize_simulation()
     runner_object.run(run_length)
     performance = runner_object.get_performance_data()
-- 
2.43.0


From d3fc12444ffd9897d8093e090bb5b14b177e8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 54/81] fix: simulating a missing adapter answers not found

---
 app/routers/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/simulation.py b/app/routers/simulation.py
index 7444436..5394c34 100644
--- a/app/routers/simulation.py
+++ b/app/routers/simulation.py
@@ -23,8 +23,8 @@ async def simulate(
     background_tasks: BackgroundTasks,
     seed: Optional[int] = 0,
 ):
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if not run_length:
-        adapter = prodsys_backend.get_adapter(project_id, adapter_id)
         if adapter.scenario_data and adapter.scenario_data.info:
             run_length = adapter.scenario_data.info.time_range
         else:
-- 
2.43.0


From 1e38367d8ec6053aed5ad9e69a368d070148f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 55/81] fix: progress of a missing adapter answers not found

---
 app/dependencies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/dependencies.py b/app/dependencies.py
index 0f15af3..3a12949 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -34,6 +34,7 @@ runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
 def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressReport:
+    prodsys_backend.get_adapter(project_id, adapter_id)
     if (project_id, adapter_id) not in runners:
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
-- 
2.43.0


From 4c193d8a8fc54d513da115979f6b81203fe947c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 56/81] fix: plots of a system show this system and not the
 last one simulated in the project

---
 app/backends/in_memory.py | 23 ++++++++++++-----------
 app/models/project.py     |  3 +--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 335043a..2ab4823 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -70,6 +70,7 @@ class InMemoryBackend:
                 del project.adapters[adapter_index]
                 if project.performances:
                     project.performances.pop(adapter_id, None)
+                project.post_processors.pop(adapter_id, None)
                 return
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
@@ -107,29 +108,29 @@ class InMemoryBackend:
     def get_post_processor(self, project_id: str, adapter_id: str) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in adapter {adapter_id} of project {project_id}")
-        return project.post_processor
+        return project.post_processors[adapter_id]
 
     def create_post_processor(self, project_id: str, adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if project.post_processor:
-            raise HTTPException(409, f"PostProcessor already exists in project {project_id}. Try updating it with put.")
-        project.post_processor = post_processor
+        if adapter_id in project.post_processors:
+            raise HTTPException(409, f"PostProcessor for adapter {adapter_id} already exists in project {project_id}. Try updating it with put.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def update_post_processor(self, project_id: str,  adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}. Try creating it with post.")
-        project.post_processor = post_processor
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}. Try creating it with post.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def delete_post_processor(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}.")
-        project.post_processor = None
\ No newline at end of file
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}.")
+        del project.post_processors[adapter_id]
diff --git a/app/models/project.py b/app/models/project.py
index 4056127..29a20dd 100644
--- a/app/models/project.py
+++ b/app/models/project.py
@@ -20,7 +20,7 @@ class Project(BaseModel):
     adapters: List[prodsys.adapters.JsonProductionSystemAdapter] = []
     # TODO: maybe allow saving performances in project also for adapter_id and specific seed
     performances: Optional[Dict[str, Performance]] = {}
-    post_processor: Optional[PostProcessor] = Field(default=None, exclude=True)
+    post_processors: Dict[str, PostProcessor] = Field(default={}, exclude=True)
     #TODO: make wrapper for postprocessor for schema
 
     model_config = ConfigDict(
@@ -36,7 +36,6 @@ class Project(BaseModel):
                     "performances": {
                         "Example Adapter": Performance.model_config["json_schema_extra"]["examples"][0]
                     },
-                    "post_processor": None
                 }
             ]
         }
-- 
2.43.0


From 3d0907d1ce03bdb97560606c0d2c408f69669e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 57/81] fix: results of a missing optimisation answer not found

---
 app/routers/optimization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index 47b0c07..f783acc 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -103,10 +103,13 @@ async def optimize(
     response_model=Dict[str, Union[Dict[str, List[performance_indicators.KPI_UNION]], str]],
 )
 def get_optimization_results(project_id: str, adapter_id: str):
-    with open(f"data/{project_id}/{adapter_id}/optimization_results.json") as json_file:
-        data = json.load(json_file)
-
     adapter_object = prodsys_backend.get_adapter(project_id, adapter_id)
+    try:
+        with open(f"data/{project_id}/{adapter_id}/optimization_results.json") as json_file:
+            data = json.load(json_file)
+    except FileNotFoundError:
+        raise HTTPException(404, f"Optimization results not found for adapter {adapter_id} in project {project_id}")
+
     kpis = adapter_object.scenario_data.objectives
     
     response = {"solutions": {}}
-- 
2.43.0


From d99c2c2a40cda741819e36dbaf7545ba2256d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 58/81] fix: best solution of an optimisation respects the
 weights and directions of the objectives

---
 app/routers/optimization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index f783acc..c6b3246 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -12,6 +12,7 @@ from prodsys.optimization import (
     tabu_search,
     math_opt,
     optimization_analysis,
+    util as optimization_util,
 )
 from prodsys.optimization.evolutionary_algorithm import (
     EvolutionaryAlgorithmHyperparameters,
@@ -138,8 +139,9 @@ def get_optimization_results(project_id: str, adapter_id: str):
 )
 def get_best_solution_id(project_id: str, adapter_id: str):
     """
-    Returns the best solution ID based on the highest total fitness value from the optimization results.
+    Returns the best solution ID based on the highest total weighted fitness value from the optimization results.
     """
+    adapter_object = prodsys_backend.get_adapter(project_id, adapter_id)
     try:
         # Open the optimization results file
         with open(f"data/{project_id}/{adapter_id}/optimization_results.json") as json_file:
@@ -147,13 +149,17 @@ def get_best_solution_id(project_id: str, adapter_id: str):
     except FileNotFoundError:
         raise HTTPException(404, f"Optimization results not found for adapter {adapter_id} in project {project_id}")
 
+    weights = optimization_util.get_weights(adapter_object, "max")
     best_solution = None
     best_fitness = float('-inf')  # Initialize with negative infinity
 
     # Iterate over the solutions in the results file
     for solution in data.values():
         for adapter_name in solution.keys():
-            total_fitness = sum(solution[adapter_name]["fitness"])  # Calculate the total fitness value
+            total_fitness = sum(
+                weight * value
+                for weight, value in zip(weights, solution[adapter_name]["fitness"])
+            )  # Calculate the total fitness value
 
             # Check if this solution has the best fitness
             if total_fitness > best_fitness:
-- 
2.43.0


From 83c5944027c992ce89ca9d616aafb60f679b912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 59/81] fix: read an optimised configuration from the file it
 was saved to

---
 app/dependencies.py         | 9 +++++----
 app/routers/optimization.py | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 3a12949..37aef9e 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -131,12 +131,13 @@ def get_configuration_results_adapter_from_filesystem(
 ):
     # TODO: use backend to save and retrieve data here...
     adapter_object = prodsys.adapters.JsonProductionSystemAdapter()
-    files = os.listdir(f"data/{project_id}/{adapter_id}")
-    if not any(solution_id in file for file in files):
+    folder = f"data/{project_id}/{adapter_id}"
+    files = os.listdir(folder) if os.path.isdir(folder) else []
+    files = [file for file in files if file.endswith(f"_{solution_id}.json")]
+    if not files:
         raise HTTPException(
             404,
             f"Solution {solution_id} for adapter {adapter_id} in project {project_id} does not exist.",
         )
-    file_name = next(file for file in files if solution_id in file)
-    adapter_object.read_data(f"data/{project_id}/{adapter_id}/{file_name}")
+    adapter_object.read_data(f"{folder}/{files[0]}")
     return adapter_object
diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index c6b3246..e039819 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -222,6 +222,6 @@ def get_optimization_pareto_front(project_id: str, adapter_id: str):
 def get_optimization_solution(
     project_id: str, adapter_id: str, solution_id: str
 ) -> prodsys.adapters.JsonProductionSystemAdapter:
-    with open(f"data/{project_id}/{adapter_id}/{solution_id}.json") as json_file:
-        data = json.load(json_file)
-    return data
+    return get_configuration_results_adapter_from_filesystem(
+        project_id, adapter_id, solution_id
+    )
-- 
2.43.0


From 9a566da24dc14e0d04e526041fdf000d30159076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 60/81] fix: register an optimised configuration once and keep
 the performance of its baseline

---
 app/dependencies.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 37aef9e..4019983 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -91,17 +91,12 @@ def prepare_adapter_from_optimization(
     baseline_adapter_id: str,
     solution_id: str,
 ):
-    prodsys_backend.delete_post_processor(project_id, baseline_adapter_id)
     origin_adapter = prodsys_backend.get_adapter(project_id, baseline_adapter_id)
     adapter_object_optimized.scenario_data = origin_adapter.scenario_data
     adapter_object_optimized.ID = solution_id
 
     prodsys_backend.create_adapter(project_id, adapter_object_optimized)
 
-    project = prodsys_backend.get_project(project_id)
-    project.adapters.append(adapter_object_optimized)
-
-
     runner_object = prodsys.runner.Runner(adapter=adapter_object_optimized)
     runner_object.initialize_simulation()
     if adapter_object_optimized.scenario_data and adapter_object_optimized.scenario_data.info.time_range:
@@ -109,21 +104,13 @@ def prepare_adapter_from_optimization(
     else:
         run_length = 2 * 7 * 24 * 60
     runner_object.run(run_length)
-    
-    post_processor = runner_object.get_post_processor()
-    try:
-        prodsys_backend.create_post_processor(project_id, baseline_adapter_id, post_processor)
-    except:
-        prodsys_backend.update_post_processor(project_id, baseline_adapter_id, post_processor)
 
-    performance = runner_object.get_performance_data()
-    project.performances[adapter_object_optimized.ID] = performance
-    try:
-        prodsys_backend.create_performance(project_id, baseline_adapter_id, performance)
-    except:
-        prodsys_backend.update_performance(project_id, baseline_adapter_id, performance)
-
-    prodsys_backend.update_project(project_id, project)
+    prodsys_backend.create_post_processor(
+        project_id, solution_id, runner_object.get_post_processor()
+    )
+    prodsys_backend.create_performance(
+        project_id, solution_id, runner_object.get_performance_data()
+    )
 
 
 def get_configuration_results_adapter_from_filesystem(
-- 
2.43.0


From 3aaafcd32faa916e0fcbc8e661fa676c54a5195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 61/81] fix: simulated annealing outside of the main thread

---
 prodsys/optimization/simulated_annealing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/simulated_annealing.py b/prodsys/optimization/simulated_annealing.py
index 93095f2..a15945f 100644
--- a/prodsys/optimization/simulated_annealing.py
+++ b/prodsys/optimization/simulated_annealing.py
@@ -1,4 +1,5 @@
 import json
+import threading
 import time
 from copy import deepcopy
 
@@ -39,7 +40,12 @@ class ProductionSystemOptimization(Annealer):
         initial_solution: adapters.ProductionSystemAdapter = None,
         full_save: bool = False,
     ):
-        super().__init__(initial_solution, None)
+        try:
+            super().__init__(initial_solution, None)
+        except ValueError:
+            # The annealer sets its state and then a signal handler, which is not possible outside of the main thread.
+            if threading.current_thread() is threading.main_thread():
+                raise
         self.save_folder = save_folder
         self.base_configuration = base_configuration
         self.performances = performances
-- 
2.43.0


From 2b451e5ef2735b562e5de103291d11f99a2c6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 62/81] fix: convert the euclidean metric of express to the
 data model's spelling

---
 prodsys/express/time_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/express/time_model.py b/prodsys/express/time_model.py
index 4cd23f0..691e125 100644
--- a/prodsys/express/time_model.py
+++ b/prodsys/express/time_model.py
@@ -214,7 +214,7 @@ class DistanceTimeModel(core.ExpressObject):
         return time_model_data.DistanceTimeModelData(
             speed=self.speed,
             reaction_time=self.reaction_time,
-            metric=self.metric,
+            metric="euclidian" if self.metric == "euclidean" else self.metric,
             ID=self.ID,
             description=""
         )
-- 
2.43.0


From fdc714d2774e8d563b8477b5c25009bff4938911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 63/81] fix: allow rework processes in the states of express

---
 prodsys/express/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prodsys/express/process.py b/prodsys/express/process.py
index fdefe4c..0c36456 100644
--- a/prodsys/express/process.py
+++ b/prodsys/express/process.py
@@ -369,5 +369,6 @@ PROCESS_UNION = Union[
     TransportProcess,
     RequiredCapabilityProcess,
     LinkTransportProcess,
+    ReworkProcess,
 ]
 from prodsys.express import resources, sink, source, node
-- 
2.43.0


From 8b6479061eaee4e9f5bdaaf1bbf2cfdfc9d1dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 64/81] fix: convert a store of a resource that is also an
 auxiliary storage once

---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index d6400d1..d5c7b33 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -166,7 +166,7 @@ class ProductionSystem(core.ExpressObject):
         stores = [r.input_stores for r in self.resources if isinstance(r, resources.ProductionResource)] + [r.output_stores for r in self.resources if isinstance(r, resources.ProductionResource)]
         stores = list(util.flatten_object(stores))
         queue_data += [store.to_model() for store in stores]
-        queue_data = remove_duplicate_items(queue_data)
+        queue_data = remove_duplicate_items(queue_data + auxiliary_storage_data)
         return json_adapter.JsonProductionSystemAdapter(
             time_model_data=time_model_data,
             process_data=process_data,
@@ -177,7 +177,7 @@ class ProductionSystem(core.ExpressObject):
             resource_data=resource_data,
             source_data=source_data,
             sink_data=sink_data,
-            queue_data=queue_data + auxiliary_storage_data,
+            queue_data=queue_data,
             auxiliary_data = auxiliary_data,
         )
 
-- 
2.43.0


From 7bc68d531f1067e4997015ee24b50c9e0db01785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 65/81] fix: create the router of the routing environment with
 all its factories

---
 prodsys/control/routing_control_env.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index 1767897..e4742cd 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -123,7 +123,13 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
-        self.router = router.Router(self.runner.resource_factory, self.runner.sink_factory, agent_routing_heuristic)  
+        self.router = router.Router(
+            self.runner.resource_factory,
+            self.runner.sink_factory,
+            self.runner.auxiliary_factory,
+            agent_routing_heuristic,
+            self.runner.product_factory,
+        )
         
         sources = self.runner.source_factory.sources
         for source in sources:
-- 
2.43.0


From 9cb969dfb3f984c3800144dca25f74d433448c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 66/81] fix: let the agent of the routing environment decide on
 the resource

---
 prodsys/control/routing_control_env.py |  4 +++-
 prodsys/simulation/router.py           | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index e4742cd..b87af27 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -62,6 +62,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.possible_requests: List[request.Request] = []
         self.chosen_resource: Optional[resources.Resource] = None
         self.interrupt_simulation_event: events.Event = None
+        self.chose_resource_event: Optional[events.Event] = None
         self.observers: List[observer.ResourceObserver] = []
         self.step_count = 0
         self.reward = 0
@@ -121,7 +122,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
 
         self.runner.initialize_simulation()
         self.interrupt_simulation_event = events.Event(self.runner.env)
-        self.chose_resource_event = events.Event(self.runner.env)
+        self.chose_resource_event = None
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
         self.router = router.Router(
             self.runner.resource_factory,
@@ -191,6 +192,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
             invalid_action = False
 
         self.possible_requests.sort(key=lambda r: r.resource.data.ID == self.chosen_resource.data.ID, reverse=True)
+        self.chose_resource_event.succeed()
 
         self.runner.env.run_until(until=self.interrupt_simulation_event)
         self.step_count += 1
diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..7f7a316 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -191,7 +191,9 @@ class Router:
                 }
             )
 
-        self.routing_heuristic(production_requests)
+        decision = self.routing_heuristic(production_requests)
+        if decision is not None:
+            yield decision
         if not production_requests:
             return
         routed_production_request = production_requests.pop(0)
@@ -820,14 +822,23 @@ def agent_routing_heuristic(
     Args:
         gym_env (gym_env.ProductionRoutingEnv): Environment for the reinforcement learning agent.
         possible_resources (List[resources.Resource]): A list of possible resources.
+
+    Returns:
+        Optional[events.Event]: The event that is triggered when the agent has decided. None if the requests are delayed.
     """
-    if gym_env.interrupt_simulation_event.triggered:
+    decision_pending = (
+        gym_env.chose_resource_event is not None
+        and not gym_env.chose_resource_event.processed
+    )
+    if gym_env.interrupt_simulation_event.triggered or decision_pending:
         # Avoid that multiple requests trigger event multiple times -> delay them
         while possible_requests:
             possible_requests.pop()
         return
     gym_env.set_possible_requests(possible_requests)
+    gym_env.chose_resource_event = events.Event(gym_env.runner.env)
     gym_env.interrupt_simulation_event.succeed()
+    return gym_env.chose_resource_event
 
 
 ROUTING_HEURISTIC = {
-- 
2.43.0


From 6e275a9d1fc807eb428051df3eb1f006e6132deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 67/81] fix: observe products in the output queue of a resource

---
 prodsys/simulation/observer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index 7b1f854..d38399b 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List, TYPE_CHECKING
+from typing import List, Optional, TYPE_CHECKING
 
 from pydantic import BaseModel, ConfigDict
 
@@ -20,7 +20,7 @@ class ProcessObservation(BaseModel):
 class QueueObservation(BaseModel):
     product: str
     activity: str
-    process: str
+    process: Optional[str]
     next_resource: str
     waiting_since: float
 
@@ -63,8 +63,12 @@ def observe_output_queue(resource: resources.Resource, product_factory: product_
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process,
-                next_resource=product.current_locatable,
+                process=(
+                    product.next_prodution_process.process_data.ID
+                    if product.next_prodution_process
+                    else None
+                ),
+                next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
             queue_observation.append(production_process_info)
-- 
2.43.0


From 9a79e76b438ecc10c789119cd67c5cf23e7edf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 68/81] fix: remove the queues of all machines before adding
 default queues

A default queue that a later machine shared was still in use when it was
added again, so that the adapter listed two queues with the same ID.
---
 prodsys/adapters/adapter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index e85996a..9018b00 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -164,9 +164,10 @@ def add_default_queues_to_resources(
     Returns:
         ProductionSystemAdapter: ProductionSystemAdapter object with default queues added to all machines
     """
-    for machine in get_production_resources(adapter):
-        remove_queues_from_resource(machine)
-        remove_unused_queues_from_adapter(adapter)
+    machines = get_production_resources(adapter)
+    remove_queues_from_resources(machines)
+    remove_unused_queues_from_adapter(adapter)
+    for machine in machines:
         input_queues, output_queues = get_default_queues_for_resource(
             machine, queue_capacity
         )
-- 
2.43.0


From fdb51e707ce88485693e85a5a47a0d0f9b16e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 69/81] fix: take auxiliary types from the whole name of an
 auxiliary

---
 prodsys/util/post_processing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index ce9841f..f912db1 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -941,7 +941,8 @@ class PostProcessor:
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
+        df = df.copy()
+        df["Auxiliary_type"] = df["Product"].str.rsplit("_", n=1).str[0]
         auxiliary_types = self.get_auxiliary_types()
         df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
 
@@ -975,7 +976,7 @@ class PostProcessor:
         df = pd.DataFrame()
         auxiliary_types = self.get_auxiliary_types()
         for auxiliary_type in auxiliary_types:
-            df_temp = self.df_raw.loc[self.df_raw["Product"].str.contains(auxiliary_type)].copy()
+            df_temp = self.df_raw.loc[self.df_raw["Product"].str.rsplit("_", n=1).str[0] == auxiliary_type].copy()
             df_temp = self.get_auxiliary_WIP_KPI(df_temp)
             df = df.combine_first(df_temp)
 
@@ -1077,7 +1078,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.rsplit("_", 1)[0]).drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From 7ba94a2a4efc3964d489fe560a31ff1eaa6da420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 70/81] fix: count all auxiliaries of a storage when the
 optimiser changes quantities

Several auxiliaries can share a storage, but only the quantity of one of them was compared with its capacity, and a filled storage kept the old quantities of the other auxiliaries.
---
 prodsys/optimization/adapter_manipulation.py | 41 ++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 3b27f0f..17d5d95 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -9,6 +9,7 @@ from prodsys.adapters.adapter import (
     remove_queues_from_resources,
 )
 from prodsys.models import resource_data, scenario_data
+from prodsys.models.auxiliary_data import AuxiliaryData
 from prodsys.optimization.optimization import check_valid_configuration
 from prodsys.optimization.util import (
     add_setup_states_to_machine,
@@ -341,6 +342,29 @@ def move_machine(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     return True
 
 
+def get_quantity_in_storage(
+    auxiliaries: List[AuxiliaryData], storage_id: str
+) -> int:
+    """
+    Function that returns how many auxiliary components are initially in a storage.
+
+    Args:
+        auxiliaries (List[AuxiliaryData]): Auxiliaries that are considered.
+        storage_id (str): ID of the storage.
+
+    Returns:
+        int: Number of auxiliary components in the storage.
+    """
+    return sum(
+        quantity
+        for auxiliary in auxiliaries
+        for storage, quantity in zip(
+            auxiliary.storages, auxiliary.quantity_in_storages
+        )
+        if storage == storage_id
+    )
+
+
 def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     """
     Function that adds a random auxiliary component to the production system.
@@ -361,7 +385,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         for queue in adapter_object.queue_data
         if queue.ID == auxiliary.storages[storage_index]
     ][0]
-    if queue.capacity == auxiliary.quantity_in_storages[storage_index]:
+    stored = get_quantity_in_storage(adapter_object.auxiliary_data, queue.ID)
+    if queue.capacity and stored >= queue.capacity:
         return False
     auxiliary.quantity_in_storages[storage_index] += 1
     return True
@@ -538,12 +563,22 @@ def get_random_auxiliary_capacity(
     adapter_object: adapters.ProductionSystemAdapter,
 ) -> adapters.ProductionSystemAdapter:
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    other_auxiliaries = [
+        auxiliary
+        for auxiliary in adapter_object.auxiliary_data
+        if auxiliary not in required_auxiliaries
+    ]
     available_storage_capacities = {
-        queue.ID: queue.capacity for queue in adapter_object.queue_data
+        queue.ID: queue.capacity - get_quantity_in_storage(other_auxiliaries, queue.ID)
+        for queue in adapter_object.queue_data
+        if queue.capacity
     }
     for auxiliary in required_auxiliaries:
         for storage_index, storage in enumerate(auxiliary.storages):
-            if available_storage_capacities[storage] == 0:
+            if storage not in available_storage_capacities:
+                continue
+            if available_storage_capacities[storage] <= 0:
+                auxiliary.quantity_in_storages[storage_index] = 0
                 continue
             random_capacity = random.choice(
                 range(1, available_storage_capacities[storage] + 1)
-- 
2.43.0


From c81d9bbaf1efb5a734f65923c585cfe25d697a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 71/81] fix: let the MSER-5 method find a truncation point

The search included the truncation that keeps only the last batch, whose standard error is always zero, so that
the method never cut off a warm-up phase unless the series was constant.
---
 prodsys/util/warm_up_post_processing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prodsys/util/warm_up_post_processing.py b/prodsys/util/warm_up_post_processing.py
index a18df86..69cc406 100644
--- a/prodsys/util/warm_up_post_processing.py
+++ b/prodsys/util/warm_up_post_processing.py
@@ -42,18 +42,19 @@ def mser5(data: pd.DataFrame, column: str) -> int:
 
     if n < 5:
         return n
-    # FIXME: this method is not working properly...
     # Divide data into batches of size 5
     batched_data = [
         values[i : i + 5] for i in range(0, n, 5) if len(values[i : i + 5]) == 5
     ]
     batch_means = np.array([np.mean(batch) for batch in batched_data])
 
-    # Find truncation point that minimizes the standard error
+    # Find truncation point that minimizes the standard error. At least half of
+    # the batches have to remain, because the standard error of the last batches
+    # (e.g. zero for a single batch) says nothing about the steady state.
     min_std_error = float("inf")
     optimal_index = None
 
-    for i in range(len(batch_means)):
+    for i in range((len(batch_means) + 1) // 2):
         truncated_means = batch_means[i:]
         std_error = np.std(truncated_means) / np.sqrt(len(truncated_means))
 
-- 
2.43.0


From c2b4943e4e1ea2f00574de356aaafaa47c3380db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 72/81] fix: evaluate runs without finished products when the
 warm-up phase is cut off

The earliest start time of no product types raised a ValueError.
---
 prodsys/util/post_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index f912db1..c20d50e 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -271,6 +271,8 @@ class PostProcessor:
             float: Warm up cutoff time for the simulation results.
         """
         df = self.df_throughput_with_warum_up_cutoff
+        if df.empty:
+            return 0.0
         if df["Start_time"].min() == self.df_finished_product["Time"].min():
             return 0.0
         return df["Start_time"].min()
@@ -284,6 +286,8 @@ class PostProcessor:
             pd.DataFrame: Data frame with the throughput time for each finished product with the warm up phase cut off.
         """
         df = self.df_throughput.copy()
+        if df.empty:
+            return df
         product_types_min_start_time = {}
         product_types_max_start_time = {}
         for product_type in df["Product_type"].unique():
-- 
2.43.0


From 860839892c076448118ff4493ede8f5ac57d9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 73/81] fix: cut the warm-up phase of the production flow ratio
 by products

Cutting by the time of events kept the ends of activities without their starts, so that shares above 100 % and
below 0 % resulted.
---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index c20d50e..3e7fe22 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -864,7 +864,7 @@ class PostProcessor:
         df_finished_product = self.df_finished_product.copy()
 
         if self.warm_up_cutoff:
-            df_finished_product = df_finished_product.loc[df_finished_product["Time"] >= self.warm_up_cutoff_time]
+            df_finished_product = df_finished_product.loc[df_finished_product["Product"].isin(self.df_throughput_with_warum_up_cutoff["Product"])]
 
 
         # Production
-- 
2.43.0


From b553edf51b95f521764b61e4104eaecdf5464e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 74/81] fix: consider the warm-up cut-off of a runner in its
 aggregated results

---
 prodsys/util/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 796ad26..353d8a0 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -334,7 +334,7 @@ class Runner:
         Returns:
             dict: The aggregated simulation results.
         """
-        p = PostProcessor(df_raw=self.event_logger.get_data_as_dataframe())
+        p = PostProcessor(df_raw=self.event_logger.get_data_as_dataframe(), warm_up_cutoff=self.warm_up_cutoff, cut_off_method=self.cut_off_method)
         return p.get_aggregated_data()
 
     def save_results_as_csv(self, save_folder="data"):
-- 
2.43.0


From a9147f18e92a0540f657952ef8803e2271e76a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 75/81] fix: observe processes that were assigned but not
 started yet

---
 prodsys/simulation/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index d38399b..1d9e763 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
 class ProcessObservation(BaseModel):
     process: str
     product: str
-    activity: state.StateEnum
+    activity: Optional[state.StateEnum]
     state: state.StateTypeEnum
 
 class QueueObservation(BaseModel):
-- 
2.43.0


From 0004bf15f620ae72567b89f60784422b08e2b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 76/81] fix: pareto front of optimization results

---
 app/routers/optimization.py                   | 14 ++++++++---
 prodsys/optimization/optimization_analysis.py | 23 ++++++-------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index e039819..e614c1c 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -197,9 +197,17 @@ def register_adapter_with_evaluation(
     response_model=str,
 )
 def get_optimization_pareto_front(project_id: str, adapter_id: str):
-    IDs = optimization_analysis.get_pareto_solutions_from_result_files(
-        f"data/{project_id}/{adapter_id}/optimization_results.json"
-    )
+    adapter_object = prodsys_backend.get_adapter(project_id, adapter_id)
+    try:
+        IDs = optimization_analysis.get_pareto_solutions_from_result_files(
+            f"data/{project_id}/{adapter_id}/optimization_results.json",
+            optimization_util.get_weights(adapter_object, "max"),
+        )
+    except FileNotFoundError:
+        raise HTTPException(404, f"Optimization results not found for adapter {adapter_id} in project {project_id}")
+    for adapter in prodsys_backend.get_adapters(project_id):
+        if adapter.ID in IDs:
+            raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
     for solution_id in IDs:
         adapter_object = get_configuration_results_adapter_from_filesystem(
             project_id, adapter_id, solution_id
diff --git a/prodsys/optimization/optimization_analysis.py b/prodsys/optimization/optimization_analysis.py
index cd827e6..ac77006 100644
--- a/prodsys/optimization/optimization_analysis.py
+++ b/prodsys/optimization/optimization_analysis.py
@@ -1,6 +1,6 @@
 
 import pandas as pd
-from typing import List
+from typing import List, Tuple
 import json
 import plotly
 import plotly.graph_objects as go
@@ -99,29 +99,20 @@ def is_pareto_efficient(costs):
 
 def get_pareto_solutions_from_result_files(
     file_path: str,
+    weights: Tuple[float, ...],
 ) -> List[str]:
     """
     Analyses an optimization result file and returns the IDs of the pareto efficient solutions.
 
     Args:
         file_path (str): Filepath of the json file containing the optimization results.
+        weights (Tuple[float, ...]): Weights of the objectives in the order of the scenario, positive for objectives that are maximized and negative for objectives that are minimized.
 
     Returns:
         List[str]: List of IDs of the pareto efficient solutions.
     """
     df = read_optimization_results_file_to_df(file_path, label="optimizer")
-    df = df.drop_duplicates(
-        subset=["agg_fitness", "cost", "throughput", "wip", "optimizer"]
-    )
-    df["cost"] = df["cost"].astype(float)
-    df["agg_fitness"] = df["agg_fitness"].astype(float)
-    # df = df.loc[df["wip"] < 150]
-    # df = df.loc[df["throughput"] > 100]
-    # # df = df.loc[df["throughput_time"] < 100]
-    columns = ["cost", "throughput", "wip"]
-    # columns = ['throughput_time', 'throughput']
-    df_for_pareto = df[columns].copy()
-    df_for_pareto["throughput"] = -df_for_pareto["throughput"]
-    is_efficient = is_pareto_efficient(df_for_pareto.values)
-    df["is_efficient"] = is_efficient
-    return df.loc[df["is_efficient"]]["ID"].to_list()
+    columns = [f"KPI_{counter}" for counter in range(len(weights))]
+    df = df.drop_duplicates(subset=columns)
+    costs = -df[columns].astype(float).values * np.sign(weights)
+    return df.loc[is_pareto_efficient(costs)]["ID"].to_list()
-- 
2.43.0


From a18593ab563d41e7fa4d81ed1737769ad1306e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 77/81] fix: chart of mean WIP per station changed the mean WIP
 of the results

---
 prodsys/util/kpi_visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/kpi_visualization.py b/prodsys/util/kpi_visualization.py
index ee98b1f..928d593 100644
--- a/prodsys/util/kpi_visualization.py
+++ b/prodsys/util/kpi_visualization.py
@@ -349,7 +349,7 @@ def plot_util_WIP_resource(post_processor: post_processing.PostProcessor, normal
         post_processor (post_processing.PostProcessor): Post processor of the simulation.
         normalized (bool, optional): If True, the time per state is normalized with the total time of the simulation. Defaults to True.
     """
-    df_time_per_state = post_processor.df_mean_wip_per_station
+    df_time_per_state = post_processor.df_mean_wip_per_station.copy()
     df_time_per_state['mean_wip'] = np.maximum(np.ceil(df_time_per_state['mean_wip']), 1)
     fig1 = go.Figure()
     fig1.add_trace(go.Bar(name='mean_wip', x=df_time_per_state['Resource'], y=df_time_per_state['mean_wip'], marker_color='purple', yaxis='y2'))
-- 
2.43.0


From 7b351045bcbf8de8a798e4c3798f9646067804b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 78/81] fix: average WIP in the line balance chart counted
 products twice

---
 prodsys/util/kpi_visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/kpi_visualization.py b/prodsys/util/kpi_visualization.py
index 928d593..345ccbb 100644
--- a/prodsys/util/kpi_visualization.py
+++ b/prodsys/util/kpi_visualization.py
@@ -66,7 +66,7 @@ def plot_line_balance_kpis(post_processor: post_processing.PostProcessor, return
 
     fig.add_trace(go.Indicator(
         mode = "number",
-        value = round(np.mean(list(df_output['WIP']['WIP'].values()))),
+        value = round(post_processor.df_aggregated_WIP['Total']),
         title = {"text": "Average Work In Progress (WIP) [Products]"},
     ), row=1, col=2)
 
-- 
2.43.0


From 6bd3db56f93891ef5d317c3c00e1d0275943b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 79/81] fix: batches that wait for the same places do not take
 them twice

---
 prodsys/simulation/control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 1cd4fc6..02f9295 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -568,6 +568,8 @@ class BatchController(Controller):
 
             for simulation_product in products:
                 production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            # another batch may have started while this one was waiting, so only states that are still free can be used
+            production_states = resource.get_free_processes(process)
             # all products that are processed at the same time, also by other batches, count towards the capacity
             while (
                 len(production_states) < batch_size
-- 
2.43.0


From 0807953741ed87509cd16649f6d074cff2c12864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 80/81] fix: tabu search starts from the base configuration
 when no initial solution is given

---
 prodsys/optimization/tabu_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/optimization/tabu_search.py b/prodsys/optimization/tabu_search.py
index d0a346c..5b84307 100644
--- a/prodsys/optimization/tabu_search.py
+++ b/prodsys/optimization/tabu_search.py
@@ -233,6 +233,8 @@ def tabu_search_optimization(
         logger.warning("Both compound processes and normal processes are used. This may lead to unexpected results.")
     if not check_breakdown_states_available(base_configuration):
         create_default_breakdown_states(base_configuration)
+    if not initial_solution:
+        initial_solution = base_configuration.model_copy(deep=True)
 
     set_seed(hyper_parameters.seed)
 
-- 
2.43.0


From a05248dd87d5c7945fdc84fa1dd429d75bd9401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:23 +0000
Subject: [PATCH 81/81] fix: machines with several queues on one side lost
 their products

---
 prodsys/simulation/control.py   |  8 +++++---
 prodsys/simulation/resources.py | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 02f9295..fbbeda3 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -288,7 +288,7 @@ class ProductionController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues() # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for next_product in [product]:
                 if not resource.got_free.triggered:
@@ -587,7 +587,7 @@ class BatchController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues(batch_size) # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for product in products:
                 for next_product in [product]:
@@ -678,7 +678,9 @@ class TransportController(Controller):
         events = []
         if (isinstance(resource, resources.ProductionResource) or isinstance(resource, source.Source)):
             internal_queues = [queue for queue in resource.output_queues if not isinstance(queue, store.Store)]
-            for queue in internal_queues:
+            # the product lies in one of the queues, waiting for it in the other ones would never end
+            queues_with_product = [queue for queue in internal_queues if product.product_data in queue.items]
+            for queue in queues_with_product or internal_queues:
                 events.append(queue.get(filter=lambda x: x is product.product_data))
             if not events:
                 raise ValueError(f"No product in internal queue {resource.data.ID}")
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..b2aadc5 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -487,15 +487,15 @@ class ProductionResource(Resource):
         self.output_queues.extend(output_queues)
 
     def reserve_internal_input_queues(self):
+        # products are always put into the first internal queue, so only this one is reserved
         internal_queues = [q for q in self.input_queues if not isinstance(q, store.Store)]
-        for internal_queue in internal_queues:
+        for internal_queue in internal_queues[:1]:
             internal_queue.reserve()
 
-    def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
-        internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
-        for output_queue in internal_queues:
-            for i in range(batch_size):
-                output_queue.reserve()
+    def adjust_pending_put_of_output_queues(self, product_put_events: List[events.Event]):
+        # only the queues into which the products were put have to be adjusted
+        for product_put_event in product_put_events:
+            product_put_event.resource.reserve()
 
 class TransportResource(Resource):
     """
-- 
2.43.0

