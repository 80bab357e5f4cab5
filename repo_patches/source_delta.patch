From d8e28c0d0b85aa89bf4e8a219edc141abae318f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/57] fix: traversals no longer use asyncio.coroutine, which
 Python 3.11 removed

---
 .../rei/foundations/hierarchical_traversal_strategies.py  | 6 +++---
 .../rei/foundations/hypergraph_traversal_strategies.py    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..5c5e539 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(self._visitor_func(start))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,8 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            # Collect the result of the visit
+            _task_list.append(self._visitor_func(_next))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..880b7ea 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -47,16 +47,16 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 1055837dc8dce977db76725049c047b36f35588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 02/57] fix: tensor allocation no longer uses np.float, which
 NumPy removed

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From a4ac1f245e5ef0a55ccbfff58125a9e55837925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 03/57] fix: a traversal starts from its own empty fringe

A shallow copy shared the default queue between all traversals, so what an
interrupted one left behind was visited by the next one.
---
 .../rei/foundations/hierarchical_traversal_strategies.py       | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py         | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 5c5e539..3f8c91e 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor
@@ -22,7 +21,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                                      fringe: asyncio.Queue = asyncio.Queue()) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
         # Fringe setup
-        _fringe = copy.copy(fringe)
+        _fringe = type(fringe)()
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 880b7ea..1a562d9 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -101,7 +100,7 @@ class HypergraphTraversal(GraphVisitor):
             await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+        _fringe = type(fringe)()
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From 8f4eacc94a921ec1f92fd7f4335e48fb9158501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 04/57] fix: traversals, queries and factorization iterate
 instead of recursing

One recursive call per visited element raised RecursionError on graphs
of about a thousand elements.
---
 .../rei/foundations/hierarchical_traversal_strategies.py    | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py      | 3 +--
 framework_python/rei/foundations/query/search_elements.py   | 6 ++----
 framework_python/rei/hypergraph/factorization_operations.py | 5 +----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3f8c91e..de80348 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -35,12 +35,11 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             # Collect the result of the visit
             _task_list.append(self._visitor_func(_next))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 1a562d9..14f1731 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,7 +59,7 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
             match _next:
                 case HypergraphNode():
@@ -97,7 +97,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
         _fringe = type(fringe)()
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..888defe 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -54,7 +54,7 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
@@ -63,7 +63,6 @@ class QuerySearchSubElement(GraphQuery):
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,7 +72,7 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
@@ -87,7 +86,6 @@ class QuerySearchElement(GraphQuery):
             if __next.parent is not None:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..16163bd 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,7 +13,7 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next = await fringe.get()
             match __next:
                 case HypergraphNode():
@@ -30,9 +30,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From 0ec8df7c0a2c48c6346603bac6f65376eef025cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 05/57] fix: reject adding an ancestor below its own descendant

Only adding an element to itself was rejected; adding an ancestor created
a cycle in the hierarchy and an endless loop.
---
 framework_python/rei/foundations/conceptual_item.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..bdae721 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -85,8 +85,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
 
     def add_element(self, element):
         # Forbid hierarchy recursion
-        if element is self:
-            raise ErrorRecursiveHierarchy
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is element:
+                raise ErrorRecursiveHierarchy
+            ancestor = ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From 193f8ede1eae300de0ed574b78a8614c9ae543c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 06/57] fix: keep the name index consistent when a removal
 fails or stops early

A removal by name and identifier with the wrong name dropped the element
before raising, and a removal by name that was not consumed to its end left
the remaining children without index entries.
---
 framework_python/rei/foundations/conceptual_item.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index bdae721..78d4b21 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -119,8 +119,8 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
                 self._index_elements_by_name[id_name].pop(uuid)
+                el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 el.update()
@@ -130,10 +130,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 yield el
             else:
                 __tmp = [x for x in self._index_elements_by_name[id_name].values()]
-                # Reset indices
-                self._index_elements_by_name[id_name] = {}
                 for v in __tmp:
                     el = self._sub_elements.pop(v.uuid)
+                    self._index_elements_by_name[id_name].pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-- 
2.43.0


From d228a3fd3e9643bbc6e98efb8cd0b57af249c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/57] fix: add_elements and remove_elements perform their
 operations

asyncio.gather was given generators, so both raised TypeError.
---
 framework_python/rei/foundations/conceptual_item.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 78d4b21..4e1e8ce 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -212,10 +212,12 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        for x in elements:
+            if x.parent is not self:
+                self.add_element(x)
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        return [x for e in elements for x in self.remove_element(e[0], e[1])]
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0


From fbcdff5fb3627e7e8463da2ecd4cc6f84a930529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/57] fix: refresh depth and qualified names of the whole
 subtree on move and removal

Descendants of a moved element kept their old depth, and descendants of a
removed element kept the qualified name and depth below the old parent.
---
 framework_python/rei/foundations/conceptual_item.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 4e1e8ce..df7cb0c 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -108,7 +108,6 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
                     e.update()
             element.parent = self
-            element._depth = self._depth + 1
             # Subelement count increment
             self._cnt_subelements += 1
             # All-ever created subelement count
@@ -123,7 +122,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -136,7 +135,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -148,7 +147,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 # Invalidate element parent
                 el.parent = None
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -162,6 +161,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         __fringe.put(element)
         while not __fringe.empty():
             __next: HierarchicalElement = __fringe.get()
+            __next._depth = 0 if __next.parent is None else __next.parent._depth + 1
             __next.update()
             for e in __next.get_subelements(lambda x: True):
                 __fringe.put(e)
-- 
2.43.0


From 0e38ca329055f113fea31c9a5c59af39c2359a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 09/57] fix: compute the qualified name of deeply nested
 elements without recursion

---
 framework_python/rei/foundations/conceptual_item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index df7cb0c..45ea5fe 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -61,9 +61,10 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         self._parent = arg
 
     def update_qualified_name(self):
-        yield self._id_name
-        if self._parent is not None:
-            yield from self._parent.update_qualified_name()
+        element = self
+        while element is not None:
+            yield element._id_name
+            element = element._parent
 
     def update(self):
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From 9355263df133b5ac8f9af80284ef9b989966cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 10/57] fix: path lookup yields nothing for an unknown path and
 looks through every kind of element

A path whose first name was unknown raised KeyError, and one leading
through a relation or value raised AttributeError.
---
 .../rei/foundations/conceptual_item.py        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 45ea5fe..b87e56a 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -156,6 +156,20 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             else:
                 raise ErrorInvalidQuery
 
+    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
+        tokens = id_name.split('/')
+        if len(tokens) == 0:
+            raise InvalidQueryName
+        elif len(tokens) == 1:
+            if tokens[0] in self._index_elements_by_name:
+                yield from list(self._index_elements_by_name[tokens[0]].values())
+            else:
+                yield from []
+        else:
+            # Iterate all possible named elements
+            for v in self._index_elements_by_name.get(tokens[0], {}).values():
+                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+
     def __update_element(self, element):
         import queue
         __fringe = queue.Queue()
@@ -220,20 +234,6 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
         return [x for e in elements for x in self.remove_element(e[0], e[1])]
 
-    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
-        tokens = id_name.split('/')
-        if len(tokens) == 0:
-            raise InvalidQueryName
-        elif len(tokens) == 1:
-            if tokens[0] in self._index_elements_by_name:
-                yield from list(self._index_elements_by_name[tokens[0]].values())
-            else:
-                yield from []
-        else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
-
     def update(self):
         self._update_timestamp()
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From c99d77e540198b293f4bbff648a910405a03d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 11/57] fix: disconnect removes the port of the given relation

The removal generator was never consumed, so the port stayed; and relations
of two equally named edges share an identifier, so the wrong port was
forgotten.
---
 framework_python/rei/hypergraph/base_elements.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..48a1e31 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -36,7 +36,7 @@ class HypergraphElement(ConceptualItem):
         super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
         # Ports to deduce associated relations
-        self._ports: dict[bytes, HypergraphPort] = {}
+        self._ports: dict[HierarchicalElement, HypergraphPort] = {}
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
@@ -46,12 +46,13 @@ class HypergraphElement(ConceptualItem):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
                            port_name, el, self)
-        self._ports[el.uuid] = p
         self.add_element(p)
+        self._ports[el] = p
 
     def disconnect(self, el: HierarchicalElement):
-        p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        p = self._ports.pop(el)
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
 
     @property
     def sub_ports(self):
-- 
2.43.0


From 5f2dc0aca7ef930bca808ee3a98b6824574091aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 12/57] fix: elements can be removed from and moved out of an
 edge

The removed relation itself was iterated (TypeError), and removing any other
element, or a relation already numbered by its new edge, raised KeyError.
---
 framework_python/rei/hypergraph/base_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 48a1e31..ca823b3 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -148,12 +148,13 @@ class HypergraphEdge(HypergraphElement):
         super().add_element(element)
         match element:
             case HypergraphRelation():
-                self._sub_relations[element.cid] = element
+                self._sub_relations[element.uuid] = element
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            self._sub_relations.pop(v.uuid, None)
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From b7e61e113d36bd711e3a1366683546d682ee8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 13/57] fix: a relation removes the requested element

remove_element ignored its arguments and always tried to drop the endpoint,
so semantic values could not be removed from or moved out of a relation.
---
 framework_python/rei/hypergraph/base_elements.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index ca823b3..5ad80e8 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -117,9 +117,10 @@ class HypergraphRelation(HierarchicalElement):
             element.connect(self)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
+        for el in super().remove_element(id_name, uuid):
+            if el is self._endpoint:
+                self._endpoint = None
+            yield el
 
 
 class HypergraphEdge(HypergraphElement):
-- 
2.43.0


From 8355c907b23d3d92a6954b17ff8d1b7e3f267a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 14/57] fix: a rejected connection leaves no port at the
 endpoint

---
 framework_python/rei/hypergraph/base_elements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 5ad80e8..bbf8b12 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,6 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
+from rei.foundations.common_errors import ErrorDuplicateElement
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -140,6 +141,8 @@ class HypergraphEdge(HypergraphElement):
         rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,
                                  '/'.join([self.id_name, id_name]), endpoint, weight, direction=direction,
                                  semantic_value_node=semantic_value_node)
+        if rel.uuid in self._sub_elements:
+            raise ErrorDuplicateElement
         endpoint.connect(rel)
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
-- 
2.43.0


From 909bf58ef2574e037dcc8191f4486b119c8ae5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 15/57] fix: connect_2factor_edges connects the second group in
 its own direction

---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..8ed4b4b 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From 03b4606449d79e1e2fa409dce3310762f264205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 16/57] fix: check the number of values before creating the
 edge

A call rejected with ErrorInsufficientValues left an empty edge behind.
---
 framework_python/rei/factories/foundation_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 8ed4b4b..fa94509 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -38,14 +38,14 @@ class HypergraphFactory(AbstractElementFactory):
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
+        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_values:
             he.unary_connect(n, v, direction)
         return he
@@ -54,8 +54,6 @@ class HypergraphFactory(AbstractElementFactory):
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
@@ -64,6 +62,8 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
+        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-- 
2.43.0


From 0877395e57185118faacaf6afec4d7202b03121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 17/57] fix: the stamped qualified name is a string, not a
 tuple

---
 framework_python/rei/factories/abstract_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index 84bade4..f1b668a 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -20,4 +20,4 @@ class AbstractElementFactory():
         return f"{name}.{self._clock.get_time_ns()}"
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
-        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}",
+        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
-- 
2.43.0


From 9048435f74b53dfc038f72611270be7b33318f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 18/57] fix: decoding a graph restores the direction of its
 relations

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..0375681 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,7 +71,8 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From 8db426501682fdb615483b87fdb618724f25560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 19/57] fix: decoding a graph restores the ports of connected
 elements

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 0375681..0e3ecf3 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -73,6 +73,7 @@ class GraphTensorCbor(object):
         for rel in frag[2]:
             _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
                                      direction=EnumRelationDirection(rel[3]))
+            _elements[rel[4]].connect(_el)
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From 4d7ef1700ed457330712932f6629d63af50ec920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 20/57] fix: update_values keeps the dimension of a value node
 in step

Iteration used the length of the first values, and the node shared the
caller's list.
---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 5ae1b074827f306d64c11a8c72276af83679774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 21/57] fix: the query engine runs its queries, in order and
 any number of times

asyncio.wait rejects coroutines since Python 3.11 and an empty list always;
a second run awaited the coroutines of the first one again.
---
 framework_python/rei/query/query_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..fc96614 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,7 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        self.__prefilter = []
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -76,7 +77,8 @@ class HypergraphQueryEngine(HypergraphNode):
         prefilter = self.prefilter_queries()
         for i in prefilter:
             __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+        for t in __tasks:
+            await t
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -89,7 +91,8 @@ class HypergraphQueryEngine(HypergraphNode):
         tasks = []
         for i in self.prefilter_queries():
             tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
+        for t in tasks:
+            loop.run_until_complete(t)
         results = []
         for i in self.__queries.values():
             results.extend(loop.run_until_complete(i.get_list_results()))
-- 
2.43.0


From df5167836f56432c82a09458aeeb5cf4070f7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 22/57] fix: a search does not skip elements that share an
 identifier

Equally named edges of different containers have the same identifier.
---
 framework_python/rei/foundations/query/search_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 888defe..b774ed3 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -74,13 +74,13 @@ class QuerySearchElement(GraphQuery):
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-            self.visited_set.add(__next.uuid)
+            self.visited_set.add(__next)
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
-                if n.uuid not in self.visited_set:
+                if n not in self.visited_set:
                     await fringe.put(n)
                     fringe.task_done()
             if __next.parent is not None:
-- 
2.43.0


From 221e7ef04dce83608280e61329c365b5e84e5a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 23/57] fix: relation factorization handles bidirectional and
 one-sided edges

An edge without an outgoing relation raised KeyError, and a bidirectional
relation was not treated as outgoing.
---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 16163bd..0f5500f 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -80,14 +80,14 @@ class RelationFactorization2SubsetOperation(GraphMonad):
                 if __rel.parent.uuid not in self.incoming_relations:
                     self.incoming_relations[__rel.parent.uuid] = []
                 self.incoming_relations[__rel.parent.uuid].append(__rel)
-            elif __rel.direction == EnumRelationDirection.OUTWARDS:
+            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent.uuid not in self.outgoing_relations:
                     self.outgoing_relations[__rel.parent.uuid] = []
                 self.outgoing_relations[__rel.parent.uuid].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From 6f66d8617aa6643603dce25516273d8ebbfdf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 24/57] fix: encode the context as the root of its message even
 when it has a parent

The message named the parent outside the message, so decoding raised
KeyError.
---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..dfbeda1 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -51,7 +51,7 @@ class CoordinateObjectTransformer(GraphMonad):
                 self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
 
     def __msg_node_tuple(self, el: HypergraphNode):
-        if el.parent is None:
+        if el is self._context:
             return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), 0, el.qualified_name.encode('utf-8')
         return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')
 
-- 
2.43.0


From fc5e916f0be99eddf430d94f7d300874d79c37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 25/57] fix: encoding twice does not repeat relations and
 tensor entries

The entries of earlier encodings accumulated, and decoding the second
message raised ErrorDuplicateElement.
---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index dfbeda1..00be207 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -41,6 +41,9 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +74,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From 830a62172dc773a6db5180f8090d4d73354ba37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 26/57] fix: relation factorization does not mix edges that
 share an identifier

---
 .../rei/hypergraph/factorization_operations.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 0f5500f..8f97d34 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -77,13 +77,13 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         for __rel in filter(lambda x: isinstance(x, HypergraphRelation), start):
             __rel: HypergraphRelation
             if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.incoming_relations:
-                    self.incoming_relations[__rel.parent.uuid] = []
-                self.incoming_relations[__rel.parent.uuid].append(__rel)
+                if __rel.parent not in self.incoming_relations:
+                    self.incoming_relations[__rel.parent] = []
+                self.incoming_relations[__rel.parent].append(__rel)
             if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.outgoing_relations:
-                    self.outgoing_relations[__rel.parent.uuid] = []
-                self.outgoing_relations[__rel.parent.uuid].append(__rel)
+                if __rel.parent not in self.outgoing_relations:
+                    self.outgoing_relations[__rel.parent] = []
+                self.outgoing_relations[__rel.parent].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-- 
2.43.0


From e3aac988d3175e1e385ff0098494bdd44111423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 27/57] fix: factorization visits each element once

A node contained in the edges it is connected by kept the traversal running
for ever, and a node reached twice repeated the pairs of its edges.
---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 8f97d34..39d8a45 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,8 +13,12 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
+        __visited = set()
         while not fringe.empty():
             __next = await fringe.get()
+            if __next in __visited:
+                continue
+            __visited.add(__next)
             match __next:
                 case HypergraphNode():
                     __next: HypergraphNode
-- 
2.43.0


From c41e0036cfbdb702b39f375483bce0dc97ea5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 28/57] fix: a hypergraph traversal visits each element once

An edge connected to its own container kept an unlimited traversal running
for ever; also drop the debug print of every port.
---
 .../rei/foundations/hypergraph_traversal_strategies.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 14f1731..3033b62 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -38,8 +38,6 @@ class HypergraphTraversal(GraphVisitor):
             _fringe.task_done()
 
     async def __fill_node(self, el: HypergraphNode, _fringe, current_depth: int):
-        for v in el.sub_ports:
-            print(v)
         for v in el.sub_edges:
             await _fringe.put((v, current_depth))
             _fringe.task_done()
@@ -59,8 +57,12 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
+        __visited = set()
         while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
+            if _next in __visited:
+                continue
+            __visited.add(_next)
             match _next:
                 case HypergraphNode():
                     _next: HypergraphNode
-- 
2.43.0


From 476649f19ce7d31655a4bcac5cf2d38b23009b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 29/57] fix: cylinder inertia reads radius and length in the
 order of the geometry

The exported cylinder takes its values as radius and length; the inertia
took them as length and radius.
---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..87e6ec6 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -56,8 +56,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
-- 
2.43.0


From 4b1ecb772057e9d5f8641829540c9166184b1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 30/57] fix: compute the inertia of an ellipsoid given by three
 radii

None was returned and the export failed with TypeError.
---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 87e6ec6..055163e 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -67,5 +67,5 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
-
-
+    a, b, c = geom['values']
+    return [mass/5.0*(b*b + c*c), mass/5.0*(a*a + c*c), mass/5.0*(a*a + b*b), 0.0, 0.0, 0.0]
-- 
2.43.0


From 65d2b047f042ec4e54771b3d2d12961cad55777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 31/57] fix: export a translational joint as prismatic, not
 fixed

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6c06879..1cee0ef 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -108,6 +108,8 @@ def __encode_joint_type(joint_type: str):
             return "fixed"
         case "rev":
             return "revolute"
+        case "tr":
+            return "prismatic"
     return "fixed"
 
 
-- 
2.43.0


From 17526652c1262e5b27fc6e798bbcf127450e42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 32/57] fix: export links that are connected by edges other
 than joints

The search for a joint raised StopIteration instead of finding none.
---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 1cee0ef..d68803d 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -53,7 +53,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
         # Normal
         x: HypergraphPort
         __rel: HypergraphRelation = x.endpoint
-        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))
+        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)
         if sub_el is not None:
             if __rel.direction == EnumRelationDirection.OUTWARDS:
                 e: HypergraphEdge = x.endpoint.parent
-- 
2.43.0


From 5dd83e059bb36afef0045c3d5243061a31096e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 33/57] fix: separate the levels of nested reference prefixes
 in exported names

Joints referred to a.b.link while the link was exported as ab.link.
---
 framework_python/rei/format/mapping/cognilang_sdf_icon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 9117718..5a2596c 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -77,7 +77,7 @@ class CognilangSdfIcon(CognitiveIcon):
 
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
-        prefix_t1 = prefix + joint.parent.id_name
+        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
             joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
         joint_query = HierarchicalPrepositionQuery(
-- 
2.43.0


From bc8048e2eb5e2f306cb0a3194e6bdf581d5d3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 34/57] fix: a search does not return a cached element that was
 moved, removed or is out of reach

---
 .../rei/foundations/query/search_elements.py  | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index b774ed3..73936d0 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -36,9 +36,21 @@ class GraphQuery(GraphMonad, ABC):
     async def _traverse(self, fringe: asyncio.Queue):
         raise NotImplementedError
 
+    def _search_root(self, start):
+        return start
+
+    def _is_cached_below(self, root) -> bool:
+        # A cached element may have been renamed or moved away since it was found
+        element = self._element_cache.get(self.query_def)
+        if element is None or element.qualified_name != self.query_def:
+            return False
+        while element is not None and element is not root:
+            element = element.parent
+        return element is root
+
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self._result = []
-        if self.query_def in self._element_cache:
+        if self._is_cached_below(self._search_root(start)):
             self._result = [self._element_cache[self.query_def]]
             return []
         __fringe, _task_list = self._setup_query()
@@ -87,6 +99,11 @@ class QuerySearchElement(GraphQuery):
                 await fringe.put(__next.parent)
                 fringe.task_done()
 
+    def _search_root(self, start):
+        while start.parent is not None:
+            start = start.parent
+        return start
+
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
         return await super().execute(start)
-- 
2.43.0


From eccfb5b938a698365a3d7101eb4a73bb2216f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 35/57] fix: reject a semantic value that contains the edge
 before a connection is begun

---
 framework_python/rei/hypergraph/base_elements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index bbf8b12..6dd9cbe 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,7 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
-from rei.foundations.common_errors import ErrorDuplicateElement
+from rei.foundations.common_errors import ErrorDuplicateElement, ErrorRecursiveHierarchy
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -143,6 +143,12 @@ class HypergraphEdge(HypergraphElement):
                                  semantic_value_node=semantic_value_node)
         if rel.uuid in self._sub_elements:
             raise ErrorDuplicateElement
+        # The semantic value is placed below this edge, so it may not contain it
+        ancestor = self if semantic_value_node is not None else None
+        while ancestor is not None:
+            if ancestor is semantic_value_node:
+                raise ErrorRecursiveHierarchy
+            ancestor = ancestor.parent
         endpoint.connect(rel)
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
-- 
2.43.0


From 5bfb2ae7646a4063bc54c7a99d8087c94c4f8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 36/57] fix: return the results of a query in its own place
 when it was added more than once

---
 framework_python/rei/query/query_engine.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index fc96614..b1ee629 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -73,27 +73,21 @@ class HypergraphQueryEngine(HypergraphNode):
         return task_list
 
     async def execute(self):
-        __tasks = []
-        prefilter = self.prefilter_queries()
-        for i in prefilter:
-            __tasks.extend(await i)
-        for t in __tasks:
-            await t
         res = []
-        __task_list = await self.task_result_queries_lists()
-        for t in __task_list:
-            res.extend(await t)
+        # One query after the other: the same query may have been added more than once
+        for e in self.__queries.values():
+            for t in await e.prefilter():
+                await t
+            res.extend(await e.get_list_results())
         return res
 
     def execute_all_queries(self):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
-        tasks = []
-        for i in self.prefilter_queries():
-            tasks.extend(loop.run_until_complete(i))
-        for t in tasks:
-            loop.run_until_complete(t)
         results = []
+        # One query after the other: the same query may have been added more than once
         for i in self.__queries.values():
+            for t in loop.run_until_complete(i.prefilter()):
+                loop.run_until_complete(t)
             results.extend(loop.run_until_complete(i.get_list_results()))
         return results
\ No newline at end of file
-- 
2.43.0


From 91ae82d1f481978b4a5a8a65f0718df8cdb99763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 37/57] fix: a query run that failed leaves no results for the
 next run

---
 framework_python/rei/query/query_engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index b1ee629..bffcad9 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -28,6 +28,8 @@ class HierarchicalPrepositionQuery(GraphMonad):
 
     async def prefilter(self):
         self.__prefilter = []
+        # An earlier run that failed half way leaves no results behind
+        self.__result = asyncio.Queue()
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
-- 
2.43.0


From 0689e6a2ef7288bf12dfe44bd4864963f2d558fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 38/57] fix: export every visual of a link with its own
 material

---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..1ca4625 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -105,7 +105,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From f18d756e41e40f48962fb4e4cd00b4615e31a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 39/57] fix: look up paths of any length

---
 .../rei/foundations/conceptual_item.py             | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index b87e56a..42d0c9a 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -160,15 +160,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         tokens = id_name.split('/')
         if len(tokens) == 0:
             raise InvalidQueryName
-        elif len(tokens) == 1:
-            if tokens[0] in self._index_elements_by_name:
-                yield from list(self._index_elements_by_name[tokens[0]].values())
-            else:
-                yield from []
-        else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name.get(tokens[0], {}).values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+        # Follow the names level by level, all elements that carry them
+        elements = [self]
+        for token in tokens:
+            elements = [v for e in elements for v in e._index_elements_by_name.get(token, {}).values()]
+        yield from elements
 
     def __update_element(self, element):
         import queue
-- 
2.43.0


From 4c243ce275df47cc7963da8e6a19cee44b65babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 40/57] fix: disconnect does not remove a port of another
 relation

---
 framework_python/rei/hypergraph/base_elements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 6dd9cbe..baa4f5f 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -52,6 +52,9 @@ class HypergraphElement(ConceptualItem):
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el)
+        if p.parent is not self:
+            # The port was removed; another port may have taken its identifier
+            raise KeyError(el)
         for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
             pass
 
-- 
2.43.0


From 80b8c471c39c8324190d8f8cf998e5cbdfab4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 41/57] fix: factorization pairs endpoints that are different
 elements with one identifier

---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 39d8a45..4b9d83c 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -60,7 +60,7 @@ class Factorization2SubsetOperation(GraphMonad):
             for e in i_e:
                 o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
                 for e1 in o_e:
-                    if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:
+                    if (e.endpoint is not e1.endpoint) or self.self_loop:
                         self.__relation_list.append([e, e1])
         return self.__relation_list
 
@@ -92,7 +92,7 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
                 for o_e in self.outgoing_relations.get(k, []):
-                    if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
+                    if (o_e.endpoint is not i_e.endpoint) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
         return self.__relation_list
-- 
2.43.0


From 07e8edb0a4338a14248e7cbbada045744cf9a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 42/57] fix: relation factorization does not pair relations
 that were removed from their edges

---
 framework_python/rei/hypergraph/factorization_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4b9d83c..bd98927 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -80,6 +80,9 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         # Collect incoming and outgoing edges
         for __rel in filter(lambda x: isinstance(x, HypergraphRelation), start):
             __rel: HypergraphRelation
+            if not isinstance(__rel.parent, HypergraphEdge):
+                # Removed relations belong to no common edge
+                continue
             if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent not in self.incoming_relations:
                     self.incoming_relations[__rel.parent] = []
-- 
2.43.0


From ab40a1996dd12eea570de31078887d357e977722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 43/57] fix: calculate the inertia of boxes

---
 .../rei/format/phys/inertia_context.py            | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 055163e..b8ec595 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -1,7 +1,8 @@
 
 from lxml import etree
 
-from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry
+from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry, \
+    PolyhedronGeometry
 from rei.hypergraph.base_elements import HypergraphNode
 
 
@@ -30,6 +31,8 @@ def encode_inertia_element(element):
                             inertia_values = calc_cylinder_inertia(m, __g)
                         case EllipsoidGeometry():
                             inertia_values = calc_ellipsoid_inertia(m, __g)
+                        case PolyhedronGeometry():
+                            inertia_values = calc_box_inertia(m, __g)
             # Add inertia matrix elements
             el_ixx = etree.Element("ixx")
             el_ixx.text = str(inertia_values[0])
@@ -69,3 +72,13 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
     a, b, c = geom['values']
     return [mass/5.0*(b*b + c*c), mass/5.0*(a*a + c*c), mass/5.0*(a*a + b*b), 0.0, 0.0, 0.0]
+
+def calc_box_inertia(mass: float, geom: PolyhedronGeometry):
+    match geom['values']:
+        case [a]:
+            b = c = a
+        case [a, b, c]:
+            pass
+        case _:
+            return [1.0, 1.0, 1.0, 0.0, 0.0, 0.0]
+    return [mass/12.0*(b*b + c*c), mass/12.0*(a*a + c*c), mass/12.0*(a*a + b*b), 0.0, 0.0, 0.0]
-- 
2.43.0


From 32795240f8b2626dc3ed0e86e0eb4e83fc01a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 44/57] fix: follow references of a geometry to the end, for
 its inertia as well

---
 .../rei/format/phys/inertia_context.py        |  5 ++--
 .../rei/format/phys/solid_geometry_context.py | 27 +++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b8ec595..9511108 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -1,7 +1,8 @@
 
 from lxml import etree
 
-from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry, \
+from rei.format.phys.solid_geometry_context import collect_geometries
+from rei.format.semantics.CognitiveEntity import InertiaElement, CylinderGeometry, EllipsoidGeometry, \
     PolyhedronGeometry
 from rei.hypergraph.base_elements import HypergraphNode
 
@@ -11,7 +12,7 @@ def encode_inertia_element(element):
     __geom = []
     for _el in element.parent.get_subelements(lambda x: isinstance(x, HypergraphNode)):
         for _geom_node in _el.get_subelements(lambda x: isinstance(x, HypergraphNode)):
-            __geom = list(_geom_node.get_subelements(lambda x: isinstance(x, GeometryNode)))
+            __geom = list(collect_geometries(_geom_node))
             break
         if len(__geom) > 0:
             break
diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index 1ca4625..d8a9366 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -41,23 +41,28 @@ def encode_typegeometry_element(e: GeometryNode) -> etree.Element:
     return el_geom
 
 
+def collect_geometries(element, visited=None):
+    """Geometries of an element and those of the elements it refers to"""
+    visited = [] if visited is None else visited
+    if any(x is element for x in visited):
+        return
+    visited.append(element)
+    yield from element.get_subelements(lambda x: isinstance(x, GeometryNode))
+    # Check reference
+    for e in element.get_subelements(lambda x: isinstance(x, HypergraphPort)):
+        __ref_: HypergraphEdge = e.endpoint.parent
+        for x in __ref_.get_outgoing_relations():
+            for g in x.endpoint.get_subelements(lambda x: isinstance(x, HypergraphNode)):
+                yield from collect_geometries(g, visited)
+
+
 def extract_geometry_element(element):
-    for e in element.get_subelements(lambda x: isinstance(x, GeometryNode)):
+    for e in collect_geometries(element):
         el_top_geom = etree.Element("geometry")
         el_geom = encode_typegeometry_element(e)
         if el_geom is not None:
             el_top_geom.append(el_geom)
         yield el_top_geom
-    # Check reference
-    for e in element.get_subelements(lambda x: isinstance(x, HypergraphPort)):
-        __ref_: HypergraphEdge = e.endpoint.parent
-        for x in __ref_.get_outgoing_relations():
-            for g in x.endpoint.get_subelements(lambda x: isinstance(x, HypergraphNode)):
-                for __g in g.get_subelements(lambda x: isinstance(x, GeometryNode)):
-                    el_top_geom = etree.Element("geometry")
-                    el_geom = encode_typegeometry_element(__g)
-                    el_top_geom.append(el_geom)
-                    yield el_top_geom
 
 
 def encode_visual_elements(element: HypergraphElement, material: VisualMaterial, prefix=""):
-- 
2.43.0


From 16cf8d9c3cf30545cabe1b397e9b6e4d1e4631a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 45/57] fix: joints with the world refer to it under any prefix

---
 .../phys/kinematics/kinematic_semantic_context.py  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index d68803d..e06de8b 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -122,6 +122,13 @@ def default_joint_name(j1: HypergraphRelation, prefix: str = ""):
     return join_w_prefix_separator([jrel.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
 
 
+def frame_name(name: str, prefix: str = ""):
+    # The world is the same for every prefix
+    if name == "world":
+        return name
+    return join_w_prefix_separator([name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
+
+
 def joint_base_element(j0: HypergraphRelation, j1: HypergraphRelation, prefix=""):
     return joint_base_element_endpoint(j0, j1, default_joint_name(j1, prefix), j1.endpoint.id_name, prefix)
 
@@ -133,8 +140,8 @@ def joint_base_element_endpoint(j0, j1, joint_name: str, child_endpoint_name, pr
     el_joint_parent = etree.Element("parent")
     # Child
     el_joint_child = etree.Element("child")
-    el_joint_child.text = join_w_prefix_separator([child_endpoint_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
-    el_joint_parent.text = join_w_prefix_separator([j0.endpoint.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
+    el_joint_child.text = frame_name(child_endpoint_name, prefix)
+    el_joint_parent.text = frame_name(j0.endpoint.id_name, prefix)
     # Add joint parent-childs
     joint_el.append(el_joint_parent)
     joint_el.append(el_joint_child)
@@ -155,8 +162,7 @@ def joint_base_element_endpoint(j0, j1, joint_name: str, child_endpoint_name, pr
     # Rigid transformation
     for x in jrel.get_subelements(lambda x: isinstance(x, RigidTransformation)):
         el_joint_pose = extract_rigid_transformation_element(x)
-        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(
-            [j0.endpoint.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
+        el_joint_pose.attrib['relative_to'] = frame_name(j0.endpoint.id_name, prefix)
         # Add pose to joint
         joint_el.append(el_joint_pose)
     # Return joint element
-- 
2.43.0


From 109cafdd628ab3d312512809a4262ed1841d95d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 46/57] fix: a graph that is referred to does not bring along
 graphs defined in it

---
 .../rei/format/mapping/cognilang_sdf_icon.py       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 5a2596c..800d390 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -57,12 +57,18 @@ class CognilangSdfIcon(CognitiveIcon):
     def __is_kinematic_graph(el: HypergraphNode):
         return len(list(el.get_subelements(lambda x: isinstance(x, KinematicGraphDefinition)))) > 0
 
+    @staticmethod
+    def __own_elements(graph: HypergraphNode):
+        # Graphs defined in a graph are not part of it, only those that are referred to
+        return lambda x: x is graph or not CognilangSdfIcon.__is_kinematic_graph(x)
+
     async def get_canonical_link(self, graph: HypergraphNode) -> typing.Set:
         __sub_engine = HypergraphQueryEngine("engine", b'00', "engine/engine", self.__sub_engine.clock, None)
         __sub_engine.clear()
         link_query = HierarchicalPrepositionQuery(
-            graph, lambda x: isinstance(x, KinematicLink), lambda x: True)
-        joint_query = HierarchicalPrepositionQuery(graph, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            graph, lambda x: isinstance(x, KinematicLink), self.__own_elements(graph))
+        joint_query = HierarchicalPrepositionQuery(
+            graph, lambda x: isinstance(x, KinematicJoint), self.__own_elements(graph))
         __sub_engine.add_query(f'{graph.id_name}_link_query', link_query)
         __sub_engine.add_query(f'{graph.id_name}_joint_query', joint_query)
         res = await __sub_engine.execute()
@@ -79,9 +85,9 @@ class CognilangSdfIcon(CognitiveIcon):
         self.__sub_engine.clear()
         prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicLink), self.__own_elements(joint.endpoint))
         joint_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicJoint), self.__own_elements(joint.endpoint))
         self.__sub_engine.add_query(f'{joint.id_name}_link_query', link_query)
         self.__sub_engine.add_query(f'{joint.id_name}_joint_query', joint_query)
         res = await self.__sub_engine.execute()
-- 
2.43.0


From ac496952c3b2eace33e0bf1b77de76069bb98f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 47/57] fix: connect every body that refers to a geometry when
 reading an entity

Only the first reference to each body was connected, later ones got no
geometry at all.
---
 .../rei/format/mapping/cognilang_file_icon.py       | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 782b77c..fa5216d 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -134,12 +134,13 @@ class CognilangParserFileIcon(CogniLangVisitor):
         parent_graph_name = '/'.join(list(self.__get_parent_name(ctx))[::-1][:-2])
         parent_graph: HypergraphNode = self._element_cache[parent_graph_name]
         _el_ref, _inferred_name = self.__search_for_reference(ref_func(ctx).ref_(), ctx)
-        if _inferred_name not in self._reference_cache:
-            ref_e = self.__factory.create_hyperedge(
-                parent_graph, f"ref_{container_node.id_name}_{str(ref_func(ctx).ref_().ID())}")
-            ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
-            ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
-            self._reference_cache[_inferred_name] = ref_e
+        # Every referring element has its own edge, named after its link, itself and what it refers to
+        link = container_node.parent.parent
+        ref_e = self.__factory.create_hyperedge(
+            parent_graph, f"ref_{link.id_name}.{container_node.id_name}.{str(ref_func(ctx).ref_().ID())}")
+        ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
+        ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
+        self._reference_cache[container_node.qualified_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
         yield from self.__extract_float_vector_values(ctx.float_vector())
-- 
2.43.0


From b5eb121805761a30be18f8330f3006a3e101299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 48/57] fix: joints refer to nodes when reading an entity

A link named like its graph was taken for the semantic element of the
graph.
---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index fa5216d..63c1c06 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -64,7 +64,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
             if reference_name == "world":
                 return self._element_cache["world"], reference_name
             else:
-                return list(parent.get_element_by_id_name(reference_name))[0], reference_name
+                return next(x for x in parent.get_element_by_id_name(reference_name)
+                            if isinstance(x, HypergraphNode)), reference_name
 
     def __extract_joint_relation(self, ctx: CogniLangParser.Joint_relationContext, parent: HypergraphElement):
         __endpoint, reference_name = self.__lookup_reference(ctx, parent)
-- 
2.43.0


From 7cbb5110597425bae38273cbfc3b0703be14daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 49/57] fix: read several bodies without a name in one link

They all got the same name, the second one was refused as a duplicate.
---
 .../rei/format/mapping/cognilang_file_icon.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 63c1c06..676ac38 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -264,9 +264,20 @@ class CognilangParserFileIcon(CogniLangVisitor):
         self._element_cache[_el.qualified_name] = _el
         return self.visitChildren(ctx)
 
+    def __body_name(self, ctx, parent_name: str, default: str) -> str:
+        """
+        Name of a visual or collision body, the ones without a name are numbered
+        """
+        if ctx.ID() is not None:
+            return str(ctx.ID())
+        i = 0
+        while f"{parent_name}/{default}.{i}" in self._element_cache:
+            i += 1
+        return f"{default}.{i}"
+
     def visitVisual_node(self, ctx: CogniLangParser.Visual_nodeContext):
         _parent = self.__generate_parent_node_name(ctx)
-        _name = str(ctx.ID())
+        _name = self.__body_name(ctx, _parent, "viz")
         # Create node
         _el = self.__factory.generate_node(_name, self._element_cache[_parent])
         self._element_cache[_el.qualified_name] = _el
@@ -277,10 +288,7 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def visitCollision_node(self, ctx: CogniLangParser.Collision_nodeContext):
         _parent = self.__generate_parent_node_name(ctx)
-        if ctx.ID() is None:
-            _name = "/".join([_parent, "coll"])
-        else:
-            _name = str(ctx.ID())
+        _name = self.__body_name(ctx, _parent, "coll")
         # Create node
         _el = self.__factory.generate_node(_name, self._element_cache[_parent])
         self._element_cache[_el.qualified_name] = _el
-- 
2.43.0


From 6204044c1999845373ce0ac4c75f57511e0c7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 50/57] fix: the pose of a joint relation read is a value node

Relations are weighted with value nodes; traversing an entity read from a
description stopped at the list found there.
---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 676ac38..a3c19dd 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -87,7 +87,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
         if ctx.rigid_transformation() is not None:
             _sv_trans, _translation, _rotation = self.__extract_rigid_transformation_element(ctx, __semantic_value_node)
             # Set rigid transformation as a value
-            values = [_translation, _rotation]
+            values = self.__factory.create_value(
+                None, f"{__joint_name}_weight", [*_translation, *_rotation])
         # Extract rigid transformation
         return __endpoint, __direction, values, __semantic_value_node
 
-- 
2.43.0


From 98ca923abbffc7e3528ced8a7b21492049e9a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:16 +0000
Subject: [PATCH 51/57] fix: read the dimensions of a geometry given as a
 parameter

The grammar allows a parameter in the place of the whole vector, reading
it stopped with an error.
---
 .../rei/format/mapping/cognilang_file_icon.py  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index a3c19dd..a95dc02 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -145,16 +145,22 @@ class CognilangParserFileIcon(CogniLangVisitor):
         self._reference_cache[container_node.qualified_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
-        yield from self.__extract_float_vector_values(ctx.float_vector())
+        if ctx.ref_() is not None:
+            yield from self.__extract_parameter_values(ctx.ref_())
+        else:
+            yield from self.__extract_float_vector_values(ctx.float_vector())
+
+    def __extract_parameter_values(self, ctx: CogniLangParser.Ref_Context):
+        __ref_name = str(ctx.ID())
+        p = next(self.__parameters.get_subelements(
+            lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
+        for _p in p.get_values():
+            yield float(_p)
 
     def __extract_float_vector_values(self, ctx: CogniLangParser.Float_vectorContext, parent=None):
         for x in ctx.value():
             if x.ref_() is not None:
-                __ref_name = str(x.ref_().ID())
-                p = next(self.__parameters.get_subelements(
-                    lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
-                for _p in p.get_values():
-                    yield float(_p)
+                yield from self.__extract_parameter_values(x.ref_())
             else:
                 yield float(str(x.FLOAT()))
 
-- 
2.43.0


From dd0f0fd25af0bfaa1b41d499b947692e9c22196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 52/57] fix: the projected entropy of a graph with an
 eigenvalue of zero is a number

---
 framework_python/rei/tensor/tensor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..79f4c33 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -49,7 +49,7 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
 
     def entropy_projected_vector(self):
         v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])
-        return -v*np.log2(v)
+        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)
 
     def entropy_projected(self):
         return np.sum(self.entropy_projected_vector())
-- 
2.43.0


From bcc3b2d6a19e6003e28f7049b2feec0598290382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 53/57] fix: links of a referred graph are relative to a frame
 that is exported

---
 .../rei/format/mapping/cognilang_sdf_icon.py       | 14 +++++++-------
 .../phys/kinematics/kinematic_semantic_context.py  | 11 +++++++----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 800d390..f1ebfbe 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -29,10 +29,10 @@ class CognilangSdfIcon(CognitiveIcon):
         else:
             self.current_model.append(element)
 
-    def encode_element(self, element, prefix=""):
+    def encode_element(self, element, prefix="", connected=None):
         match element:
             case KinematicLink():
-                link_el = encode_link_element(element, prefix)
+                link_el = encode_link_element(element, prefix, connected)
                 # Add link to current model
                 self.__add_model_element(link_el)
                 # Try to process inertia as well
@@ -81,7 +81,7 @@ class CognilangSdfIcon(CognitiveIcon):
         return links
 
 
-    async def encode_sub_graph(self, joint, prefix):
+    async def encode_sub_graph(self, joint, prefix, connected):
         self.__sub_engine.clear()
         prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
@@ -91,9 +91,9 @@ class CognilangSdfIcon(CognitiveIcon):
         self.__sub_engine.add_query(f'{joint.id_name}_link_query', link_query)
         self.__sub_engine.add_query(f'{joint.id_name}_joint_query', joint_query)
         res = await self.__sub_engine.execute()
-        await self.encode(res, prefix_t1)
+        await self.encode(res, prefix_t1, connected)
 
-    async def encode(self, elements, prefix=""):
+    async def encode(self, elements, prefix="", connected=None):
         cognitive_entities = filter(lambda x: isinstance(x, CognitiveEntity), elements)
         # Cognitive elements
         for i in cognitive_entities:
@@ -101,7 +101,7 @@ class CognilangSdfIcon(CognitiveIcon):
         # Nodes
         links = filter(lambda x: isinstance(x, KinematicLink), elements)
         for i in links:
-            self.encode_element(i, prefix)
+            self.encode_element(i, prefix, connected)
         # Joint subset factorization
         __selected_elements = [x.parent for x in filter(lambda x: isinstance(x, KinematicLink), elements)]
         __selected_elements.extend([x.parent for x in filter(lambda x0: isinstance(x0, KinematicJoint), elements)])
@@ -122,7 +122,7 @@ class CognilangSdfIcon(CognitiveIcon):
                     j0, j1, join_w_prefix_separator([j1.parent.id_name, "connect", __canonical_link.id_name], '.', prefix),
                     f"{j1.parent.id_name}.{__canonical_link.id_name}", prefix)
                 self.__add_model_element(joint_el)
-                await self.encode_sub_graph(j1, prefix)
+                await self.encode_sub_graph(j1, prefix, __canonical_link.parent)
 
 
 
diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index e06de8b..c75a734 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -44,7 +44,10 @@ def get_parent_kinematic_graph(node: HypergraphNode):
     return None, None
 
 
-def __obtain_relative_frame_name(node: HypergraphNode):
+def __obtain_relative_frame_name(node: HypergraphNode, connected: HypergraphNode = None):
+    # The link that connects a referred graph is relative to the joint made for the reference
+    if node is connected:
+        return '.'.join(["connect", node.id_name])
     kin_graph, parent_kin_graph = get_parent_kinematic_graph(node)
     #print(parent_kin_graph.id_name)
     # Check relative frame
@@ -64,17 +67,17 @@ def __obtain_relative_frame_name(node: HypergraphNode):
             else:
                 # We are instantiating a reference
                 _, con_kin_graph = get_parent_kinematic_graph(parent_kin_graph.parent)
-                if con_kin_graph is not None:
+                if con_kin_graph is not None and connected is None:
                     relative_frame_name = '.'.join(["connect", node.id_name])
     return relative_frame_name
 
 
-def encode_link_element(element: KinematicLink, prefix=""):
+def encode_link_element(element: KinematicLink, prefix="", connected: HypergraphNode = None):
     link_el = etree.Element("link")
     link_el.attrib["name"] = join_w_prefix_separator([element.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
     #
     cont_node: HypergraphNode = element.parent
-    relative_frame_name = __obtain_relative_frame_name(cont_node)
+    relative_frame_name = __obtain_relative_frame_name(cont_node, connected)
     # Inertia
     # TODO: finish it
     for x in element.get_subelements(lambda x: isinstance(x, InertiaElement)):
-- 
2.43.0


From 617f42aa1925a526b5439212eacafe17efbf330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 54/57] fix: value nodes did not notice a change of length made
 by assigning to a slice

---
 framework_python/rei/hypergraph/value_node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index f18afe5..f372cfc 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -24,6 +24,8 @@ class ValueNode(HierarchicalElement):
 
     def update_value(self, i, arg):
         self._values[i] = arg
+        # A slice may have changed the number of values
+        self.dim = len(self._values)
 
     def update_values(self, arg):
         self._values = [x for x in arg]
@@ -34,6 +36,7 @@ class ValueNode(HierarchicalElement):
 
     def __setitem__(self, key, value):
         self._values[key] = value
+        self.dim = len(self._values)
 
     def __iter__(self):
         return (self[i] for i in range(self.dim))
-- 
2.43.0


From 676236736030937f3b6a8925b4b24e36932954e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 55/57] fix: a node or edge can be constructed below a relation

---
 framework_python/rei/hypergraph/base_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index baa4f5f..cb22b9d 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -34,10 +34,11 @@ class HypergraphElement(ConceptualItem):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[HierarchicalElement, HypergraphPort] = {}
+        # A parent that is a relation connects this element at once
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-- 
2.43.0


From c89de13aaf043966d8339da2b5029c71f31034c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:07 +0000
Subject: [PATCH 56/57] fix: a relation that cannot connect an element it is
 given is left unchanged

---
 framework_python/rei/hypergraph/base_elements.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index cb22b9d..568278d 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -44,6 +44,9 @@ class HypergraphElement(ConceptualItem):
     def identification_generation(x: str, y: IdentifiableItem):
         return f"{x}/{y.id_name}"
 
+    def port_identifier(self, el: HierarchicalElement) -> bytes:
+        return self._id_generation.generate_uid(el)
+
     def connect(self, el: HierarchicalElement):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
@@ -116,6 +119,8 @@ class HypergraphRelation(HierarchicalElement):
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
 
     def add_element(self, element: HierarchicalElement) -> None:
+        if isinstance(element, HypergraphElement) and element.port_identifier(self) in element._sub_elements:
+            raise ErrorDuplicateElement
         super().add_element(element)
         if isinstance(element, HypergraphElement):
             # Set port
-- 
2.43.0


From e592e61b2bdfaa37bd22cd593a6a109d9426be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:22 +0000
Subject: [PATCH 57/57] fix: decoded values remember their qualified name as a
 string, like the other elements

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 0e3ecf3..b5731e1 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -78,7 +78,7 @@ class GraphTensorCbor(object):
         # Value nodes
         values = []
         for v in frag[3]:
-            _el = ValueNode(v[0], v[1], v[4], v[5])
+            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
             values.append((v[0], v[2]))
             _elements[v[3]].add_element(_el)
         # Value tensor
-- 
2.43.0

