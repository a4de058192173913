From 8db13c6bafdc2c67df3cc81c17316c83fb6da575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:56 +0000
Subject: [PATCH 01/35] fix: constrain every storage of a node, not only the
 first one

---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From 1a3acf98d62471fd4dd2d8c7d69988520267aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:22 +0000
Subject: [PATCH 02/35] fix: keep every storage in the analyzer storage table

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 063d95bacaabaeca6a7541077b1d2993e40bba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:29 +0000
Subject: [PATCH 03/35] fix: label scenarios per source in the analyzer
 converter source table

---
 hadar/analyzer/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..29868be 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -436,7 +436,9 @@ class ResultAnalyzer:
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
             src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
+            src_conv.loc[slices, "scn"] = np.tile(
+                np.repeat(np.arange(scn), h), src_size
+            )
 
             for i_src, (net, node) in enumerate(v.src_ratios.keys()):
                 e = s + h * scn * (i_src + 1)
-- 
2.43.0


From 1a32e5a73a95fbdc3e3a0537d836c73ae626cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:36 +0000
Subject: [PATCH 04/35] fix: size the analyzer converter destination table by
 converter

---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 29868be..1d5c93f 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From 41fb9672aef066ba9e7e76be5ab6d7e30f22b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 05/35] fix: a link from a node to itself must not create
 energy

---
 hadar/optimizer/lp/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..159771a 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,10 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # On a link from a node to itself import cancels export
+            self.constraints[(t, net, dest)].SetCoefficient(
+                var, 0 if src == dest else 1
+            )
 
 
 class StorageBuilder:
-- 
2.43.0


From cd0651e5aa9e05b267e50b0aa3baecd510bb13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:52 +0000
Subject: [PATCH 06/35] fix: raise when solver finds no optimal solution
 instead of returning garbage

---
 hadar/optimizer/lp/optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 159771a..00c61c0 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -407,7 +407,17 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in [
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.NOT_SOLVED,
+    ]:
+        raise ValueError(
+            "Study has no optimal solution for scenario %d (solver status %d)"
+            % (i_scn, status)
+        )
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From 372d44c710c57726333671240f59421cf6774d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/35] fix: reject series having any invalid value, not only
 when all values are invalid

---
 hadar/optimizer/domain/input.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..3268204 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if np.any(quantity.flatten() < 0):
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if np.any(prod.quantity.flatten() < 0):
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if np.any(cons.quantity.flatten() < 0):
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,17 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if np.any(store.flow_in.flatten() < 0) or np.any(
+            store.flow_out.flatten() < 0
+        ):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if np.any(store.capacity.flatten() < 0) or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if np.any(store.eff.flatten() < 0) or np.any(store.eff.flatten() > 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
-- 
2.43.0


From f78d185054837a4f92b8a2177c4ef7516f0cc3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:25 +0000
Subject: [PATCH 08/35] fix: accept numpy scalars and arrays of any real dtype
 as numerical value

---
 hadar/optimizer/domain/numeric.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..09a50e5 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -174,6 +174,12 @@ class NumericalValueFactory:
         if isinstance(value, dict) and "value" in value:
             value = value["value"]
 
+        # If data is a numpy scalar, use the python number behind
+        if isinstance(value, np.number) or (
+            isinstance(value, np.ndarray) and value.ndim == 0
+        ):
+            value = value.item()
+
         # If data is just a scalar
         if type(value) in [float, int, complex]:
             return ScalarNumericalValue(
@@ -185,6 +191,10 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # Solver and serializers handle only python like numbers. Cast float32, int32, bool, ...
+            if value.dtype.kind in "biuf" and value.dtype not in (np.int64, np.float64):
+                value = value.astype(float)
+
             # If scenario are not provided copy timeseries for each scenario
             if value.shape == (self.horizon,):
                 return RowNumericValue(
-- 
2.43.0


From 02a22d35190d42d3467e70bdee56a5fc23f0fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:05 +0000
Subject: [PATCH 09/35] fix: compare DTO holding numpy arrays without raising

---
 hadar/optimizer/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index eed3aca..58ac45a 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -17,7 +17,22 @@ class DTO:
         return hash(tuple(sorted(self.__dict__.items())))
 
     def __eq__(self, other):
-        return isinstance(other, type(self)) and self.__dict__ == other.__dict__
+        return isinstance(other, type(self)) and DTO._equal(
+            self.__dict__, other.__dict__
+        )
+
+    @staticmethod
+    def _equal(a, b) -> bool:
+        """
+        Compare attributes. Numpy arrays, even nested, are compared as a whole.
+        """
+        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+            return np.array_equal(a, b)
+        if isinstance(a, dict) and isinstance(b, dict):
+            return a.keys() == b.keys() and all(DTO._equal(a[k], b[k]) for k in a)
+        if isinstance(a, (list, tuple)) and type(a) == type(b):
+            return len(a) == len(b) and all(DTO._equal(i, j) for i, j in zip(a, b))
+        return a == b
 
     def __str__(self):
         return "{}({})".format(
-- 
2.43.0


From 465eb6db49ef220f092dfb18adbf059739f205e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:13 +0000
Subject: [PATCH 10/35] fix: loading a result from json must not modify the
 json document

---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From 1c64488012bf1a178d87682ded3a63bd4ca94378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:21 +0000
Subject: [PATCH 11/35] fix: each node selector of the study builder keeps its
 own node

---
 hadar/optimizer/domain/input.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 3268204..a31d37b 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -466,9 +466,9 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
-        self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        selector = {"network": self.selector["network"], "node": name}
+        self.study.add_node(network=selector["network"], node=name)
+        return NodeFluentAPISelector(self.study, selector)
 
     def link(
         self,
-- 
2.43.0


From 25c6a3d57456213a76af9ef135cab1cbeb9b4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:29 +0000
Subject: [PATCH 12/35] fix: partially built analyzer queries can be reused

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 1d5c93f..7e84940 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -805,8 +805,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = deepcopy(self.indexes) + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(indexes, self.analyzer)
-- 
2.43.0


From 8ce80beb68c66bcb90831374ff3ec5dee52eb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:44 +0000
Subject: [PATCH 13/35] fix: analyzer queries with open slices or only single
 values

---
 hadar/analyzer/result.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 7e84940..a808c7c 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -61,7 +61,7 @@ class Index(Generic[T]):
 
         :return: if index filter only one value return True else False
         """
-        return not self.all and len(self.index) <= 1
+        return not self.all and len(self.index) == 1
 
 
 class ProdIndex(Index[str]):
@@ -131,13 +131,23 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.slice = None
         if isinstance(index, slice):
             start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
             step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None or min(start, index.stop, step) < 0:
+                self.slice = index  # Need data to know bounds. See filter()
+                index = tuple()
+            else:
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        if self.slice is not None:
+            size = int(df[self.column].max()) + 1 if len(df) > 0 else 0
+            self.index = tuple(range(*self.slice.indices(size)))
+        return Index.filter(self, df)
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
@@ -471,7 +481,11 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        if (
+            len(indexes) > 0
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From 587e49320aef8dcdd1a88222e62abda0db6ac480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/35] fix: a rejected converter declaration must not leave a
 partial converter in study

---
 hadar/optimizer/domain/input.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index a31d37b..90d7433 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -420,12 +420,16 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        if (
+            name in self.converters
+            and (network, node) in self.converters[name].src_ratios
+        ):
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        self._add_converter(name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -436,7 +440,8 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        conv = self.converters.get(name)
+        if conv and conv.dest_network and conv.dest_node:
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -444,10 +449,14 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+
+        self._add_converter(name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -524,7 +533,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -682,7 +690,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 025c4e3ec3461390a6373db0a6d502583f92f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:12 +0000
Subject: [PATCH 15/35] fix: a converter without destination survives json
 serialization

---
 hadar/optimizer/domain/input.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 90d7433..52957c8 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -414,7 +414,12 @@ class Study(JSON):
     def _add_converter(self, name: str):
         if name not in [v for v in self.converters]:
             self.converters[name] = Converter(
-                name=name, src_ratios={}, dest_network="", dest_node="", cost=0, max=0
+                name=name,
+                src_ratios={},
+                dest_network="",
+                dest_node="",
+                cost=self.factory.create(0),
+                max=self.factory.create(0),
             )
 
     def _add_converter_src(
-- 
2.43.0


From 6e3329f3cf33e342d6c3b4dcab7a78ec3d44b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:18 +0000
Subject: [PATCH 16/35] fix: standardizing columns must not modify the data
 given by user

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..a655a12 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -309,6 +309,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()  # Keep user data unchanged
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 3bd66285cbde8222c8859fc1dfafe7c3e0f0758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:25 +0000
Subject: [PATCH 17/35] fix: focus stage keeps time index and columns not used
 by stage

---
 hadar/workflow/pipeline.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index a655a12..d87f800 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -381,18 +381,13 @@ class FocusStage(Stage, ABC):
         :param timeline:
         :return:
         """
-        scenarios = timeline.columns.get_level_values(0).unique()
-
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
+        output = {}
         for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+            res = self._process_scenarios(scn, timeline[scn].copy())
+            # Stage outputs first, then columns which stage doesn't care about
+            others = [c for c in res.columns if c not in self.plug.outputs]
+            output[scn] = res.reindex(columns=self.plug.outputs + others)
+        return pd.concat(output, axis=1)
 
 
 class Clip(Stage):
-- 
2.43.0


From 2f92a50a258d3da7dc3dc46d04a0c9b69ec87b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 18/35] fix: linking plugs must not modify the plug of the next
 stage

---
 hadar/workflow/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index d87f800..d6cf665 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,10 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        keep = [
+            e for e in self.outputs if e not in next.inputs and e not in next.outputs
+        ]
+        return RestrictedPlug(inputs=list(self.inputs), outputs=next.outputs + keep)
 
 
 class Pipeline:
-- 
2.43.0


From a2e6d0dc73439bf513582a85e9a9edfc97043b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:41 +0000
Subject: [PATCH 19/35] fix: pipeline checks each stage against everything
 before it

---
 hadar/workflow/pipeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index d6cf665..084b025 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -167,16 +167,16 @@ class Pipeline:
         :param stages: list of stage to execute
         :param plug: current
         """
-        self.stages = stages
+        self.stages = list(stages)
         self.plug = stages[0].plug
 
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
-            curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            next = stages[i + 1]
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
-                    % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
+                    % (self.plug.outputs, next.__class__.__name__, next.plug.inputs)
                 )
 
             self.plug += next.plug
-- 
2.43.0


From e3309dcb4e8688bd7628e7503423aea0a274b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 20/35] fix: adding a stage returns a new pipeline and keeps
 the current one unchanged

---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 084b025..3d06f9c 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -197,9 +197,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 16bdd20a7ce6ba5fb1eacb1bf6c427ba063bf705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:17 +0000
Subject: [PATCH 21/35] fix: repeat scenario keeps data under its own column
 whatever columns order

---
 hadar/workflow/pipeline.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 3d06f9c..f7f1901 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -543,12 +543,10 @@ class RepeatScenario(Stage):
         self.n = n
 
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
-        data = np.tile(timeline.values, self.n)
-
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
-        )
-
-        return pd.DataFrame(data=data, columns=index)
+        scenarios = Stage.get_scenarios(timeline)
+        copies = {
+            i * scenarios.size + j: timeline[scn]
+            for i in range(self.n)
+            for j, scn in enumerate(scenarios)
+        }
+        return pd.concat(copies, axis=1)
-- 
2.43.0


From 70b068afdab801d8ee62b28b6aae8245d5765e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:25 +0000
Subject: [PATCH 22/35] fix: fault accepts seed 0, a fixed downtime and doesn't
 seed global random state

---
 hadar/workflow/pipeline.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index f7f1901..f1b6df9 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -508,17 +508,18 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
-            np.random.seed(self.seed)
+        random = np.random if self.seed is None else np.random.RandomState(self.seed)
 
         horizon = scenario.shape[0]
-        nb_faults = np.random.choice(
+        nb_faults = random.choice(
             [0, 1], size=horizon, p=[1 - self.occur_freq, self.occur_freq]
         ).sum()
         loss_qt = np.zeros(horizon)
-        faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
-        faults_duration = np.random.randint(
-            low=self.downtime_min, high=self.downtime_max, size=nb_faults
+        faults_begin = random.randint(low=0, high=horizon, size=nb_faults)
+        faults_duration = random.randint(
+            low=self.downtime_min,
+            high=max(self.downtime_max, self.downtime_min + 1),  # high is exclusive
+            size=nb_faults,
         )
         for begin, duration in zip(faults_begin, faults_duration):
             loss_qt[begin : (begin + duration)] += self.loss
-- 
2.43.0


From bec6b4f9c582c42078e86015ac218577cc77c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 23/35] fix: shuffler samples each timeline independently
 inside worker processes

---
 hadar/workflow/shuffler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..ee69b3b 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,6 +5,7 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
+import os
 
 import numpy as np
 import pandas as pd
@@ -91,6 +92,8 @@ def compute(params):
     :return: (name, sampling)
     """
     tl, nb, name = params
+    # Each worker process inherits the same random state. Reseed to keep timelines independent
+    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
     return name, tl.sample(nb)
 
 
-- 
2.43.0


From 1a60113e0dd7b9ce58982380ecc44aa6b5b629ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:42 +0000
Subject: [PATCH 24/35] fix: plot rac matrix when all values have the same sign

---
 hadar/viewer/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1e20a06 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,8 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            x[x > 0] /= np.max(x[x > 0], initial=0)
+            x[x < 0] /= -np.min(x[x < 0], initial=0)
             return x
 
         fig = go.Figure(
-- 
2.43.0


From 5f026c387d5a8b6db67b0c5b5ff20359b1c5b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:49 +0000
Subject: [PATCH 25/35] fix: gaussian of converter flow focuses on asked
 scenario

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 13a0896123747f827bf4de5c7a4676d7a5f654e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:42 +0000
Subject: [PATCH 26/35] fix: give python floats to the solver for costs,
 efficiencies and ratios

---
 hadar/optimizer/lp/mapper.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hadar/optimizer/lp/mapper.py b/hadar/optimizer/lp/mapper.py
index 19db981..87c44f8 100644
--- a/hadar/optimizer/lp/mapper.py
+++ b/hadar/optimizer/lp/mapper.py
@@ -60,7 +60,7 @@ class InputMapper:
         consumptions = [
             LPConsumption(
                 name=c.name,
-                cost=c.cost[scn, t],
+                cost=float(c.cost[scn, t]),
                 quantity=c.quantity[scn, t],
                 variable=self.solver.NumVar(
                     0, float(c.quantity[scn, t]), name="lol=%s %s" % (c.name, suffix)
@@ -72,7 +72,7 @@ class InputMapper:
         productions = [
             LPProduction(
                 name=p.name,
-                cost=p.cost[scn, t],
+                cost=float(p.cost[scn, t]),
                 quantity=p.quantity[scn, t],
                 variable=self.solver.NumVar(
                     0, float(p.quantity[scn, t]), "prod=%s %s" % (p.name, suffix)
@@ -86,10 +86,10 @@ class InputMapper:
                 name=s.name,
                 flow_in=s.flow_in[scn, t],
                 flow_out=s.flow_out[scn, t],
-                eff=s.eff[scn, t],
+                eff=float(s.eff[scn, t]),
                 capacity=s.capacity[scn, t],
-                init_capacity=s.init_capacity,
-                cost=s.cost[scn, t],
+                init_capacity=float(s.init_capacity),
+                cost=float(s.cost[scn, t]),
                 var_capacity=self.solver.NumVar(
                     0,
                     float(s.capacity[scn, t]),
@@ -112,7 +112,7 @@ class InputMapper:
         links = [
             LPLink(
                 dest=l.dest,
-                cost=l.cost[scn, t],
+                cost=float(l.cost[scn, t]),
                 src=node,
                 quantity=l.quantity[scn, t],
                 variable=self.solver.NumVar(
@@ -141,13 +141,13 @@ class InputMapper:
         suffix = "at t=%d for scn=%d" % (t, scn)
         v = self.study.converters[name]
 
-        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
+        src_ratios = {k: float(v[scn, t]) for k, v in v.src_ratios.items()}
         return LPConverter(
             name=v.name,
             src_ratios=src_ratios,
             dest_network=v.dest_network,
             dest_node=v.dest_node,
-            cost=v.cost[scn, t],
+            cost=float(v.cost[scn, t]),
             max=v.max[scn, t],
             var_flow_src={
                 src: self.solver.NumVar(
-- 
2.43.0


From 6de8faf379352514582aa6832d81417254b59e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 27/35] fix: names holding :: survive serialization of
 converters

---
 hadar/optimizer/domain/input.py  |  6 +++---
 hadar/optimizer/domain/output.py |  5 +++--
 hadar/optimizer/lp/domain.py     |  8 ++++----
 hadar/optimizer/utils.py         | 20 ++++++++++++++++++++
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 52957c8..1755435 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -25,7 +25,7 @@ __all__ = [
 
 import hadar
 from hadar.optimizer.domain.numeric import NumericalValue, NumericalValueFactory
-from hadar.optimizer.utils import JSON
+from hadar.optimizer.utils import JSON, join_key, split_key
 
 NumericalValueType: Type = Union[List, np.ndarray, float]
 
@@ -186,7 +186,7 @@ class Converter(JSON):
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
         dict["src_ratios"] = {
-            "::".join(k): v.to_json() for k, v in self.src_ratios.items()
+            join_key(k): v.to_json() for k, v in self.src_ratios.items()
         }
         return {k: JSON.convert(v) for k, v in dict.items()}
 
@@ -198,7 +198,7 @@ class Converter(JSON):
         dict["cost"] = factory.create(dict["cost"])
         dict["max"] = factory.create(dict["max"])
         dict["src_ratios"] = {
-            tuple(k.split("::")): factory.create(v)
+            split_key(k): factory.create(v)
             for k, v in dict["src_ratios"].items()
         }
         return Converter(**dict)
diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index 7045f43..6d18d16 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -10,6 +10,7 @@ from typing import Union, List, Dict, Tuple
 import numpy as np
 
 from hadar.optimizer.domain.input import InputNode, JSON
+from hadar.optimizer.utils import join_key, split_key
 
 __all__ = [
     "OutputProduction",
@@ -140,7 +141,7 @@ class OutputConverter(JSON):
         # flow_src has a tuple of two string as key. These forbidden by JSON.
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
-        dict["flow_src"] = {"::".join(k): v.tolist() for k, v in self.flow_src.items()}
+        dict["flow_src"] = {join_key(k): v.tolist() for k, v in self.flow_src.items()}
         dict["flow_dest"] = self.flow_dest.tolist()
         return dict
 
@@ -150,7 +151,7 @@ class OutputConverter(JSON):
         # JSON doesn't accept tuple as key, so two string was joined for serialization
         # Ex: 'elec::a' -> ('elec', 'a')
         dict["flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
+            split_key(k): v for k, v in dict["flow_src"].items()
         }
         return OutputConverter(**dict)
 
diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index b82e168..5f76ec9 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -12,7 +12,7 @@ from typing import List, Union, Dict, Tuple
 from ortools.linear_solver.pywraplp import Variable
 
 from hadar import Study
-from hadar.optimizer.utils import JSON
+from hadar.optimizer.utils import JSON, join_key, split_key
 
 
 class JSONLP(JSON, ABC):
@@ -23,7 +23,7 @@ class JSONLP(JSON, ABC):
             elif isinstance(v, dict):
                 # Json can't serialize tuple key, therefore join items with ::
                 return {
-                    "::".join(k) if isinstance(k, tuple) else k: copy(v)
+                    join_key(k) if isinstance(k, tuple) else k: copy(v)
                     for k, v in v.items()
                 }
             elif isinstance(v, np.int64):
@@ -223,10 +223,10 @@ class LPConverter(JSONLP):
     def from_json(dict, factory=None):
         # Json can't serialize tuple as key. tuple is concatained before serialized, we need to extract it now
         dict["src_ratios"] = {
-            tuple(k.split("::")): v for k, v in dict["src_ratios"].items()
+            split_key(k): v for k, v in dict["src_ratios"].items()
         }
         dict["var_flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["var_flow_src"].items()
+            split_key(k): v for k, v in dict["var_flow_src"].items()
         }
         return LPConverter(**dict)
 
diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index 58ac45a..aa5ed0b 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -4,10 +4,30 @@
 #  If a copy of the Apache License, version 2.0 was not distributed with this file, you can obtain one at http://www.apache.org/licenses/LICENSE-2.0.
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
+import json
 from abc import ABC, abstractmethod
+from typing import Tuple
+
 import numpy as np
 
 
+def join_key(key: Tuple[str, str]) -> str:
+    """
+    Json can't serialize tuple as key, join tuple items with '::'. Ex: ('elec', 'a') --> 'elec::a'.
+    When items can't be found back that way, because names use '::' themselves, a json list is used instead.
+    """
+    text = "::".join(key)
+    simple = text.split("::") == list(key) and not text.startswith('["')
+    return text if simple else json.dumps(key)
+
+
+def split_key(text: str) -> Tuple[str, ...]:
+    """
+    Find back tuple from string created by join_key. Ex: 'elec::a' -> ('elec', 'a')
+    """
+    return tuple(json.loads(text) if text.startswith('["') else text.split("::"))
+
+
 class DTO:
     """
     Implement basic method for DTO objects
-- 
2.43.0


From 6a409ab2d7c7f21707faf083d7987e0fe5bcbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:58 +0000
Subject: [PATCH 28/35] fix: size the analyzer converter source table by source

---
 hadar/analyzer/result.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index a808c7c..50594a2 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -450,8 +450,8 @@ class ResultAnalyzer:
                 np.repeat(np.arange(scn), h), src_size
             )
 
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
@@ -461,7 +461,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From 0308db09c335e98cf678ad807fffa2d89b83c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 29/35] fix: converter tables have time and scenario columns
 even without converter

---
 hadar/analyzer/result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 50594a2..fd35bea 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -406,6 +406,8 @@ class ResultAnalyzer:
             "flow": np.empty(size, dtype=float),
             "cost": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         dest_conv = pd.DataFrame(data=dest_conv)
 
@@ -417,8 +419,8 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+            dest_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
 
         return dest_conv
 
@@ -436,6 +438,8 @@ class ResultAnalyzer:
             "ratio": np.empty(size, dtype=float),
             "flow": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         src_conv = pd.DataFrame(data=src_conv)
 
@@ -445,9 +449,9 @@ class ResultAnalyzer:
             e = s + h * scn * src_size
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
+            src_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn * src_size)
             src_conv.loc[slices, "scn"] = np.tile(
-                np.repeat(np.arange(scn), h), src_size
+                np.repeat(np.arange(scn, dtype=float), h), src_size
             )
 
             for net, node in v.src_ratios.keys():
-- 
2.43.0


From e54e5d99311cd69c74a94301244f78a16e8aef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:18 +0000
Subject: [PATCH 30/35] fix: shuffler samples timelines independently of each
 other and of worker state

---
 hadar/workflow/shuffler.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index ee69b3b..43822db 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,7 +5,6 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
-import os
 
 import numpy as np
 import pandas as pd
@@ -86,15 +85,13 @@ class TimelinePipeline(Timeline):
 
 def compute(params):
     """
-    Wrapper method to call Timeline.sample used by multiprocessing.Pool.
+    Wrapper method to call Timeline.compute used by multiprocessing.Pool.
 
-    :param params: (timeline, number of scenarios, timeline name)
-    :return: (name, sampling)
+    :param params: (timeline, timeline name)
+    :return: (name, data)
     """
-    tl, nb, name = params
-    # Each worker process inherits the same random state. Reseed to keep timelines independent
-    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
-    return name, tl.sample(nb)
+    tl, name = params
+    return name, tl.compute()
 
 
 class Shuffler:
@@ -147,7 +144,10 @@ class Shuffler:
         """
         # Compute pipelines
         pool = multiprocessing.Pool()
-        res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
-        )
-        return dict(res)
+        res = pool.map(compute, ((tl, name) for name, tl in self.timelines.items()))
+
+        # Sample here. Inside workers, each timeline would use a copy of the same sampler state
+        return {
+            name: Timeline(data, sampler=self.timelines[name].sampler).sample(nb_scn)
+            for name, data in res
+        }
-- 
2.43.0


From abada5ac36dc49525d1692a7ea0ba4f19b3691e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 31/35] fix: shuffler pipeline ignores output columns whose
 name is falsy

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 43822db..97496e0 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -78,7 +78,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From b3ad00f12a6eb0985abd4e58c31c7ead6b3e4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 32/35] fix: study keeps the values of an array as given,
 whatever the caller does with it later

---
 hadar/optimizer/domain/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 09a50e5..e31b5fb 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -186,8 +186,8 @@ class NumericalValueFactory:
                 value=value, horizon=self.horizon, nb_scn=self.nb_scn
             )
 
-        # If data is list or pandas object convert to numpy array
-        if type(value) in [List, list, pd.DataFrame, pd.Series]:
+        # If data is list or pandas object convert to numpy array. Copy array to not follow later changes by user
+        if type(value) in [List, list, pd.DataFrame, pd.Series, np.ndarray]:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
-- 
2.43.0


From c82a7d4929ac11a26b4a85c5a65e535a232556aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 33/35] fix: analyzer counts and costs take an empty name as a
 name, not as none given

---
 hadar/analyzer/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index fd35bea..bd4bcc3 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -583,13 +583,13 @@ class ResultAnalyzer:
             return size
 
         # Compute cost over network
-        if network and node is None:
+        if network is not None and node is None:
             for node in self.study.networks[network].nodes.keys():
                 size += self.get_elements_inside(network=network, node=node)
             return size
 
         # If node is provided but no network set network as 'default'
-        if node and network is None:
+        if node is not None and network is None:
             network = "default"
 
         n = self.study.networks[network].nodes[node]
@@ -645,7 +645,7 @@ class ResultAnalyzer:
         """
         cost = np.zeros((self.nb_scn, self.horizon))
         c, p, s, l, _, v = self.get_elements_inside(node, network)
-        network = "default" if node and network is None else network
+        network = "default" if node is not None and network is None else network
         if c:
             cons = self.network(network).node(node).scn().time().consumption()
             cost += (
-- 
2.43.0


From a5147cc0e852c904a25470a1f47b401b3810fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 34/35] fix: converter refuses a second destination when the
 first node has an empty name

---
 hadar/optimizer/domain/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 1755435..24033b5 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -446,7 +446,7 @@ class Study(JSON):
         max: NumericalValueType,
     ):
         conv = self.converters.get(name)
-        if conv and conv.dest_network and conv.dest_node:
+        if conv and (conv.dest_network or conv.dest_node):
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
-- 
2.43.0


From 4c331bb1621c995e3ce8555293cd1123593d9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 35/35] fix: serialize every numpy number, not only 64 bits
 ones

---
 hadar/optimizer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index aa5ed0b..fc57b08 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -82,9 +82,9 @@ class JSON(DTO, ABC):
             return {k: JSON.convert(v) for k, v in value.items()}
         elif isinstance(value, list) or isinstance(value, tuple):
             return [JSON.convert(v) for v in value]
-        elif isinstance(value, np.int64):
+        elif isinstance(value, np.integer):
             return int(value)
-        elif isinstance(value, np.float64):
+        elif isinstance(value, np.floating):
             return float(value)
         elif isinstance(value, np.ndarray):
             return value.tolist()
-- 
2.43.0

