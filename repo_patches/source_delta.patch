From 5543325143201aec2d5bcdba7c3b659c32ccd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/85] fix: sum the weights of aggregated nodes' members that
 share a route or edge

An aggregated node's flow limits apply to the weighted sum of its members'
flows. When two members lie on the same route (or edge) the second weight
overwrote the first, so the limit was enforced on the wrong sum.
---
 pywr/solvers/cython_glpk.pyx    | 7 ++++---
 pywr/solvers/cython_lpsolve.pyx | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..3a3bc79 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,9 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # Inputs and Outputs only have flow on the routes they start or end
+                    if some_node in (route[0], route[-1]) or (isinstance(some_node, BaseLink) and some_node in route):
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
             val = <double*>malloc(1+length * sizeof(double))
@@ -1517,7 +1518,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..d461d07 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,8 +428,9 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                    # Inputs and Outputs only have flow on the routes they start or end
+                    if node in (route[0], route[-1]) or (isinstance(node, BaseLink) and node in route):
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From 47dbf79f67ecf17fd5f47e82569a01a4ede16980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 02/85] fix: allocate whole elements for aggregated node
 constraint rows

1 + length * sizeof(T) is one byte more than length elements, but
1 + length elements are written.
---
 pywr/solvers/cython_glpk.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 3a3bc79..40c5e51 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -690,8 +690,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
                     if some_node in (route[0], route[-1]) or (isinstance(some_node, BaseLink) and some_node in route):
                         matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1521,8 +1521,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
-- 
2.43.0


From db49abf7d3b6b2767dcc5ae2cc18da776f3bcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 03/85] fix: lpsolve: do not force a release when a storage is
 above its maximum volume

A time-varying maximum can fall below the current volume. The GLPK solvers
then only forbid further filling; lpsolve used a negative upper bound on the
change in storage, forcing a release or making the model infeasible.
---
 pywr/solvers/cython_lpsolve.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index d461d07..5d69672 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -539,7 +539,7 @@ cdef class CythonLPSolveSolver:
             # change in storage cannot be more than the current volume or
             # result in maximum volume being exceeded
             lb = -avail_volume/timestep.days
-            ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
             set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
 
         # update virtual storage node constraint
@@ -552,7 +552,7 @@ cdef class CythonLPSolveSolver:
                 # change in storage cannot be more than the current volume or
                 # result in maximum volume being exceeded
                 lb = -avail_volume/timestep.days
-                ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
         self.stats['bounds_update_storage'] += time.perf_counter() - t0
-- 
2.43.0


From f41320fa3889a994284b4a3eaed5682e6da6a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 04/85] fix: lpsolve: reject a minimum flow above the maximum
 flow

lpsolve ignores a row range of negative width, so a node whose minimum flow
exceeds its maximum flow was simulated as if it had no minimum. GLPK raises.
---
 pywr/solvers/cython_lpsolve.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 5d69672..35e0214 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -65,7 +65,14 @@ cdef extern from "lpsolve/lp_lib.h":
     int get_presolve(lprec *lp)
     int get_presolveloops(lprec *lp)
 
-cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
+cdef inline int check_bnds(double a, double b) except -1:
+    if a - b > 1e-8:
+        # lpsolve silently ignores a range with a negative width
+        raise RuntimeError("Lower bound ({}) is greater than upper bound ({}).".format(a, b))
+    return 0
+
+cdef inline int set_row_bnds(lprec *prob, int row, double a, double b) except -1:
+    check_bnds(a, b)
     if a == b:
         set_constr_type(prob, row, EQ)
         set_rh(prob, row, a)
@@ -526,6 +533,7 @@ cdef class CythonLPSolveSolver:
             min_flow = inf_to_dbl_max(demand.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(demand.get_max_flow(scenario_index))
             cost = demand.get_cost(scenario_index)
+            check_bnds(min_flow, max_flow)
             set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
-- 
2.43.0


From 239aa2de5d575bca676d62c6b84d55663ef729bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 05/85] fix: apply the multi-model document's timestep to every
 sub-model

The timestep was assigned to an attribute nothing reads, so sub-models kept
their own timestep length.
---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From d0ddafa8cae4313d76b16d3f248f687a9ba4af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 06/85] fix: pass the solver given to MultiModel.load on to the
 sub-models

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From d049af9ee795467938b5e99700187672eb480c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 07/85] fix: advance every sub-model's timestepper to the end
 of a multi-model run

zip() stops at the first exhausted timestepper, which left the others one
step short: recorders of those sub-models that divide by the number of
timesteps were wrong, and sub-models of different lengths were silently
truncated instead of being reported as not synchronised.
---
 pywr/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..1023cb0 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -1,3 +1,4 @@
+import itertools
 import warnings
 from io import IOBase
 from pathlib import Path
@@ -253,10 +254,14 @@ class MultiModel:
             t1 = time.time()
 
             # Begin time-stepping
-            for timesteps in zip(*timesteppers):
+            for timesteps in itertools.zip_longest(*timesteppers):
                 for model, timestep in zip(self.models.values(), timesteps):
                     # Check all timesteps are the same
-                    if timestep.datetime != timesteps[0].datetime:
+                    if (
+                        timestep is None
+                        or timesteps[0] is None
+                        or timestep.datetime != timesteps[0].datetime
+                    ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
                         )
-- 
2.43.0


From 842c96fe00195b82eda4c494276ecd2dbc34dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 08/85] fix: pass DataFrameParameter's keyword arguments on by
 name

*kwargs passed the keys as positional arguments, so a parameter given a name
was called "name".
---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..6bb4a39 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From 5da25a8fbb64429a5beb6dddec85ed8a244a0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 09/85] fix: resolve scenario slices against the scenario's
 size when loading data

slice.indices() needs the length of the sequence. Open-ended slices raised a
TypeError and stops beyond the size selected columns that do not exist.
---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 6bb4a39..5884d6c 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From 73ea30c03ee9b2936681d4be72339d170129ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 10/85] fix: add each threshold of the multiple threshold
 parameters as a child

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 92a511b9980190e796e701b392b8e33333fe4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 11/85] fix: save the previous flow of compound and aggregated
 nodes after computing it

---
 pywr/_core.pyx | 8 ++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..820bd46 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -775,6 +774,9 @@ cdef class AggregatedNode(AbstractNode):
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
 
+        # Make sure save is done after setting aggregated flow
+        AbstractNode.after(self, ts)
+
     property factors:
         def __get__(self):
             return self._factors
@@ -1399,7 +1401,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1426,6 +1427,9 @@ cdef class AggregatedStorage(AbstractStorage):
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
 
+        # Make sure save is done after setting aggregated flow
+        AbstractStorage.after(self, ts)
+
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
         cdef Storage s
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..2efd035 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1166,9 +1166,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1234,9 +1235,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1359,9 +1361,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 8910890d48cfa30051b183f5cbac0da6c8f77b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 12/85] fix: reset the flow of aggregated storages at the start
 of a run

---
 pywr/_core.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 820bd46..1318dcc 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1384,6 +1384,7 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
         cdef double mxv = 0.0
         cdef ScenarioIndex si
-- 
2.43.0


From 78c5c409b371dfc25ad0fdf64c7d09395cd460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 13/85] fix: is_constant is a property in
 WeightedAverageProfileParameter

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From 5d8ff25f5ae30e4d6d7b464f1f71a995ad95bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 14/85] fix: keep the scenario when loading
 FlowDurationCurveDeviationRecorder

---
 pywr/recorders/_recorders.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..88f4f7c 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -981,10 +981,10 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1098,7 +1098,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From ae341201c6ed6accd1a7bb16ddac754942439e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 15/85] fix: accept csv_kwargs in CSVRecorder

---
 pywr/recorders/recorders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..45ee536 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,12 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
+        self.csv_kwargs = csv_kwargs
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From dd7abded5ce5b1d473e1012a97c138ba2f5c2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 16/85] fix: do not constrain flows by an inactive virtual
 storage of zero capacity

---
 pywr/solvers/cython_glpk.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 40c5e51..2387325 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -993,16 +993,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
@@ -1817,16 +1817,16 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
-- 
2.43.0


From 3c54a9113305e2946f9b18886d3af0fc23c2f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 17/85] fix: count the months a timestep spans in
 MonthlyVirtualStorage

---
 pywr/nodes.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2efd035..fa81ef2 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -736,22 +736,25 @@ class MonthlyVirtualStorage(VirtualStorage):
         self.months = kwargs.pop("months", 1)
         self.initial_months = kwargs.pop("initial_months", 0)
         self.reset_to_initial_volume = kwargs.pop("reset_to_initial_volume", False)
-        self._count = self.initial_months - 1
+        self._count = self.initial_months
         self._last_month = None
         super(MonthlyVirtualStorage, self).__init__(*args, **kwargs)
 
     def reset(self):
         super().reset()
-        self._count = self.initial_months - 1
+        self._count = self.initial_months
         self._last_month = None
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
-            self._count += 1
-            if self._count == self.months:
-                self._count = 0
+        month = ts.year * 12 + ts.month
+        if month != self._last_month:
+            # A timestep can be longer than a month
+            if self._last_month is not None:
+                self._count += month - self._last_month
+            self._last_month = month
+            if self._count >= self.months:
+                self._count %= self.months
                 self._reset_storage_only(
                     use_initial_volume=self.reset_to_initial_volume
                 )
-- 
2.43.0


From c5239457a022ff23dd5a5f75879b4b0ad78ccdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 18/85] fix: reset MonthlyVirtualStorage to its initial volume
 while its maximum is not evaluated

---
 pywr/nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index fa81ef2..b41e491 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -755,9 +755,11 @@ class MonthlyVirtualStorage(VirtualStorage):
             self._last_month = month
             if self._count >= self.months:
                 self._count %= self.months
-                self._reset_storage_only(
-                    use_initial_volume=self.reset_to_initial_volume
-                )
+                use_initial_volume = self.reset_to_initial_volume
+                if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                    # max volume is not evaluated before the first timestep
+                    use_initial_volume = True
+                self._reset_storage_only(use_initial_volume=use_initial_volume)
 
 
 class PiecewiseLink(Node):
-- 
2.43.0


From 71a1c9a084db014343136d4ff6ade76d3cc43b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 19/85] fix: reset annual virtual storages when the reset date
 falls inside a timestep that crosses the year end

---
 pywr/nodes.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index b41e491..406bfac 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,27 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
-
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+        # The year of the most recent reset date
+        date = (ts.month, ts.day)
+        reset_date = (self.reset_month, self.reset_day)
+        reset_year = ts.year if date >= reset_date else ts.year - 1
+
+        if ts.index == 0 and date != reset_date:
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if we're at or past the next reset date
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
+
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
-- 
2.43.0


From 7a0a4b0824fd03a998f9f55a945c3188cd8ce693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 20/85] fix: decide whether a seasonal virtual storage is
 active from the date of the timestep

---
 pywr/nodes.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 406bfac..2215768 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -684,36 +684,20 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        date = (ts.month, ts.day)
+        start_date = (self.reset_month, self.reset_day)
+        end_date = (self.end_month, self.end_day)
+        if start_date < end_date:
+            self.active = start_date <= date < end_date
+        else:
+            # the season operates across a year boundary
+            self.active = date >= start_date or date < end_date
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From ad1689596bd3c5a1d546bf2c4335ce1522e04263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 21/85] fix: apply a reservoir's control curve and above-curve
 cost when loaded from JSON

---
 pywr/domains/river.py | 59 ++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..0fc5345 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -64,6 +64,8 @@ class Reservoir(RiverDomainMixin, Storage):
     to represent a benefit of filling the reservoir when it is below its curve.
     """
 
+    __parameter_attributes__ = Storage.__parameter_attributes__ + ("control_curve",)
+
     def __init__(self, model, *args, **kwargs):
         """
 
@@ -75,28 +77,45 @@ class Reservoir(RiverDomainMixin, Storage):
         above_curve_cost = kwargs.pop("above_curve_cost", None)
         cost = kwargs.pop("cost", 0.0)
         if above_curve_cost is not None:
-            if control_curve is None:
-                # Make a default control curve at 100% capacity
-                control_curve = ConstantParameter(model, 1.0)
-            elif not isinstance(control_curve, Parameter):
-                # Assume parameter is some kind of constant and coerce to ConstantParameter
-                control_curve = ConstantParameter(model, control_curve)
-
-            if not isinstance(cost, Parameter):
-                # In the case where an above_curve_cost is given and cost is not a Parameter
-                # a default cost Parameter is created.
-                kwargs["cost"] = ControlCurveParameter(
-                    model, self, control_curve, [above_curve_cost, cost]
-                )
-            else:
-                raise ValueError(
-                    "If an above_curve_cost is given cost must not be a Parameter."
-                )
-        else:
-            # reinstate the given cost parameter to pass to the parent constructors
-            kwargs["cost"] = cost
+            cost = self._make_cost(model, control_curve, above_curve_cost, cost)
+        kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    def _make_cost(self, model, control_curve, above_curve_cost, cost):
+        if control_curve is None:
+            # Make a default control curve at 100% capacity
+            control_curve = ConstantParameter(model, 1.0)
+        elif not isinstance(control_curve, Parameter):
+            # Assume parameter is some kind of constant and coerce to ConstantParameter
+            control_curve = ConstantParameter(model, control_curve)
+
+        if isinstance(cost, Parameter):
+            raise ValueError(
+                "If an above_curve_cost is given cost must not be a Parameter."
+            )
+        # In the case where an above_curve_cost is given and cost is not a Parameter
+        # a default cost Parameter is created.
+        return ControlCurveParameter(
+            model, self, control_curve, [above_curve_cost, cost]
+        )
+
+    @classmethod
+    def pre_load(cls, model, data):
+        # The cost depends on the control curve, which is only loaded in `finalise_load`.
+        above_curve_cost = data.pop("above_curve_cost", None)
+        obj = super().pre_load(model, data)
+        obj.__above_curve_cost = above_curve_cost
+        return obj
+
+    def finalise_load(self):
+        super().finalise_load()
+        control_curve = self.__dict__.pop("control_curve", None)
+        if self.__above_curve_cost is not None:
+            self.cost = self._make_cost(
+                self.model, control_curve, self.__above_curve_cost, self.cost
+            )
+        del self.__above_curve_cost
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From a3217517882abc0b58b7bc6fdbf1bf51cb742d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 22/85] fix: accept a multi-split link's costs and maximum
 flows from JSON

---
 pywr/nodes.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2215768..0b6b2c0 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -969,11 +969,10 @@ class MultiSplitLink(PiecewiseLink):
             self._extra_outputs.append(otpt)
 
         if costs is not None:
-            # No cost or maximum flow on the additional links
-            self.costs = costs + [0.0] * extra_slots
+            self.costs = costs
         if max_flows is not None:
             # The max_flows could be problematic with the aggregated node.
-            self.max_flows = max_flows + [None] * extra_slots
+            self.max_flows = max_flows
 
         # Now create an aggregated node for addition constraints if required.
         if factors is not None:
@@ -990,6 +989,36 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
+    def _pad_steps(self, values, fill):
+        """Extend values given only for the steps to the sub-links of the extra slots"""
+        if len(values) == len(self.sublinks) - len(self._extra_inputs):
+            values = list(values) + [fill] * len(self._extra_inputs)
+        return values
+
+    def costs():
+        def fget(self):
+            return PiecewiseLink.costs.fget(self)
+
+        def fset(self, values):
+            # No cost on the additional links
+            PiecewiseLink.costs.fset(self, self._pad_steps(values, 0.0))
+
+        return locals()
+
+    costs = property(**costs())
+
+    def max_flows():
+        def fget(self):
+            return PiecewiseLink.max_flows.fget(self)
+
+        def fset(self, values):
+            # No maximum flow on the additional links
+            PiecewiseLink.max_flows.fset(self, self._pad_steps(values, None))
+
+        return locals()
+
+    max_flows = property(**max_flows())
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             i = self.slot_names.index(slot_name)
-- 
2.43.0


From 07ea31c3d35897c41006a5a65c2a799c174791f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 23/85] fix: divide mean recorders by the number of timesteps
 when a model is stepped

---
 pywr/recorders/_recorders.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 88f4f7c..204d5aa 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1796,7 +1796,8 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # The timestepper is one step beyond the end after `Model.run`, but not after `Model.step`
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanFlowNodeRecorder.register()
@@ -1817,7 +1818,8 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # The timestepper is one step beyond the end after `Model.run`, but not after `Model.step`
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 DeficitFrequencyNodeRecorder.register()
@@ -2349,7 +2351,8 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # The timestepper is one step beyond the end after `Model.run`, but not after `Model.step`
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanParameterRecorder.register()
-- 
2.43.0


From 59c099170d8dbabcf14f101534d8bc3be40943d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 24/85] fix: start aggregated storages from the maxima their
 members' initial volumes imply

---
 pywr/_core.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 1318dcc..c81712c 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1387,12 +1387,21 @@ cdef class AggregatedStorage(AbstractStorage):
         AbstractStorage.reset(self)
         cdef int i
         cdef double mxv = 0.0
+        cdef double pc
+        cdef Storage s
         cdef ScenarioIndex si
 
         for i, si in enumerate(self.model.scenarios.combinations):
             mxv = 0.0
             for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+                if s._max_volume_param is None:
+                    mxv += s.get_max_volume(si)
+                else:
+                    # The parameter has not been evaluated for the first timestep yet. The maximum
+                    # it will give follows from the initial volume and proportion of the node.
+                    pc = s.get_initial_pc()
+                    if pc != 0.0:
+                        mxv += s.get_initial_volume() / pc
 
             self._volume[i] = self.initial_volume
             # Ensure variable maximum volume is taken in to account
-- 
2.43.0


From 76311566e9276999360fbfe4eabdfc32cdcb9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 25/85] fix: close events left open at the end of a run at the
 right time and apply their minimum length

---
 pywr/recorders/events.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..d1d9c48 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -147,7 +147,12 @@ class EventRecorder(Recorder):
             self._current_events[si.global_id] = current_event
 
     def finish(self):
-        ts = self.model.timestepper.current
+        timestepper = self.model.timestepper
+        # Events end with the first timestep they are not part of. This is the timestepper's
+        # current position after `Model.run`, but the next one after `Model.step`.
+        ts = timestepper.current
+        if ts is not None and ts.index < len(timestepper):
+            ts = timestepper._next
         # Complete any unfinished events
         for si in self.model.scenarios.combinations:
             # Get the current event
@@ -155,7 +160,9 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                current_event.values = np.array(current_event.values)
+                if ts.index - current_event.start.index >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From d25fbae3e895d6c7505db1b0952ceecacf21eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 26/85] fix: let virtual storages renew correctly after a reset
 to a later start

---
 pywr/nodes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 0b6b2c0..ba6ae61 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -635,7 +635,10 @@ class AnnualVirtualStorage(VirtualStorage):
         reset_date = (self.reset_month, self.reset_day)
         reset_year = ts.year if date >= reset_date else ts.year - 1
 
-        if ts.index == 0 and date != reset_date:
+        # The first timestep since the model was (re)started
+        first = self._last_reset_year is None
+
+        if first and date != reset_date:
             # Assume we reset before the model started
             self._last_reset_year = reset_year
 
@@ -643,7 +646,7 @@ class AnnualVirtualStorage(VirtualStorage):
         if reset_year != self._last_reset_year:
             # Reset maximum volume depending on user preference ...
             use_initial_volume = self.reset_to_initial_volume
-            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+            if first and isinstance(self.max_volume, Parameter):
                 # ... if it is the first timestep and max volume is a parameter, then we can only reset to
                 # initial volume because the max volume would not be evaluated
                 use_initial_volume = True
@@ -729,15 +732,17 @@ class MonthlyVirtualStorage(VirtualStorage):
     def before(self, ts):
         super().before(ts)
         month = ts.year * 12 + ts.month
+        # The first timestep since the model was (re)started
+        first = self._last_month is None
         if month != self._last_month:
             # A timestep can be longer than a month
-            if self._last_month is not None:
+            if not first:
                 self._count += month - self._last_month
             self._last_month = month
             if self._count >= self.months:
                 self._count %= self.months
                 use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                if first and isinstance(self.max_volume, Parameter):
                     # max volume is not evaluated before the first timestep
                     use_initial_volume = True
                 self._reset_storage_only(use_initial_volume=use_initial_volume)
-- 
2.43.0


From a433f72bae19f0662cb836df558d1c4a416130dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 27/85] fix: apply changes to a virtual storage's factors and a
 rolling one's initial volume between runs

---
 pywr/_core.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index c81712c..de37c86 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1493,6 +1493,7 @@ cdef class VirtualStorage(Storage):
 
         def __set__(self, value):
             self._factors = np.array(value, dtype=np.float64)
+            self.model.dirty = True
 
     cpdef after(self, Timestep ts, double[:] adjustment=None):
         cdef int i
@@ -1516,6 +1517,11 @@ cdef class RollingVirtualStorage(VirtualStorage):
         cdef int ncomb = len(model.scenarios.combinations)
         if self.timesteps < 2:
             raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
+        self._memory = np.zeros((self.timesteps-1, ncomb), dtype=np.float64)
+        self._memory_pointer = 0
+
+    cpdef reset(self):
+        VirtualStorage.reset(self)
         cdef double initial_vol = self.get_initial_volume()
         cdef double initial_pc = self.get_initial_pc()
 
@@ -1525,11 +1531,6 @@ cdef class RollingVirtualStorage(VirtualStorage):
             self._initial_utilisation = self._max_volume / (self.timesteps - 1)
         else:
             self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self.timesteps - 1)
-        self._memory = np.full((self.timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
-        self._memory_pointer = 0
-
-    cpdef reset(self):
-        VirtualStorage.reset(self)
         self._memory[:] = self._initial_utilisation
         self._memory_pointer = 0
 
-- 
2.43.0


From 6d500572e9cd8764ead512e90ec7e977e1b23b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 28/85] fix: apply changes of a loss link's factor between runs
 and keep its maximum flow

---
 pywr/nodes.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index ba6ae61..f87ab29 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1309,8 +1309,10 @@ class LossLink(Node):
         self.gross.connect(self.net)
 
         self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        # The maximum flow given by the user while there is 100% loss (i.e. no net flow)
+        self._blocked_max_flow = None
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
-        self.loss_factor = kwargs.pop("loss_factor", 0.0)
+        self._loss_factor = kwargs.pop("loss_factor", 0.0)
 
         super().__init__(model, name, **kwargs)
 
@@ -1318,6 +1320,11 @@ class LossLink(Node):
         super().setup(model)
         value = self.loss_factor
 
+        if self._blocked_max_flow is not None:
+            # Undo a previous 100% loss
+            self.net.max_flow = self._blocked_max_flow
+            self._blocked_max_flow = None
+
         if value == 0.0:
             # 0% loss; no flow to the output loss node.
             self.agg.factors = None
@@ -1326,6 +1333,7 @@ class LossLink(Node):
             # 100% loss; all flow to the output loss node
             self.agg.factors = None
             self.output.max_flow = float("inf")
+            self._blocked_max_flow = self.net.max_flow
             self.net.max_flow = 0.0
         else:
             self.output.max_flow = float("inf")
@@ -1341,6 +1349,19 @@ class LossLink(Node):
                     f'Please use either "gross" or "net".'
                 )
 
+    def loss_factor():
+        def fget(self):
+            return self._loss_factor
+
+        def fset(self, value):
+            self._loss_factor = value
+            # The factors are applied during setup
+            self.model.dirty = True
+
+        return locals()
+
+    loss_factor = property(**loss_factor())
+
     def min_flow():
         def fget(self):
             return self.net.min_flow
@@ -1354,10 +1375,15 @@ class LossLink(Node):
 
     def max_flow():
         def fget(self):
+            if self._blocked_max_flow is not None:
+                return self._blocked_max_flow
             return self.net.max_flow
 
         def fset(self, value):
-            self.net.max_flow = value
+            if self._blocked_max_flow is not None:
+                self._blocked_max_flow = value
+            else:
+                self.net.max_flow = value
 
         return locals()
 
-- 
2.43.0


From fdfee867317b406dac6adbc0c37633b18ea91c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 29/85] fix: apply changed and varying limits of aggregated
 nodes in lpsolve

---
 pywr/solvers/cython_lpsolve.pyx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 35e0214..4e327ed 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -129,6 +129,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -203,9 +204,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -419,15 +418,6 @@ cdef class CythonLPSolveSolver:
         for row, agg_node in enumerate(aggregated_min_max):
             row = self.idx_row_aggregated_min_max + row
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
-
             weights = agg_node.flow_weights
             if weights is None:
                 weights = [1.0]*len(nodes)
@@ -445,8 +435,8 @@ cdef class CythonLPSolveSolver:
             for i, col in enumerate(matrix):
                 ind[i] = 1+col
                 val[i] = matrix[col]
+            # the bounds are set before each solve
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -472,6 +462,7 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
@@ -537,6 +528,12 @@ cdef class CythonLPSolveSolver:
             set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
+        # update aggregated node properties
+        for col, agg_node in enumerate(self.aggregated_min_max):
+            min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
+            max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            set_row_bnds(self.prob, self.idx_row_aggregated_min_max+col, min_flow, max_flow)
+
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
         t0 = time.perf_counter()
 
-- 
2.43.0


From 8bb354d5004047ba76f755c12af492dd6198f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 30/85] fix: apply changed costs between runs when fixed costs
 are set once

---
 pywr/solvers/cython_glpk.pyx | 73 +++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 2387325..5239a44 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -349,6 +349,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
     cdef list non_storages
     cdef list non_storages_with_dynamic_bounds
     cdef list non_storages_with_constant_bounds
+    cdef list nodes_with_constant_cost
     cdef list nodes_with_dynamic_cost
     cdef list storages
     cdef list virtual_storages
@@ -425,6 +426,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
+        nodes_with_constant_cost = []
         nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
         non_storages = []
         non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
@@ -496,7 +498,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        # Calculate the fixed costs
+        # Find the nodes with fixed costs
         for some_node in self.all_nodes:
             try:
                 fixed_cost = some_node.has_fixed_cost
@@ -504,10 +506,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
                 fixed_cost = False
 
             if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-                self.node_costs_arr[data.id] = cost
+                nodes_with_constant_cost.append(some_node)
             else:
                 nodes_with_dynamic_cost.append(some_node)
 
@@ -728,6 +727,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         self.non_storages = non_storages
         self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
         self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
+        self.nodes_with_constant_cost = nodes_with_constant_cost
         self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
@@ -759,6 +759,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
         self._update_nonstorage_constant_bounds()
+        self._update_constant_costs()
         self._update_constant_agg_factors()
 
     cdef int _update_nonstorage_constant_bounds(self) except -1:
@@ -785,6 +786,18 @@ cdef class CythonGLPKSolver(GLPKSolver):
             set_row_bnds_safe(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow),
                          min_flow, max_flow)
 
+    cdef int _update_constant_costs(self) except -1:
+        """Update the costs of nodes where they are constants.
+
+        These costs do not need updating every time-step.
+        """
+        if self.nodes_with_constant_cost is None:
+            return 0
+        for node in self.nodes_with_constant_cost:
+            if node.has_fixed_cost:
+                # With a fixed cost this should work with no scenario index
+                self.node_costs_arr[node._AbstractNode__data.id] = node.get_cost(None)
+
     cdef int _update_constant_agg_factors(self) except -1:
         cdef AggregatedNode agg_node
         cdef AggNodeFactorData agg_data
@@ -1110,6 +1123,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
     cdef list non_storages
     cdef list non_storages_with_dynamic_bounds
     cdef list non_storages_with_constant_bounds
+    cdef list nodes_with_constant_cost
     cdef list nodes_with_dynamic_cost
     cdef list storages
     cdef list virtual_storages
@@ -1192,6 +1206,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
+        nodes_with_constant_cost = []
         nodes_with_dynamic_cost = []
         link_nodes = []
         non_storages = []
@@ -1265,8 +1280,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        self.edge_fixed_cost_arr[...] = 0.0
-        # Calculate fixed costs
+        # Find the nodes with fixed costs
         for some_node in self.all_nodes:
             try:
                 fixed_cost = some_node.has_fixed_cost
@@ -1274,20 +1288,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 fixed_cost = False
 
             if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-
-                # Link nodes have edges connected upstream & downstream. We apply
-                # half the cost assigned to the node to all the connected edges.
-                # The edge costs are then the mean of the node costs at either end.
-                if data.is_link:
-                    cost /= 2
-
-                for col in data.in_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-                for col in data.out_edges:
-                    self.edge_fixed_cost_arr[col] += cost
+                nodes_with_constant_cost.append(some_node)
             else:
                 nodes_with_dynamic_cost.append(some_node)
 
@@ -1540,6 +1541,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         self.non_storages = non_storages
         self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
         self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
+        self.nodes_with_constant_cost = nodes_with_constant_cost
         self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
@@ -1571,6 +1573,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
         self._update_nonstorage_constant_bounds()
+        self._update_constant_costs()
         self._update_constant_agg_factors()
 
     cdef int _update_nonstorage_constant_bounds(self) except -1:
@@ -1598,6 +1601,34 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             set_row_bnds_safe(self.prob, self.idx_row_non_storages+row, constraint_type(min_flow, max_flow),
                          min_flow, max_flow)
 
+    cdef int _update_constant_costs(self) except -1:
+        """Update the costs of nodes where they are constants.
+
+        These costs do not need updating every time-step.
+        """
+        cdef double cost
+        cdef int col
+        if self.nodes_with_constant_cost is None:
+            return 0
+        self.edge_fixed_cost_arr[...] = 0.0
+        for node in self.nodes_with_constant_cost:
+            if not node.has_fixed_cost:
+                continue
+            # With a fixed cost this should work with no scenario index
+            cost = node.get_cost(None)
+            data = node._AbstractNode__data
+
+            # Link nodes have edges connected upstream & downstream. We apply
+            # half the cost assigned to the node to all the connected edges.
+            # The edge costs are then the mean of the node costs at either end.
+            if data.is_link:
+                cost /= 2
+
+            for col in data.in_edges:
+                self.edge_fixed_cost_arr[col] += cost
+            for col in data.out_edges:
+                self.edge_fixed_cost_arr[col] += cost
+
     cdef int _update_constant_agg_factors(self) except -1:
         cdef AggregatedNode agg_node
         cdef AggNodeFactorData agg_data
-- 
2.43.0


From b9119577533d23d64e0d605efc2f930d649024db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 31/85] fix: set the model up again when the selection of
 scenarios changes

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..7ff0c37 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -2,9 +2,10 @@ from .parameters._parameters cimport Parameter
 
 
 cdef class Scenario:
+    cdef object _model
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef slice _slice
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index de37c86..0e5a80c 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -48,6 +48,17 @@ cdef class Scenario:
         self.ensemble_names = ensemble_names
         # Do this last so only set on the model if no error is raised.
         model.scenarios.add_scenario(self)
+        self._model = model
+
+    property slice:
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            # a different selection must be set up before it is run
+            if self._model is not None:
+                self._model.dirty = True
 
     property size:
         def __get__(self, ):
@@ -137,6 +148,8 @@ cdef class ScenarioCollection:
         def __set__(self, values):
             if values is None:
                 self._user_combinations = None
+                # a different selection must be set up before it is run
+                self.model.dirty = True
                 return
             cdef Scenario sc
             values = np.asarray(values, dtype=np.int32)
@@ -152,6 +165,7 @@ cdef class ScenarioCollection:
                 raise ValueError('Ensemble index less than zero is invalid.')
 
             self._user_combinations = values
+            self.model.dirty = True
 
     cpdef int get_scenario_index(self, Scenario sc) except? -1:
         """Return the index of Scenario in this controller."""
-- 
2.43.0


From 9711b2da270de7493eacb7df33f11b47b315ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 32/85] fix: ignore_nan flattens the table when aggregating
 over an axis

---
 pywr/recorders/_recorders.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 204d5aa..5178e66 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -145,8 +145,12 @@ cdef class Aggregator:
         cdef double[:, :] values = data
         cdef Py_ssize_t i
 
-        if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+        if ignore_nan and np.any(np.isnan(values)):
+            # each row or column may have a different number of values
+            array = np.asarray(values)
+            if axis == 0:
+                array = array.T
+            return np.array([self.aggregate_1d(row, ignore_nan=True) for row in np.ascontiguousarray(array)])
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 986104ebf75d652ebf0f946b4540258c409de0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 33/85] fix: default, median, percentile and dict functions of
 AggregatedRecorder

---
 pywr/recorders/_recorders.pyx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 5178e66..f54537b 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -385,16 +385,18 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
         if isinstance(agg_func, str):
-            agg_func = _agg_func_lookup[agg_func.lower()]
+            func_type = _agg_func_lookup[agg_func.lower()]
         elif callable(agg_func):
-            self.recorder_agg_func = agg_func
-            agg_func = AggFuncs.CUSTOM
+            func_type = AggFuncs.CUSTOM
+        elif isinstance(agg_func, dict):
+            func_type = _agg_func_lookup[agg_func['func']]
         else:
             raise ValueError("Unrecognised recorder aggregation function: \"{}\".".format(agg_func))
-        self._recorder_agg_func = agg_func
+        self.recorder_agg_func = Aggregator(agg_func)
+        self._recorder_agg_func = func_type
 
         super(AggregatedRecorder, self).__init__(model, **kwargs)
         self.recorders = list(recorders)
@@ -446,7 +448,7 @@ cdef class AggregatedRecorder(Recorder):
             for i in range(n):
                 value[i] /= len(self.recorders)
         else:
-            value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
+            value = self.recorder_agg_func.aggregate_2d(np.array([recorder.values() for recorder in self.recorders]), axis=0)
         return value
 
     @classmethod
-- 
2.43.0


From b0a8b16a616c55b5e11af66de7bb273c22dbd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 34/85] fix: rolling recorders count the steps since the last
 reset

---
 pywr/recorders/_recorders.pxd |  2 ++
 pywr/recorders/_recorders.pyx | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index c456d2c..8685c2d 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -102,11 +102,13 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cdef public Aggregator _temporal_aggregator
     cdef public int window
     cdef int position
+    cdef int _count
     cdef double[:, :] _memory
     cdef double[:, :] _data
 
 cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cdef int position
+    cdef int _count
     cdef public int timesteps
     cdef public int days
     cdef double[:, :] _memory
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index f54537b..855d241 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1590,6 +1590,7 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cpdef reset(self):
         self._data[...] = 0
         self.position = 0
+        self._count = 0
 
     cpdef after(self):
         cdef int i, n
@@ -1600,10 +1601,10 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
         for i, scenario_index in enumerate(self.model.scenarios.combinations):
             self._memory[self.position, i] = self._param.get_value(scenario_index)
 
-        if timestep.index < self.window:
-            n = timestep.index + 1
-        else:
-            n = self.window
+        # values since the last reset, which may be later than the first timestep
+        if self._count < self.window:
+            self._count += 1
+        n = self._count
 
         value = self._temporal_aggregator.aggregate_2d(self._memory[0:n, :], axis=0)
         self._data[timestep.index, :] = value
@@ -1683,6 +1684,7 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cpdef reset(self):
         super(RollingMeanFlowNodeRecorder, self).reset()
         self.position = 0
+        self._count = 0
 
     cpdef after(self):
         cdef Timestep timestep
@@ -1693,10 +1695,10 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
             self._memory[i, self.position] = self._node._flow[i]
         # calculate the mean flow
         timestep = self.model.timestepper.current
-        if timestep.index < self.timesteps:
-            n = timestep.index + 1
-        else:
-            n = self.timesteps
+        # flows since the last reset, which may be later than the first timestep
+        if self._count < self.timesteps:
+            self._count += 1
+        n = self._count
         # save the mean flow
         mean_flow = np.mean(self._memory[:, 0:n], axis=1)
         self._data[<int>(timestep.index), :] = mean_flow
-- 
2.43.0


From c2c62fc3a7f675a0b29b39c8d8de225b799e14fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 35/85] fix: calibration recorders return arrays

---
 pywr/recorders/calibration.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..ce04eac 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -41,7 +41,7 @@ class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sqrt(np.mean((obs - mod) ** 2, axis=0))
+        return np.asarray(np.sqrt(np.mean((obs - mod) ** 2, axis=0)))
 
 
 class MeanAbsoluteErrorNodeRecorder(AbstractComparisonNodeRecorder):
@@ -50,7 +50,7 @@ class MeanAbsoluteErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.mean(np.abs(obs - mod), axis=0)
+        return np.asarray(np.mean(np.abs(obs - mod), axis=0))
 
 
 class MeanSquareErrorNodeRecorder(AbstractComparisonNodeRecorder):
@@ -59,7 +59,7 @@ class MeanSquareErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.mean((obs - mod) ** 2, axis=0)
+        return np.asarray(np.mean((obs - mod) ** 2, axis=0))
 
 
 class PercentBiasNodeRecorder(AbstractComparisonNodeRecorder):
@@ -68,7 +68,7 @@ class PercentBiasNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sum(obs - mod, axis=0) * 100 / np.sum(obs, axis=0)
+        return np.asarray(np.sum(obs - mod, axis=0) * 100 / np.sum(obs, axis=0))
 
 
 class RMSEStandardDeviationRatioNodeRecorder(AbstractComparisonNodeRecorder):
@@ -77,7 +77,9 @@ class RMSEStandardDeviationRatioNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sqrt(np.mean((obs - mod) ** 2, axis=0)) / np.std(obs, axis=0)
+        return np.asarray(
+            np.sqrt(np.mean((obs - mod) ** 2, axis=0)) / np.std(obs, axis=0)
+        )
 
 
 class NashSutcliffeEfficiencyNodeRecorder(AbstractComparisonNodeRecorder):
@@ -87,6 +89,7 @@ class NashSutcliffeEfficiencyNodeRecorder(AbstractComparisonNodeRecorder):
         mod = self.data
         obs = self._aligned_observed
         obs_mean = np.mean(obs, axis=0)
-        return 1.0 - np.sum((obs - mod) ** 2, axis=0) / np.sum(
-            (obs - obs_mean) ** 2, axis=0
+        return np.asarray(
+            1.0
+            - np.sum((obs - mod) ** 2, axis=0) / np.sum((obs - obs_mean) ** 2, axis=0)
         )
-- 
2.43.0


From 3b7bb0c744047414c402f555ce75100706deac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 36/85] fix: events triggered by values between -1 and 1

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index d1d9c48..d28bb3a 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.array(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.array(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From 5955d816992bfb2b39e9f7c27b0e4e8861faf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 37/85] fix: rolling mean parameter counts the flows since the
 last reset

---
 pywr/parameters/_parameters.pxd |  1 +
 pywr/parameters/_parameters.pyx | 15 +++++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 6050684..475d0ca 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -231,6 +231,7 @@ cdef class DiscountFactorParameter(Parameter):
 
 cdef class RollingMeanFlowNodeParameter(Parameter):
     cdef int position
+    cdef int _count
     cdef public int timesteps
     cdef public int days
     cdef public double initial_flow
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 5884d6c..b0f75b4 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2238,21 +2238,16 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
     cpdef reset(self):
         super(RollingMeanFlowNodeParameter, self).reset()
         self.position = 0
+        self._count = 0
         self._memory[:] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
-
-        cdef int n
         # No data in memory yet
-        if ts.index == 0:
+        if self._count == 0:
             return self.initial_flow
 
         # Calculate the mean flow from the memory
-        if ts.index <= self.timesteps:
-            n = ts.index
-        else:
-            n = self.timesteps
-        return np.mean(self._memory[scenario_index.global_id, :n])
+        return np.mean(self._memory[scenario_index.global_id, :self._count])
 
     cpdef after(self):
         cdef int i
@@ -2260,6 +2255,10 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
         for i in range(0, self._memory.shape[0]):
             self._memory[i, self.position] = self.node._flow[i]
 
+        # number of flows saved since the last reset, which may be later than the first timestep
+        if self._count < self.timesteps:
+            self._count += 1
+
         # prepare for the next timestep
         self.position += 1
         if self.position >= self.timesteps:
-- 
2.43.0


From 7b7d17731e250e3c4a1cfd7f0b0a3c6d6f3e14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 38/85] fix: polynomial of a node uses its previous flow

---
 pywr/parameters/_polynomial.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..dfa7701 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,9 +71,11 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
+        elif self._node is not None:
+            x = self._node._prev_flow[scenario_index.global_id]
         else:
-            x = self._node._flow[scenario_index.global_id]
+            raise ValueError('One of "node", "storage_node" or "parameter" must be given.')
 
         # Apply scaling and offset
         x = x*self.scale + self.offset
-- 
2.43.0


From 422c4ae12e5a229b010b0b9bbaa1f7a51fb1ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 39/85] fix: read the initial level of an aquifer before the
 model is set up

---
 pywr/domains/groundwater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..4e1a249 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -98,6 +98,7 @@ class KeatingAquifer(Storage):
         self._volumes = volumes
         self._levels = levels
         self._level_to_volume = interp1d(levels, volumes)
+        self._volume_to_level = interp1d(volumes, levels)
 
         self.max_volume = max(volumes)
         self.min_volume = min(volumes)
@@ -115,7 +116,7 @@ class KeatingAquifer(Storage):
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-            return self.level.interp(self.initial_volume)
+            return self._volume_to_level(self.initial_volume)
 
         def fset(self, value):
             # actually sets the initial volume
-- 
2.43.0


From a0484841f8138bc0a4b526681a593d88607238b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 40/85] fix: storage licence is used up over the days of the
 timestep

---
 pywr/parameters/licenses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..9dc88d1 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -84,7 +84,8 @@ class StorageLicense(License):
         self._remaining = np.ones(len(self.model.scenarios.combinations)) * self._amount
 
     def value(self, timestep, scenario_index):
-        return self._remaining[scenario_index.global_id]
+        # The whole of the remaining volume could be used in this timestep
+        return self._remaining[scenario_index.global_id] / timestep.days
 
     def after(self):
         timestep = self.model.timestepper.current
-- 
2.43.0


From d2c4ccbae352d32a1a5c7bd19acb3fc5812e462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 41/85] fix: annual licences with monthly timesteps and
 timesteps that cross the end of the year

---
 pywr/parameters/licenses.py | 41 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 9dc88d1..3ffdae1 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -124,28 +124,39 @@ class AnnualLicense(StorageLicense):
         self._prev_year = None
 
     def value(self, timestep, scenario_index):
+        value = self._daily_remaining(timestep, scenario_index)
+        # Days of this timestep that are part of the next year, and use its licence.
+        days_after_reset = timestep.days - self._days_remaining(timestep)
+        if days_after_reset > 0:
+            value = min(value, self._amount / days_after_reset)
+        return value
+
+    def _days_remaining(self, timestep):
+        """The number of days left in the year at the start of the timestep"""
+        start = timestep.datetime
+        days_in_year = 365 + int(calendar.isleap(start.year))
+        return days_in_year - (start.dayofyear - 1)
+
+    def _daily_remaining(self, timestep, scenario_index):
+        """The remaining volume per day left in the year"""
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
-        days_in_year = 365 + int(calendar.isleap(timestep.year))
-        if day_of_year == days_in_year:
-            return self._remaining[i]
-        else:
-            days_remaining = days_in_year - (day_of_year - 1)
-            return self._remaining[i] / days_remaining
+        return self._remaining[i] / self._days_remaining(timestep)
 
     def before(self):
         # Reset licence if year changes.
         timestep = self.model.timestepper.current
-        if self._prev_year != timestep.year:
+        start = timestep.datetime
+        if self._prev_year != start.year:
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = start.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
-            self._prev_year = timestep.year
+            self._prev_year = start.year
 
 
 AnnualLicense.register()
@@ -180,10 +191,8 @@ class AnnualExponentialLicense(AnnualLicense):
         self._k = k
 
     def value(self, timestep, scenario_index):
-        remaining = super(AnnualExponentialLicense, self).value(
-            timestep, scenario_index
-        )
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        remaining = self._daily_remaining(timestep, scenario_index)
+        expected = self._amount / (365 + int(calendar.isleap(timestep.datetime.year)))
         x = remaining / expected
         return self._max_value * np.exp(-x / self._k)
 
@@ -217,8 +226,8 @@ class AnnualHyperbolaLicense(AnnualLicense):
         self._value = value
 
     def value(self, timestep, scenario_index):
-        remaining = super(AnnualHyperbolaLicense, self).value(timestep, scenario_index)
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        remaining = self._daily_remaining(timestep, scenario_index)
+        expected = self._amount / (365 + int(calendar.isleap(timestep.datetime.year)))
         x = remaining / expected
         try:
             return self._value / x
-- 
2.43.0


From 185c10a4fb57b9fc949dadfd9396e7c7c04aeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 42/85] fix: constraints and totals over compound nodes use the
 sub-node with the flow

---
 pywr/_core.pyx                  | 27 ++++++++++++++++++++++++---
 pywr/nodes.py                   | 20 ++++++++++++++++++++
 pywr/solvers/cython_glpk.pyx    | 13 +++++++------
 pywr/solvers/cython_lpsolve.pyx |  7 ++++---
 4 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 0e5a80c..cbf08a8 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -466,6 +466,15 @@ cdef class AbstractNode:
         def __get__(self):
             return np.array(self._flow)
 
+    property flow_node:
+        """The node of the network which has the flow of this node.
+
+        This is the node itself, unless it is a compound node which is only part of
+        the network through its sub-nodes.
+        """
+        def __get__(self):
+            return self
+
     def __repr__(self):
         if self.name:
             # e.g. <Node "oxford">
@@ -773,9 +782,15 @@ cdef class AggregatedNode(AbstractNode):
             self._nodes = list(value)
             self.model.dirty = True
 
+    property flow_nodes:
+        """The nodes of the network which have the flow of each of the `nodes`."""
+        def __get__(self):
+            return [node.flow_node for node in self._nodes]
+
     cpdef after(self, Timestep ts):
         cdef int i, j
-        cdef Node n
+        cdef AbstractNode n
+        cdef list nodes = self.flow_nodes
 
         cdef double[:] weights
         if self._flow_weights is not None:
@@ -785,7 +800,7 @@ cdef class AggregatedNode(AbstractNode):
 
         for i, si in enumerate(self.model.scenarios.combinations):
             self._flow[i] = 0.0
-            for j, n in enumerate(self._nodes):
+            for j, n in enumerate(nodes):
                 self._flow[i] += n._flow[i]*weights[j]
 
         # Make sure save is done after setting aggregated flow
@@ -1501,6 +1516,11 @@ cdef class VirtualStorage(Storage):
             self._nodes = list(value)
             self.model.dirty = True
 
+    property flow_nodes:
+        """The nodes of the network which have the flow of each of the `nodes`."""
+        def __get__(self):
+            return [node.flow_node for node in self._nodes]
+
     property factors:
         def __get__(self):
             return np.array(self._factors)
@@ -1513,11 +1533,12 @@ cdef class VirtualStorage(Storage):
         cdef int i
         cdef ScenarioIndex si
         cdef AbstractNode n
+        cdef list nodes = self.flow_nodes
 
         if self.active:
             for i, si in enumerate(self.model.scenarios.combinations):
                 self._flow[i] = 0.0
-                for n, f in zip(self._nodes, self._factors):
+                for n, f in zip(nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
 
diff --git a/pywr/nodes.py b/pywr/nodes.py
index f87ab29..c818272 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -868,6 +868,11 @@ class PiecewiseLink(Node):
         else:
             yield self.output
 
+    @property
+    def flow_node(self):
+        """The sub-node that all the flow of this node goes in to"""
+        return self.output
+
     def after(self, timestep):
         """
         Set total flow on this link as sum of sublinks
@@ -1185,6 +1190,11 @@ class BreakLink(Node):
             # connecting FROM something else TO the transfer
             yield self.storage.outputs[0]
 
+    @property
+    def flow_node(self):
+        """The sub-node that has the flow of this node"""
+        return self.link
+
     def after(self, timestep):
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
@@ -1254,6 +1264,11 @@ class DelayNode(Node):
         else:
             yield self.output
 
+    @property
+    def flow_node(self):
+        """The sub-node that provides the delayed flow"""
+        return self.input
+
     def after(self, timestep):
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
@@ -1406,6 +1421,11 @@ class LossLink(Node):
         else:
             yield self.gross
 
+    @property
+    def flow_node(self):
+        """The sub-node that has the net flow"""
+        return self.net
+
     def after(self, timestep):
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 5239a44..b348b3f 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -605,10 +605,11 @@ cdef class CythonGLPKSolver(GLPKSolver):
         for row, storage in enumerate(virtual_storages):
             # We need to handle the same route appearing twice here.
             cols = {}
+            nodes = storage.flow_nodes
             for n, route in enumerate(routes):
                 for some_node in route:
                     try:
-                        i = storage.nodes.index(some_node)
+                        i = nodes.index(some_node)
                     except ValueError:
                         pass
                     else:
@@ -638,7 +639,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         if len(aggregated_with_factors):
             self.idx_row_aggregated = self.idx_row_virtual_storages + len(virtual_storages)
         for agg_node in aggregated_with_factors:
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
 
             row = glp_add_rows(self.prob, len(agg_node.nodes)-1)
             agg_node._AggregatedNode__agg_factor_data.row = row
@@ -676,7 +677,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
             self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
         for row, agg_node in enumerate(aggregated):
             row = self.idx_row_aggregated_min_max + row
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
 
             weights = agg_node.flow_weights
             if weights is None:
@@ -1427,7 +1428,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             # We need to handle the same route appearing twice here.
             cols = {}
 
-            for i, some_node in enumerate(storage.nodes):
+            for i, some_node in enumerate(storage.flow_nodes):
                 if isinstance(some_node, BaseOutput):
                     node_cols = some_node._AbstractNode__data.in_edges
                 else:
@@ -1460,7 +1461,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         if len(aggregated_with_factors):
             self.idx_row_aggregated_with_factors = self.idx_row_virtual_storages + len(virtual_storages)
         for agg_node in aggregated_with_factors:
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
 
             row = glp_add_rows(self.prob, len(agg_node.nodes)-1)
             agg_node._AggregatedNode__agg_factor_data.row = row
@@ -1505,7 +1506,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
         for row, agg_node in enumerate(aggregated):
             row = self.idx_row_aggregated_min_max + row
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
 
             weights = agg_node.flow_weights
             if weights is None:
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 4e327ed..2836dcf 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -349,10 +349,11 @@ cdef class CythonLPSolveSolver:
         for col, storage in enumerate(virtual_storages):
             # We need to handle the same route appearing twice here.
             cols = {}
+            nodes = storage.flow_nodes
             for n, route in enumerate(routes):
                 for some_node in route:
                     try:
-                        i = storage.nodes.index(some_node)
+                        i = nodes.index(some_node)
                     except ValueError:
                         pass
                     else:
@@ -377,7 +378,7 @@ cdef class CythonLPSolveSolver:
             self.idx_row_aggregated = get_Norig_rows(self.prob)+1
 
         for agg_node in aggregated:
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
             # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
             factors = [f.get_double_variables()[0] for f in agg_node.factors]
             assert(len(nodes) == len(factors))
@@ -417,7 +418,7 @@ cdef class CythonLPSolveSolver:
 
         for row, agg_node in enumerate(aggregated_min_max):
             row = self.idx_row_aggregated_min_max + row
-            nodes = agg_node.nodes
+            nodes = agg_node.flow_nodes
             weights = agg_node.flow_weights
             if weights is None:
                 weights = [1.0]*len(nodes)
-- 
2.43.0


From 4b07684edf0dba6ff56a660a86bf0e08626d3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 43/85] fix: reset the sub-nodes of compound nodes

---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..49969e5 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,7 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +777,8 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                # Sub-nodes are not profiled separately
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From 956420c68c0304e1e6c586afc0f5cda98da2532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 44/85] fix: aggregated storages follow virtual storages that
 are reset

---
 pywr/_core.pxd  |  2 ++
 pywr/_core.pyx  | 59 +++++++++++++++++++++++++++++++++++--------------
 pywr/_model.pyx | 10 +++++++--
 3 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 7ff0c37..f6cfbba 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -145,6 +145,8 @@ cdef class Storage(AbstractStorage):
 
 cdef class AggregatedStorage(AbstractStorage):
     cdef list _storage_nodes
+    cdef bint _evaluated
+    cdef double _get_previous_max_volume(self, ScenarioIndex si) except? -1
     cpdef double[:] get_all_min_volume(self, double[:] out=*)
     cpdef double[:] get_all_max_volume(self, double[:] out=*)
 
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index cbf08a8..555132e 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1412,48 +1412,75 @@ cdef class AggregatedStorage(AbstractStorage):
             cdef Storage s
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
-    cpdef reset(self):
-        AbstractStorage.reset(self)
-        cdef int i
+    cdef double _get_previous_max_volume(self, ScenarioIndex si) except? -1:
+        """The maximum volume before the parameters are evaluated for the current timestep"""
         cdef double mxv = 0.0
         cdef double pc
         cdef Storage s
+
+        for s in self._storage_nodes:
+            if self._evaluated or s._max_volume_param is None:
+                mxv += s.get_max_volume(si)
+            else:
+                # The parameter has not been evaluated for the first timestep yet. The maximum
+                # it will give follows from the initial volume and proportion of the node.
+                pc = s.get_initial_pc()
+                if pc != 0.0:
+                    mxv += s.get_initial_volume() / pc
+        return mxv
+
+    cpdef reset(self):
+        AbstractStorage.reset(self)
+        cdef int i
         cdef ScenarioIndex si
 
+        self._evaluated = False
         for i, si in enumerate(self.model.scenarios.combinations):
-            mxv = 0.0
-            for s in self._storage_nodes:
-                if s._max_volume_param is None:
-                    mxv += s.get_max_volume(si)
-                else:
-                    # The parameter has not been evaluated for the first timestep yet. The maximum
-                    # it will give follows from the initial volume and proportion of the node.
-                    pc = s.get_initial_pc()
-                    if pc != 0.0:
-                        mxv += s.get_initial_volume() / pc
-
             self._volume[i] = self.initial_volume
             # Ensure variable maximum volume is taken in to account
             try:
-                self._current_pc[i] = self._volume[i] / mxv
+                self._current_pc[i] = self._volume[i] / self._get_previous_max_volume(si)
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
 
+    cpdef before(self, Timestep ts):
+        cdef int i
+        cdef Storage s
+        cdef double volume
+        cdef double mxv
+        cdef ScenarioIndex si
+
+        AbstractStorage.before(self, ts)
+        for i, si in enumerate(self.model.scenarios.combinations):
+            volume = 0.0
+            for s in self._storage_nodes:
+                volume += s._volume[i]
+
+            if abs(self._volume[i] - volume) > 1e-6:
+                # A virtual storage has been reset for this timestep
+                self._volume[i] = volume
+                try:
+                    self._current_pc[i] = volume / self._get_previous_max_volume(si)
+                except ZeroDivisionError:
+                    self._current_pc[i] = np.nan
+
     cpdef after(self, Timestep ts):
         cdef int i
         cdef Storage s
         cdef double mxv
         cdef double mnv
 
+        self._evaluated = True
         for i, si in enumerate(self.model.scenarios.combinations):
             self._flow[i] = 0.0
+            self._volume[i] = 0.0
             mxv = 0.0
             mnv = 0.0
             for s in self._storage_nodes:
                 self._flow[i] += s._flow[i]
+                self._volume[i] += s._volume[i]
                 mxv += s.get_max_volume(si)
                 mnv += s.get_min_volume(si)
-            self._volume[i] += self._flow[i]*ts.days
 
             if abs(self._volume[i] - mxv) < 1e-6:
                 self._volume[i] = mxv
diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 49969e5..e04a827 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -823,6 +823,12 @@ class Model(object):
         logger.info('Reset complete!')
         return profiler
 
+    def _nodes_to_update(self):
+        """ The nodes, with aggregated storages following the storages they are made of """
+        nodes = list(self.graph.nodes())
+        nodes.sort(key=lambda node: isinstance(node, AggregatedStorage))
+        return nodes
+
     def before(self):
         """ Perform initialisation work before solve on each timestep.
 
@@ -837,7 +843,7 @@ class Model(object):
         cdef Component component
         cdef BaseParameter param
         cdef double t0 = time.time()
-        for node in self.graph.nodes():
+        for node in self._nodes_to_update():
             node.before(self.timestep)
         cdef list components = self.flatten_component_tree(rebuild=False)
         for component in components:
@@ -853,7 +859,7 @@ class Model(object):
         cdef AbstractNode node
         cdef Component component
         cdef double t0 = time.time()
-        for node in self.graph.nodes():
+        for node in self._nodes_to_update():
             node.after(self.timestep)
         cdef list components = self.flatten_component_tree(rebuild=False)
         for component in components:
-- 
2.43.0


From 7c75162e702f417332ebabb86bb0b9dfac397284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 45/85] fix: splits and aggregated nodes with a single factor
 or none

---
 pywr/nodes.py                | 5 +++--
 pywr/solvers/cython_glpk.pyx | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index c818272..2afe46e 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -996,8 +996,9 @@ class MultiSplitLink(PiecewiseLink):
                     nodes.append(nd)
                     valid_factors.append(r)
 
-            agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
-            agg.factors = valid_factors
+            if len(nodes) > 0:
+                agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+                agg.factors = valid_factors
 
     def _pad_steps(self, values, fill):
         """Extend values given only for the steps to the sub-links of the extra slots"""
diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index b348b3f..83c80a3 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -446,7 +446,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
             elif isinstance(some_node, Storage):
                 storages.append(some_node)
             elif isinstance(some_node, AggregatedNode):
-                if some_node.factors is not None:
+                if some_node.factors is not None and len(some_node.nodes) > 1:
                     aggregated_with_factors.append(some_node)
                     some_node._AggregatedNode__agg_factor_data = AggNodeFactorData()
                 aggregated.append(some_node)
@@ -1230,7 +1230,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             elif isinstance(some_node, Storage):
                 storages.append(some_node)
             elif isinstance(some_node, AggregatedNode):
-                if some_node.factors is not None:
+                if some_node.factors is not None and len(some_node.nodes) > 1:
                     aggregated_with_factors.append(some_node)
                     some_node._AggregatedNode__agg_factor_data = AggNodeFactorData()
                 aggregated.append(some_node)
-- 
2.43.0


From 9755c9841f80968d49d7ff6f42fa1894f2df3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 46/85] fix: loss link blocked by a full loss without a maximum
 flow

---
 pywr/nodes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2afe46e..6b02279 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1325,7 +1325,8 @@ class LossLink(Node):
         self.gross.connect(self.net)
 
         self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
-        # The maximum flow given by the user while there is 100% loss (i.e. no net flow)
+        # While there is 100% loss (i.e. no net flow), the maximum flow given by the user
+        self._blocked = False
         self._blocked_max_flow = None
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self._loss_factor = kwargs.pop("loss_factor", 0.0)
@@ -1336,10 +1337,10 @@ class LossLink(Node):
         super().setup(model)
         value = self.loss_factor
 
-        if self._blocked_max_flow is not None:
+        if self._blocked:
             # Undo a previous 100% loss
             self.net.max_flow = self._blocked_max_flow
-            self._blocked_max_flow = None
+            self._blocked = False
 
         if value == 0.0:
             # 0% loss; no flow to the output loss node.
@@ -1349,6 +1350,7 @@ class LossLink(Node):
             # 100% loss; all flow to the output loss node
             self.agg.factors = None
             self.output.max_flow = float("inf")
+            self._blocked = True
             self._blocked_max_flow = self.net.max_flow
             self.net.max_flow = 0.0
         else:
@@ -1391,12 +1393,12 @@ class LossLink(Node):
 
     def max_flow():
         def fget(self):
-            if self._blocked_max_flow is not None:
+            if self._blocked:
                 return self._blocked_max_flow
             return self.net.max_flow
 
         def fset(self, value):
-            if self._blocked_max_flow is not None:
+            if self._blocked:
                 self._blocked_max_flow = value
             else:
                 self.net.max_flow = value
-- 
2.43.0


From f26995b9969c9e3dc4a1b3c82762f8296dc47556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 47/85] fix: keep a component dependency until its last
 reference is removed

---
 pywr/_component.pyx             | 23 ++++++++++++++++-------
 pywr/parameters/_parameters.pyx |  1 -
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..6c676ac 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -15,21 +15,30 @@ class GraphInterface:
     def graph(self):
         return self.obj.model.component_graph
 
+    def _edge(self, item):
+        if self is self.obj.children:
+            return item, self.obj
+        else:
+            return self.obj, item
+
     def add(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.add_edge(item, self.obj)
-        else:
-            self.graph.add_edge(self.obj, item)
+        u, v = self._edge(item)
+        # A component can be referenced several times by another; the dependency
+        # remains until the last of the references is removed.
+        references = self.graph.get_edge_data(u, v, {}).get("references", 0)
+        self.graph.add_edge(u, v, references=references + 1)
 
     def remove(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.remove_edge(item, self.obj)
+        u, v = self._edge(item)
+        references = self.graph.get_edge_data(u, v, {}).get("references", 1)
+        if references > 1:
+            self.graph.add_edge(u, v, references=references - 1)
         else:
-            self.graph.remove_edge(self.obj, item)
+            self.graph.remove_edge(u, v)
 
     def clear(self):
         for n in self._members:
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index b0f75b4..063ac88 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1291,7 +1291,6 @@ cdef class IndexedArrayParameter(Parameter):
 
         for param in self.params:
             self.children.add(param)
-        self.children.add(index_parameter)
 
     cpdef double value(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the value of the Parameter at the current index"""
-- 
2.43.0


From 9232cb2eac0ffcda8643bf6281a159434b7d5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 48/85] fix: limits of compound nodes in all scenarios are
 those of their links

---
 pywr/nodes.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6b02279..506677a 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -748,6 +748,16 @@ class MonthlyVirtualStorage(VirtualStorage):
                 self._reset_storage_only(use_initial_volume=use_initial_volume)
 
 
+def _get_all(node, func, out=None):
+    """Evaluate a function of a scenario index for all of the scenarios that are run"""
+    combinations = node.model.scenarios.combinations
+    if out is None:
+        out = np.empty(len(combinations))
+    for i, si in enumerate(combinations):
+        out[i] = func(si)
+    return out
+
+
 class PiecewiseLink(Node):
     """An extension of Node that represents a non-linear Link with a piece wise cost function.
 
@@ -828,6 +838,12 @@ class PiecewiseLink(Node):
     def get_max_flow(self, si):
         return sum([sl.get_max_flow(si) for sl in self.sublinks])
 
+    def get_all_min_flow(self, out=None):
+        return _get_all(self, self.get_min_flow, out)
+
+    def get_all_max_flow(self, out=None):
+        return _get_all(self, self.get_max_flow, out)
+
     def costs():
         def fget(self):
             return [sl.cost for sl in self.sublinks]
@@ -1172,6 +1188,18 @@ class BreakLink(Node):
 
     max_flow = property(**max_flow())
 
+    def get_min_flow(self, si):
+        return self.link.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.link.get_max_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.link.get_all_min_flow(out)
+
+    def get_all_max_flow(self, out=None):
+        return self.link.get_all_max_flow(out)
+
     def cost():
         def fget(self):
             return self.link.cost
@@ -1407,6 +1435,18 @@ class LossLink(Node):
 
     max_flow = property(**max_flow())
 
+    def get_min_flow(self, si):
+        return self.net.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.net.get_max_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.net.get_all_min_flow(out)
+
+    def get_all_max_flow(self, out=None):
+        return self.net.get_all_max_flow(out)
+
     def cost():
         def fget(self):
             return self.net.cost
-- 
2.43.0


From f6e08288f280e6ccdc933c644222384efed1bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 49/85] fix: nodes and two-letter names in the selections of
 tables recorders

---
 pywr/recorders/_tables_recorders.pyx | 19 +++++++++++--------
 pywr/recorders/recorders.py          | 17 ++++++++++-------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..6a0ca58 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,10 +2,11 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
+from .._component cimport Component
 from .._core cimport Timestep, Scenario, ScenarioIndex, AbstractNode, AbstractStorage, Storage
 
 class ParameterNameWarning(UserWarning):
@@ -140,11 +141,11 @@ class TablesRecorder2(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
-            where, param = parameter
-        except (TypeError, ValueError):
+        if isinstance(parameter, (str, Component)):
             where = None
             param = parameter
+        else:
+            where, param = parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -239,17 +240,19 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
-                    where, node = n
-                except (TypeError, ValueError):
+                if isinstance(n, (str, AbstractNode)):
+                    where = None
                     node = n
-                    where = self.where + "/" + node
+                else:
+                    where, node = n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
 
+                if where is None:
+                    where = self.where + "/" + node.name
                 where = where.replace("//", "/")
                 items.append((where, node))
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 45ee536..919bfdf 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -3,6 +3,7 @@ import pandas
 import numpy as np
 from functools import wraps
 from pywr._core import AbstractNode, AbstractStorage
+from pywr._component import Component
 from ._recorders import *
 from ._thresholds import *
 from ._hydropower import *
@@ -343,11 +344,11 @@ class TablesRecorder(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
-            where, param = parameter
-        except (TypeError, ValueError):
+        if isinstance(parameter, (str, Component)):
             where = None
             param = parameter
+        else:
+            where, param = parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -440,17 +441,19 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
-                    where, node = n
-                except (TypeError, ValueError):
+                if isinstance(n, (str, AbstractNode)):
+                    where = None
                     node = n
-                    where = self.where + "/" + node
+                else:
+                    where, node = n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
 
+                if where is None:
+                    where = self.where + "/" + node.name
                 where = where.replace("//", "/")
                 nodes.append((where, node))
 
-- 
2.43.0


From b5877f487ef6731072ec3fa074e32602cc867d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 50/85] fix: slices without a start or stop in the tables of
 scenarios

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 6a0ca58..cd9b61d 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -370,12 +370,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 919bfdf..863b369 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -537,12 +537,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From 13fb295bb232ec5d07ffe7325220f979c2081e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 51/85] fix: generate_dataframes of models with selected or no
 scenarios

---
 pywr/h5tools.py                      | 43 ++++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx |  9 +-----
 pywr/recorders/recorders.py          | 11 ++-----
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..c43f730 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,5 +1,6 @@
 import tables
 import os
+import pandas
 
 
 class H5Store(object):
@@ -61,3 +62,45 @@ class H5Store(object):
     def __del__(self):
         if self._opened and self.file.isopen:
             self.file.close()
+
+
+def scenario_columns(h5file, scenarios="/scenarios"):
+    """Returns the columns of the data in a file created by `TablesRecorder` or `TablesRecorder2`.
+
+    Parameters
+    ----------
+    h5file : tables.File
+        The open file.
+    scenarios : str
+        The internal table that contains the scenario information (default "/scenarios")
+    """
+    table = h5file.get_node(scenarios)
+    names = [name.decode() for name in table.col("name")]
+    sizes = [int(size) for size in table.col("size")]
+    if len(names) == 0:
+        return None
+
+    def find(name):
+        group = scenarios.rsplit("/", 1)[0]
+        for path in (group + "/" + name, "/" + name):
+            if path in h5file:
+                return h5file.get_node(path)
+        return None
+
+    # The combinations which were chosen by the user
+    combinations = find("scenario_combinations")
+    if combinations is not None:
+        if isinstance(combinations, tables.Table):
+            arrays = [combinations.col(name) for name in names]
+        else:
+            arrays = list(combinations.read().T)
+        return pandas.MultiIndex.from_arrays(arrays, names=names)
+
+    # Otherwise the product of all of the scenarios, of which some might be sliced.
+    members = {name: range(size) for name, size in zip(names, sizes)}
+    slices = find("scenario_slices")
+    if slices is not None:
+        for row in slices.iterrows():
+            name = row["name"].decode()
+            members[name] = members[name][row["start"] : row["stop"] : row["step"]]
+    return pandas.MultiIndex.from_product([members[name] for name in names], names=names)
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index cd9b61d..bc0bc03 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -662,14 +662,7 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = scenario_columns(store.file, scenarios)
         else:
             columns = None
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 863b369..9970c31 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -11,7 +11,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -711,14 +711,7 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = scenario_columns(store.file, scenarios)
         else:
             columns = None
 
-- 
2.43.0


From a698ca6d305e3a35ad923447b4dc146258366673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 52/85] fix: flush exactly the timesteps in the buffer of
 TablesRecorder2

---
 pywr/recorders/_tables_recorders.pyx | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index bc0bc03..a96ec70 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -100,6 +100,8 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_first_index = 0
+        self._buffer_count = 0
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -391,7 +393,9 @@ class TablesRecorder2(Recorder):
         else:
             buffer_shape = None
 
-        self._buffer_write_position = 0
+        # Index of the first timestep in the buffer and number of timesteps in it
+        self._buffer_first_index = 0
+        self._buffer_count = 0
 
         self._node_arrays = {}
         for where, node in self._nodes:
@@ -531,7 +535,9 @@ class TablesRecorder2(Recorder):
             entry["index"] = idx
             entry.append()
 
-        buffer_idx = idx % self._buffer_num_timesteps
+        if self._buffer_count == 0:
+            self._buffer_first_index = idx
+        buffer_idx = self._buffer_count
 
         for node, (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
@@ -580,8 +586,11 @@ class TablesRecorder2(Recorder):
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
         # Flush before we overwrite the data if this is the last entry in the buffer
-        if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
-            self.flush_buffer(idx, self._buffer_num_timesteps)
+        if self._buffer_num_timesteps > 1:
+            self._buffer_count += 1
+            if self._buffer_count == self._buffer_num_timesteps:
+                self.flush_buffer(idx, self._buffer_count)
+                self._buffer_count = 0
 
         if self._routes_flow_array is not None:
             routes_shape = [
@@ -616,17 +625,10 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
 
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+        # Flush any time-steps which remain in the buffer
+        if self._buffer_count > 0:
+            self.flush_buffer(self._buffer_first_index + self._buffer_count - 1, self._buffer_count)
+            self._buffer_count = 0
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From 6fe38179991957ec5a6e5deff66e89751ebf0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 53/85] fix: let tables recorders be set up again

---
 pywr/recorders/_tables_recorders.pyx | 2 ++
 pywr/recorders/recorders.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index a96ec70..352032b 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -217,6 +217,8 @@ class TablesRecorder2(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
+        # Let go of a file which is still open (e.g. when setup for the second time).
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 9970c31..3f1d2fe 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -420,6 +420,8 @@ class TablesRecorder(Recorder):
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
 
+        # Let go of a file which is still open (e.g. when setup for the second time).
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
-- 
2.43.0


From 6dfa23862c722606fb52b8b940b9f4255704b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 54/85] fix: close the CSV file of an unfinished run

---
 pywr/recorders/recorders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3f1d2fe..cf7f964 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -187,6 +187,10 @@ class CSVRecorder(Recorder):
         kwargs = {"newline": "", "encoding": "utf-8"}
         mode = "wt"
 
+        if self._fh:
+            # A previous run might not have been finished
+            self._fh.close()
+
         if self.complib == "gzip":
             import gzip
 
-- 
2.43.0


From 90c84e1652afe62f3ac2e62caa766dd0860a9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 55/85] fix: load the included files of a document once

---
 pywr/_model.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index e04a827..188b3d4 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
-- 
2.43.0


From a76cf2283209cc350a0e6364fbc96be4929b9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 56/85] fix: keep the comment of parameters loaded from JSON

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 063ac88..3a2dc79 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,9 +137,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From f4211882796003f6d082b114f6d99bc042c9f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 57/85] fix: aggregate index parameter recorders over time

---
 pywr/recorders/_recorders.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 855d241..df59def 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1541,6 +1541,11 @@ cdef class NumpyArrayIndexParameterRecorder(IndexParameterRecorder):
         self._data[ts.index, :] = self._param.get_all_indices()
         return 0
 
+    cpdef double[:] values(self) except *:
+        """Compute a value for each scenario using `temporal_agg_func`."""
+        return self._temporal_aggregator.aggregate_2d(np.array(self._data, dtype=np.float64), axis=0,
+                                                      ignore_nan=self.ignore_nan)
+
     property data:
         def __get__(self, ):
             return np.array(self._data)
-- 
2.43.0


From e708c95ba14914ac28c825e3af67abf0d335cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 58/85] fix: pass on all settings of the rolling mean flow
 recorder

---
 pywr/recorders/_recorders.pyx | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index df59def..7309843 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1718,17 +1718,8 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
-        if "timesteps" in data:
-            timesteps = int(data["timesteps"])
-        else:
-            timesteps = None
-        if "days" in data:
-            days = int(data["days"])
-        else:
-            days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        node = model.nodes[data.pop("node")]
+        return cls(model, node, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From 1fd83fe4a561e71c1629b76259062132f0647b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 59/85] fix: refuse documents with two nodes of one name

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 188b3d4..2e0f141 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -407,6 +407,8 @@ class Model(object):
         nodes_to_load = {}
         for node_data in data["nodes"]:
             node_name = node_data["name"]
+            if node_name in nodes_to_load:
+                raise ValueError('More than one node has the name "{}".'.format(node_name))
             nodes_to_load[node_name] = node_data
         model._nodes_to_load = nodes_to_load
 
-- 
2.43.0


From a63091cc1b06ead204af66c70606fb6048bcdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 60/85] fix: let the area of a Keating aquifer be loaded from
 JSON

---
 pywr/domains/groundwater.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4e1a249..2cbea89 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -7,6 +7,9 @@ from scipy.interpolate import interp1d
 
 
 class KeatingAquifer(Storage):
+    # The other attributes of a storage (area, level, ...) follow from the arguments of the aquifer
+    __parameter_attributes__ = ("cost",)
+
     def __init__(
         self,
         model,
-- 
2.43.0


From 00190314bbd2a19c606d581d14a0b87b4ca9f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 61/85] fix: keep the color given to input nodes

---
 pywr/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 506677a..34eea4a 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -255,8 +255,8 @@ class Input(Node, BaseInput):
         max_flow : float (optional)
             A simple maximum flow constraint for the input. Defaults to 0.0
         """
+        kwargs["color"] = kwargs.pop("color", "#F26C4F")  # light red
         super(Input, self).__init__(*args, **kwargs)
-        self.color = "#F26C4F"  # light red
 
 
 class Output(Node, BaseOutput):
-- 
2.43.0


From 18e85d0c42f7580102738a6f476b70c8d3e89219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 62/85] fix: give parameters of a model that is run later a
 defined first value

---
 pywr/parameters/multi_model_parameters.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pywr/parameters/multi_model_parameters.py b/pywr/parameters/multi_model_parameters.py
index b83af1d..4829234 100644
--- a/pywr/parameters/multi_model_parameters.py
+++ b/pywr/parameters/multi_model_parameters.py
@@ -1,6 +1,12 @@
 from ._parameters import Parameter, IndexParameter
 
 
+def _is_run_later(model, other_model):
+    """Is another model run after this model in each time-step?"""
+    models = list(model.parent.models.values())
+    return models.index(other_model) > models.index(model)
+
+
 class OtherModelParameterValueParameter(Parameter):
     """Parameter that obtains its value from another model's parameter."""
 
@@ -17,8 +23,14 @@ class OtherModelParameterValueParameter(Parameter):
         # Find the references to the other model and one of its parameters.
         self._other_model = self.model.parent.models[self.other_model]
         self._other_model_parameter = self._other_model.parameters[self.parameter]
+        self._is_run_later = _is_run_later(self.model, self._other_model)
 
     def value(self, ts, scenario_index):
+        if ts.index == 0 and self._is_run_later:
+            # The other parameter has not been evaluated yet
+            if self._other_model_parameter.is_constant:
+                return self._other_model_parameter.get_constant_value()
+            return 0.0
         return self._other_model_parameter.get_value(scenario_index)
 
     @classmethod
@@ -45,8 +57,12 @@ class OtherModelIndexParameterValueIndexParameter(IndexParameter):
         # Find the references to the other model and one of its parameters.
         self._other_model = self.model.parent.models[self.other_model]
         self._other_model_parameter = self._other_model.parameters[self.parameter]
+        self._is_run_later = _is_run_later(self.model, self._other_model)
 
     def index(self, ts, scenario_index):
+        if ts.index == 0 and self._is_run_later:
+            # The other parameter has not been evaluated yet
+            return 0
         return self._other_model_parameter.get_index(scenario_index)
 
     @classmethod
-- 
2.43.0


From 754c53ee6dc2327e17c8437b53f906085663cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 63/85] fix: compare the length of timesteps of sub-models

---
 pywr/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/model.py b/pywr/model.py
index 1023cb0..7cadf63 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -261,6 +261,7 @@ class MultiModel:
                         timestep is None
                         or timesteps[0] is None
                         or timestep.datetime != timesteps[0].datetime
+                        or timestep.days != timesteps[0].days
                     ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
-- 
2.43.0


From be829fb808cc4bac6c8e8925be953f238c246b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 64/85] fix: respect the path given with a model file

---
 pywr/_model.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2e0f141..762c0aa 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -229,7 +229,8 @@ class Model(object):
             for filename in data["includes"]:
                 _, ext = os.path.splitext(filename)
                 if path is not None:
-                    filename = os.path.join(os.path.dirname(path), filename)
+                    folder = path if os.path.isdir(path) else os.path.dirname(path)
+                    filename = os.path.join(folder, filename)
 
                 ext = ext.lower()
                 if ext == '.json':
@@ -286,9 +287,10 @@ class Model(object):
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
-            logger.info('Loading model from file: "{}"'.format(path))
-            with open(path, "r") as f:
+            logger.info('Loading model from file: "{}"'.format(data))
+            if path is None:
+                path = data
+            with open(data, "r") as f:
                 data = f.read()
             return cls.loads(data, model, path, **kwargs)
 
-- 
2.43.0


From 3c4c56f75f8bfdddb41f39292fa9d31a68d4ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 65/85] fix: let the pygmo wrapper set integer variables and
 express equality constraints about zero

---
 pywr/optimisation/pygmo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..ead98ec 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,14 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                # Integers are presented to pygmo as continuous variables
+                ints = np.round(x[-var.integer_size :]).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
@@ -35,7 +42,8 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                # pygmo requires that equality constraints are all of the form h(x) = 0
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From ae8f284be65b6a927d78f589b4aad1a649fcdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 66/85] fix: ControlCurveParameter keeps its own copy of values

---
 pywr/parameters/_control_curves.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 4126199..c361588 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -472,7 +472,8 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.asarray(self._values)
         def __set__(self, values):
-            self._values = np.asarray(values, dtype=np.float64)
+            # Take a copy because the values can be changed by `set_double_variables`
+            self._values = np.array(values, dtype=np.float64)
 
     property variable_indices:
         def __get__(self):
-- 
2.43.0


From 54278b3aa2a7378ba7e3478ef470738d50e3b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 67/85] fix: reject a wrong number of factors for virtual
 storages and aggregated nodes

---
 pywr/_core.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 555132e..5b92590 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -787,6 +787,16 @@ cdef class AggregatedNode(AbstractNode):
         def __get__(self):
             return [node.flow_node for node in self._nodes]
 
+    cpdef setup(self, model):
+        AbstractNode.setup(self, model)
+        cdef Py_ssize_t num_nodes = len(self._nodes)
+        if self._factors is not None and len(self._factors) != num_nodes:
+            raise ValueError(f'The number of `factors` of the aggregated node "{self.name}" is not equal to the '
+                             f'number of `nodes`.')
+        if self._flow_weights is not None and len(self._flow_weights) != num_nodes:
+            raise ValueError(f'The number of `flow_weights` of the aggregated node "{self.name}" is not equal to the '
+                             f'number of `nodes`.')
+
     cpdef after(self, Timestep ts):
         cdef int i, j
         cdef AbstractNode n
@@ -1531,6 +1541,12 @@ cdef class VirtualStorage(Storage):
         self.virtual = True
         self.active = True
 
+    cpdef setup(self, model):
+        if len(self._factors) != len(self._nodes):
+            raise ValueError(f'The number of `factors` of the virtual storage "{self.name}" is not equal to the '
+                             f'number of `nodes`.')
+        Storage.setup(self, model)
+
     cpdef reset(self):
         self.active = True
         Storage.reset(self)
-- 
2.43.0


From 765c4b6aaf8b940cb8334a465d4cedf33aa72a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 68/85] fix: reject threshold values other than two

---
 pywr/parameters/_thresholds.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index cfec7a9..26447f1 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -52,6 +52,8 @@ cdef class AbstractThresholdParameter(IndexParameter):
             self.values = None
         else:
             self.values = np.array(values, np.float64)
+            if len(self.values) != 2:
+                raise ValueError("Two `values` are required.")
         if predicate is None:
             predicate = Predicates.LT
         elif isinstance(predicate, str):
-- 
2.43.0


From 30c1458afecaafd1f9fd06e22b44c2e597271f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 69/85] fix: reject a reset date that does not exist in
 UniformDrawdownProfileParameter

---
 pywr/parameters/_parameters.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 3a2dc79..22951a7 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2,6 +2,7 @@ import os
 import numpy as np
 cimport numpy as np
 from scipy.interpolate import Rbf
+import datetime
 import pandas
 import json
 import calendar
@@ -939,7 +940,8 @@ cdef class UniformDrawdownProfileParameter(Parameter):
         super(UniformDrawdownProfileParameter, self).reset()
         # Reset day of the year based on a leap year.
         # Note that this is zero-based
-        self._reset_idoy = pandas.Period(year=2016, month=self.reset_month, day=self.reset_day, freq='D').dayofyear - 1
+        # (`datetime` does not allow a date that does not exist)
+        self._reset_idoy = datetime.date(2016, self.reset_month, self.reset_day).timetuple().tm_yday - 1
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int current_idoy = ts.dayofyear_index
-- 
2.43.0


From 84f89e1b50afe5b6c27aaf16bfe040f63c9b199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 70/85] fix: validate the bounds of the variable days in
 RbfProfileParameter

---
 pywr/parameters/_parameters.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 22951a7..84fe581 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1077,6 +1077,10 @@ cdef class RbfProfileParameter(Parameter):
             self.integer_size = len(values) - 1
             self._doy_lower_bounds = np.array(variable_days_lower_bounds, dtype=np.int32)
             self._doy_upper_bounds = np.array(variable_days_upper_bounds, dtype=np.int32)
+            if len(self._doy_lower_bounds) != self.integer_size or len(self._doy_upper_bounds) != self.integer_size:
+                raise ValueError("Bounds are required for all of the days of the year apart from the first.")
+            if np.any(np.asarray(self._doy_lower_bounds) > np.asarray(self._doy_upper_bounds)):
+                raise ValueError("The lower bounds of the variable days must not be greater than the upper bounds.")
 
         elif self.variable_days_of_year_range > 0:
             if np.any(np.diff(self.days_of_year) <= 2*self.variable_days_of_year_range):
-- 
2.43.0


From e0c3f30d3bc06ffd114f09305bca0e45f628ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 71/85] fix: validate the loss factor and its type in LossLink

---
 pywr/nodes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 34eea4a..82d3c4d 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1370,6 +1370,19 @@ class LossLink(Node):
             self.net.max_flow = self._blocked_max_flow
             self._blocked = False
 
+        if self.loss_factor_type not in ("net", "gross"):
+            raise ValueError(
+                f'Unrecognised `loss_factor_type` "{self.loss_factor_type}".'
+                f'Please use either "gross" or "net".'
+            )
+        if not isinstance(value, Parameter):
+            if value < 0.0:
+                raise ValueError("The `loss_factor` must not be less than zero.")
+            if self.loss_factor_type == "gross" and value > 1.0:
+                raise ValueError(
+                    "The `loss_factor` as a proportion of gross flow must not be greater than one."
+                )
+
         if value == 0.0:
             # 0% loss; no flow to the output loss node.
             self.agg.factors = None
@@ -1386,14 +1399,9 @@ class LossLink(Node):
             if self.loss_factor_type == "net":
                 self.agg.factors = [1.0, value]
 
-            elif self.loss_factor_type == "gross":
+            else:
                 # TODO this will error in the case of a `value` being a parameter
                 self.agg.factors = [1.0 - float(value), float(value)]
-            else:
-                raise ValueError(
-                    f'Unrecognised `loss_factor_type` "{self.loss_factor_type}".'
-                    f'Please use either "gross" or "net".'
-                )
 
     def loss_factor():
         def fget(self):
-- 
2.43.0


From 0f90113aecd6a76ebb7f57fab5e947f72934eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 72/85] fix: reject reset and end dates out of range in virtual
 storages

---
 pywr/nodes.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 82d3c4d..bfc1c8d 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -593,6 +593,15 @@ class RollingVirtualStorage(
         super().setup(model)
 
 
+def _check_day_of_year(node, name, day, month):
+    """Check that the day and month given to a virtual storage could be a date"""
+    if not (1 <= day <= 31 and 1 <= month <= 12):
+        raise ValueError(
+            f'The `{name}_day` of the virtual storage "{node.name}" must be between 1 and 31, '
+            f"and the `{name}_month` between 1 and 12."
+        )
+
+
 class AnnualVirtualStorage(VirtualStorage):
     """A virtual storage which resets annually, useful for licences
 
@@ -601,9 +610,9 @@ class AnnualVirtualStorage(VirtualStorage):
     Parameters
     ----------
     reset_day: int
-        The day of the month (0-31) to reset the volume to the initial value.
+        The day of the month (1-31) to reset the volume to the initial value.
     reset_month: int
-        The month of the year (0-12) to reset the volume to the initial value.
+        The month of the year (1-12) to reset the volume to the initial value.
     reset_to_initial_volume: bool
         Reset the volume to the initial volume instead of maximum volume each year (default is False).
 
@@ -623,6 +632,10 @@ class AnnualVirtualStorage(VirtualStorage):
 
         super(AnnualVirtualStorage, self).__init__(*args, **kwargs)
 
+    def setup(self, model):
+        _check_day_of_year(self, "reset", self.reset_day, self.reset_month)
+        super(AnnualVirtualStorage, self).setup(model)
+
     def reset(self):
         super(AnnualVirtualStorage, self).reset()
         self._last_reset_year = None
@@ -671,17 +684,17 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     Parameters
     ----------
     reset_day : int
-        The day of the month (0-31) when the node starts operating and its volume is reset to the initial value or
+        The day of the month (1-31) when the node starts operating and its volume is reset to the initial value or
         maximum volume.
     reset_month : int
-        The month of the year (0-12) when the node starts operating and its volume is reset to the initial value or
+        The month of the year (1-12) when the node starts operating and its volume is reset to the initial value or
         maximum volume.
     reset_to_initial_volume : bool
         Reset the volume to the initial volume instead of maximum volume each year (default is False).
     end_day : int
-        The day of the month (0-31) when the node stops operating.
+        The day of the month (1-31) when the node stops operating.
     end_month : int
-        The month of the year (0-12) when the node stops operating.
+        The month of the year (1-12) when the node stops operating.
     """
 
     def __init__(self, *args, **kwargs):
@@ -690,6 +703,10 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
 
         super().__init__(*args, **kwargs)
 
+    def setup(self, model):
+        _check_day_of_year(self, "end", self.end_day, self.end_month)
+        super().setup(model)
+
     def before(self, ts):
         super().before(ts)
 
@@ -724,6 +741,13 @@ class MonthlyVirtualStorage(VirtualStorage):
         self._last_month = None
         super(MonthlyVirtualStorage, self).__init__(*args, **kwargs)
 
+    def setup(self, model):
+        if self.months < 1:
+            raise ValueError(
+                f'The `months` of the virtual storage "{self.name}" must be one or more.'
+            )
+        super().setup(model)
+
     def reset(self):
         super().reset()
         self._count = self.initial_months
-- 
2.43.0


From 5c2e0216265a523517540894a3cd7a454d1b4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 73/85] fix: look up nodes before their sub-nodes by name

---
 pywr/_model.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 762c0aa..d624bdf 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -961,9 +961,16 @@ class NodeIterator(object):
 
     def __getitem__(self, key):
         """Get a node from the graph by it's name"""
+        child = None
         for node in self._nodes(hide_children=False):
             if node.name == key:
-                return node
+                if node.parent is None:
+                    return node
+                # only names of the nodes without a parent are unique
+                if child is None:
+                    child = node
+        if child is not None:
+            return child
         raise KeyError("'{}'".format(key))
 
     def __delitem__(self, key):
-- 
2.43.0


From 72e9bbce2238b13194e1f462b083f3f1bce61299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 74/85] fix: remove sub-nodes and parameters when creating a
 node fails

---
 pywr/nodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index bfc1c8d..0926342 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -188,7 +188,16 @@ class NodeMeta(type):
 
     def __call__(cls, *args, **kwargs):
         # Create new instance of Node (or subclass thereof)
-        node = type.__call__(cls, *args, **kwargs)
+        model = kwargs.get("model", args[0] if args else None)
+        graphs = [getattr(model, a, None) for a in ("graph", "component_graph")]
+        graphs = [(graph, len(graph)) for graph in graphs if graph is not None]
+        try:
+            node = type.__call__(cls, *args, **kwargs)
+        except Exception:
+            # Remove any sub-nodes and components that have been created for the node
+            for graph, size in graphs:
+                graph.remove_nodes_from(list(graph.nodes())[size:])
+            raise
         # Add node to Model graph. This needs to be done here, so that if the
         # __init__ method of Node raises an exception it is not added.
         node.model.graph.add_node(node)
-- 
2.43.0


From f5de67faa1a8c64f95b65db2baa7ade30c4bd50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 75/85] fix: remove all of the sub-nodes and parameters with a
 compound node

---
 pywr/_model.pyx |  4 ++++
 pywr/nodes.py   | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index d624bdf..c33749b 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -988,6 +988,10 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        for component in getattr(node, "_own_components", ()):
+            if component in self.model.component_graph:
+                self.model.component_graph.remove_node(component)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 0926342..7a8056c 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1046,7 +1046,9 @@ class MultiSplitLink(PiecewiseLink):
                     valid_factors.append(r)
 
             if len(nodes) > 0:
-                agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+                agg = AggregatedNode(
+                    self.model, "{} Agg".format(self.name), nodes, parent=self
+                )
                 agg.factors = valid_factors
 
     def _pad_steps(self, values, fill):
@@ -1296,7 +1298,9 @@ class DelayNode(Node):
         param_name = "{} - delay parameter".format(name)
         assert output_name not in model.nodes
         assert input_name not in model.nodes
-        assert param_name not in model.parameters
+        if param_name in model.parameters:
+            # e.g. of a node which has been renamed since
+            param_name = None
 
         days = kwargs.pop("days", 0)
         timesteps = kwargs.pop("timesteps", 0)
@@ -1318,9 +1322,11 @@ class DelayNode(Node):
             max_flow=self.delay_param,
             parent=self,
         )
+        # Removed together with the node
+        self._own_components = [self.delay_param]
         super().__init__(model, name, **kwargs)
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.input
         else:
@@ -1385,7 +1391,9 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        self.agg = AggregatedNode(
+            model, name=agg_name, nodes=[self.net, self.output], parent=self
+        )
         # While there is 100% loss (i.e. no net flow), the maximum flow given by the user
         self._blocked = False
         self._blocked_max_flow = None
-- 
2.43.0


From d428d0c24e277fb33d7589f8207f54038adb85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 76/85] fix: disconnect storages and compound nodes

---
 pywr/nodes.py | 71 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 7a8056c..cf18cb2 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -91,12 +91,15 @@ class Loadable:
 class Connectable(object):
     """A mixin class providing methods for connecting nodes in the model graph"""
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         """Returns the object(s) wich should be connected to given slot_name
 
         Overload this method when implementing compound nodes which have
         multiple slots and may return something other than self.
 
+        If all_slots is True and there is no slot_name then the objects of all
+        of the slots are returned.
+
         is_connector is True when self's connect method has been used. I.e. self
         is connecting to another object. This is useful for providing an
         appropriate response object in circumstances where a subnode should make
@@ -145,27 +148,29 @@ class Connectable(object):
         if node is not None:
             self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
         else:
-            neighbors = self.model.graph.neighbors(self)
-            for neighbor in [neighbor for neighbor in neighbors]:
-                self._disconnect(neighbor, slot_name=slot_name, all_slots=all_slots)
+            for node1 in self.iter_slots(is_connector=True, all_slots=True):
+                for node2 in list(self.model.graph.neighbors(node1)):
+                    self.model.graph.remove_edge(node1, node2)
+            self.model.dirty = True
 
     def _disconnect(self, node, slot_name=None, all_slots=True):
         """As disconnect, except node argument is required"""
         disconnected = False
-        try:
-            self.model.graph.remove_edge(self, node)
-        except nx.exception.NetworkXError:
-            for node_slot in node.iter_slots(
-                slot_name=slot_name, is_connector=False, all_slots=all_slots
-            ):
-                try:
-                    self.model.graph.remove_edge(self, node_slot)
-                except nx.exception.NetworkXError:
-                    pass
-                else:
-                    disconnected = True
+        # The connections are from (and to) the sub-nodes of a node with slots
+        sources = list(self.iter_slots(is_connector=True, all_slots=True))
+        if any(self.model.graph.has_edge(node1, node) for node1 in sources):
+            targets = [node]
         else:
-            disconnected = True
+            targets = list(
+                node.iter_slots(
+                    slot_name=slot_name, is_connector=False, all_slots=all_slots
+                )
+            )
+        for node1 in sources:
+            for node2 in targets:
+                if self.model.graph.has_edge(node1, node2):
+                    self.model.graph.remove_edge(node1, node2)
+                    disconnected = True
         if not disconnected:
             raise nx.exception.NetworkXError(
                 "{} is not connected to {}".format(self, node)
@@ -399,8 +404,10 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
 
     def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
+            if not self.inputs and all_slots:
+                return
             if not self.inputs:
-                raise StopIteration
+                raise ValueError("{} does not have any inputs.".format(self))
             if slot_name is None:
                 if all_slots or len(self.inputs) == 1:
                     for node in self.inputs:
@@ -415,8 +422,10 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
                         "{} does not have slot: {}".format(self, slot_name)
                     )
         else:
+            if not self.outputs and all_slots:
+                return
             if not self.outputs:
-                raise StopIteration
+                raise ValueError("{} does not have any outputs.".format(self))
             if slot_name is None:
                 if all_slots or len(self.outputs) == 1:
                     for node in self.outputs:
@@ -424,7 +433,12 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
                 else:
                     raise ValueError("Must specify slot identifier.")
             else:
-                yield self.outputs[slot_name]
+                try:
+                    yield self.outputs[slot_name]
+                except IndexError:
+                    raise IndexError(
+                        "{} does not have slot: {}".format(self, slot_name)
+                    )
 
     def check(self):
         pass  # TODO
@@ -911,7 +925,7 @@ class PiecewiseLink(Node):
 
     max_flows = property(**max_flows())
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.input
         else:
@@ -1081,8 +1095,12 @@ class MultiSplitLink(PiecewiseLink):
 
     max_flows = property(**max_flows())
 
-    def iter_slots(self, slot_name=None, is_connector=True):
-        if is_connector:
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
+        if is_connector and all_slots and slot_name is None:
+            yield self.input
+            for node in self._extra_inputs:
+                yield node
+        elif is_connector:
             i = self.slot_names.index(slot_name)
             if i == 0:
                 yield self.input
@@ -1194,8 +1212,9 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
@@ -1246,7 +1265,7 @@ class BreakLink(Node):
 
     cost = property(**cost())
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             # connecting FROM the transfer TO something else
             yield self.link
@@ -1507,7 +1526,7 @@ class LossLink(Node):
 
     cost = property(**cost())
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.net
         else:
-- 
2.43.0


From cfcd2826aea83d3a4ee189f15e1130231589dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 77/85] fix: schematics of models with nodes inside nodes
 inside nodes (e.g. BreakLink)

---
 pywr/notebook/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index a0b8721..321ea92 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -190,9 +190,10 @@ def pywr_model_to_d3_json(model, attributes=False):
         node_source, node_target = edge
 
         # where a link is to/from a subnode, display a link to the parent instead
-        if node_source.parent is not None:
+        # (the parent could itself be part of another node)
+        while node_source.parent is not None:
             node_source = node_source.parent
-        if node_target.parent is not None:
+        while node_target.parent is not None:
             node_target = node_target.parent
 
         if node_source is node_target:
-- 
2.43.0


From 4cc49e262859b5d970b8571b98d7832794d52fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 78/85] fix: monthly and rolling virtual storages are not shown
 in schematics of JSON documents

---
 pywr/notebook/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 321ea92..b9f6565 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -315,6 +315,8 @@ def pywr_json_to_d3_json(model, attributes=False):
             "aggregatednode",
             "aggregatedstorage",
             "seasonalvirtualstorage",
+            "monthlyvirtualstorage",
+            "rollingvirtualstorage",
         ]:
             # Do not add virtual nodes to the graph
             continue
-- 
2.43.0


From 181b4605d43d549f369f7e463b04fb73602f6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 79/85] fix: schematics with attributes of documents with lists
 as attributes or without parameters

---
 pywr/notebook/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index b9f6565..4990cdc 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -340,7 +340,7 @@ def pywr_json_to_d3_json(model, attributes=False):
                         attr_val = get_parameter_from_registry(val["type"]).__name__
                     except KeyError:
                         pass
-                elif val in model["parameters"].keys():
+                elif isinstance(val, str) and val in model.get("parameters", {}):
                     param = model["parameters"][val]
                     attr_type = get_parameter_from_registry(param["type"]).__name__
                     attr_val = attr_val + " - " + attr_type
-- 
2.43.0


From 75d576db9c945b98340714a560283e9ff07c91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 80/85] fix: routes_to_sankey_links uses the scenario_agg_func
 it is given

---
 pywr/notebook/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/sankey.py b/pywr/notebook/sankey.py
index 808039a..af88afd 100644
--- a/pywr/notebook/sankey.py
+++ b/pywr/notebook/sankey.py
@@ -19,7 +19,7 @@ def routes_to_sankey_links(
     time_agg_func = kwargs.pop("time_agg_func", np.mean)
 
     scenario_slice = kwargs.pop("scenario_slice", None)
-    scenario_agg_func = kwargs.pop("scenario_slice", np.mean)
+    scenario_agg_func = kwargs.pop("scenario_agg_func", np.mean)
 
     sources = defaultdict(lambda: defaultdict(lambda: 0.0))
 
-- 
2.43.0


From 911f7b62fb8deb0643199122c6c4de1a738696f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 81/85] fix: generate_dataframes of files with route flows of a
 model with scenarios

---
 pywr/h5tools.py                      | 21 +++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx |  6 ++++--
 pywr/recorders/recorders.py          |  6 ++++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index c43f730..fb8bdd8 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -104,3 +104,24 @@ def scenario_columns(h5file, scenarios="/scenarios"):
             name = row["name"].decode()
             members[name] = members[name][row["start"] : row["stop"] : row["step"]]
     return pandas.MultiIndex.from_product([members[name] for name in names], names=names)
+
+
+def array_columns(data, columns):
+    """Returns the columns of the data of an array, which has a row for each timestep.
+
+    The flows of the routes have a column for each combination of scenarios of each route.
+
+    Parameters
+    ----------
+    data : numpy.ndarray
+        The two-dimensional data of the array.
+    columns : pandas.MultiIndex or None
+        The columns of the combinations of scenarios, see `scenario_columns`.
+    """
+    if columns is None or data.shape[1] == len(columns):
+        return columns
+    num_routes = data.shape[1] // len(columns)
+    return pandas.MultiIndex.from_tuples(
+        [(route,) + column for route in range(num_routes) for column in columns],
+        names=["route"] + list(columns.names),
+    )
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 352032b..fe37733 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,7 +2,7 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store, scenario_columns
+from pywr.h5tools import H5Store, array_columns, scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -675,7 +675,9 @@ class TablesRecorder2(Recorder):
                 continue
             data = node.read()
             data = data.reshape((data.shape[0], -1))
-            df = pandas.DataFrame(data, index=index, columns=columns)
+            df = pandas.DataFrame(
+                data, index=index, columns=array_columns(data, columns)
+            )
             yield f"{node._v_parent._v_name}.{node._v_name}", df
 
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index cf7f964..24a6816 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -11,7 +11,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store, scenario_columns
+from pywr.h5tools import H5Store, array_columns, scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -724,7 +724,9 @@ class TablesRecorder(Recorder):
         for node in store.file.walk_nodes("/", "CArray"):
             data = node.read()
             data = data.reshape((data.shape[0], -1))
-            df = pandas.DataFrame(data, index=index, columns=columns)
+            df = pandas.DataFrame(
+                data, index=index, columns=array_columns(data, columns)
+            )
             yield node._v_name, df
 
 
-- 
2.43.0


From 0bfe3ef945d2cfb306cb61fe1b12f441bb8c3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:15 +0000
Subject: [PATCH 82/85] fix: make Keating stream flows depend on the level of
 their storage

---
 pywr/parameters/groundwater.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pywr/parameters/groundwater.py b/pywr/parameters/groundwater.py
index 0e41641..85117d1 100644
--- a/pywr/parameters/groundwater.py
+++ b/pywr/parameters/groundwater.py
@@ -32,6 +32,8 @@ class KeatingStreamFlowParameter(Parameter):
         """
         super(KeatingStreamFlowParameter, self).__init__(model, **kwargs)
         self.storage_node = storage_node
+        self._level_param = None
+        self._update_level()
 
         if len(levels) != len(transmissivity):
             raise ValueError(
@@ -42,11 +44,29 @@ class KeatingStreamFlowParameter(Parameter):
         self.transmissivity = np.array(transmissivity)
         self.coefficient = coefficient
 
+    def _update_level(self):
+        """Depend on the present level of the storage node, returning true if it has changed"""
+        level = self.storage_node.level
+        if not isinstance(level, Parameter):
+            level = None
+        if level is self._level_param:
+            return False
+        if self._level_param is not None:
+            self.children.remove(self._level_param)
+        if level is not None:
+            self.children.add(level)
+        self._level_param = level
+        return True
+
+    def setup(self):
+        super(KeatingStreamFlowParameter, self).setup()
+        if self._update_level():
+            # The level was replaced after the order of evaluation was determined
+            self.model.flatten_component_tree(rebuild=True)
+
     def value(self, ts, scenario_index):
         # Get the current level of the aquifer
-        # TODO: this is a HACK - we can't use get_level/get_value as there is
-        #       no way to define the parent/child relationship
-        level = self.storage_node.level.value(ts, scenario_index)
+        level = self.storage_node.get_level(scenario_index)
 
         # Coefficient
         C = self.coefficient
-- 
2.43.0


From 4f9adffca48dae6e78fdc83603763454dfb08af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 83/85] fix: replacing the parameter of a parameter replaces
 the dependency

---
 pywr/parameters/_parameters.pxd | 12 ++---
 pywr/parameters/_parameters.pyx | 88 +++++++++++++++++++++++++++------
 pywr/parameters/_thresholds.pxd |  4 +-
 pywr/parameters/_thresholds.pyx | 28 +++++++++--
 pywr/parameters/parameters.py   |  6 ++-
 5 files changed, 110 insertions(+), 28 deletions(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 475d0ca..1e5a124 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -138,7 +138,7 @@ cdef class TablesArrayParameter(IndexParameter):
     cdef int[:] _scenario_ids
 
 cdef class IndexedArrayParameter(Parameter):
-    cdef public IndexParameter index_parameter
+    cdef IndexParameter _index_parameter
     cdef public list params
 
 cdef class AnnualHarmonicSeriesParameter(Parameter):
@@ -177,24 +177,24 @@ cdef class DivisionParameter(Parameter):
 
 
 cdef class NegativeParameter(Parameter):
-    cdef public Parameter parameter
+    cdef Parameter _parameter
 
 cdef class MaxParameter(Parameter):
-    cdef public Parameter parameter
+    cdef Parameter _parameter
     cdef public double threshold
 
 cdef class NegativeMaxParameter(MaxParameter):
     pass
 
 cdef class MinParameter(Parameter):
-    cdef public Parameter parameter
+    cdef Parameter _parameter
     cdef public double threshold
 
 cdef class NegativeMinParameter(MinParameter):
     pass
 
 cdef class OffsetParameter(Parameter):
-    cdef public Parameter parameter
+    cdef Parameter _parameter
     cdef public double offset
     cdef double[:] _lower_bounds
     cdef double[:] _upper_bounds
@@ -214,7 +214,7 @@ cdef class StorageParameter(Parameter):
 cdef class PiecewiseIntegralParameter(Parameter):
     cdef public double[:] x
     cdef public double[:] y
-    cdef public Parameter parameter
+    cdef Parameter _parameter
 
 cdef class FlowDelayParameter(Parameter):
     cdef public AbstractNode node
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 84fe581..8985ed4 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1286,7 +1286,6 @@ cdef class IndexedArrayParameter(Parameter):
         super(IndexedArrayParameter, self).__init__(model, **kwargs)
         assert(isinstance(index_parameter, IndexParameter))
         self.index_parameter = index_parameter
-        self.children.add(index_parameter)
 
         self.params = []
         for p in params:
@@ -1298,10 +1297,21 @@ cdef class IndexedArrayParameter(Parameter):
         for param in self.params:
             self.children.add(param)
 
+    property index_parameter:
+        def __get__(self):
+            return self._index_parameter
+        def __set__(self, IndexParameter parameter):
+            # remove any existing parameter
+            if self._index_parameter is not None:
+                self._index_parameter.parents.remove(self)
+
+            self._index_parameter = parameter
+            self.children.add(parameter)
+
     cpdef double value(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the value of the Parameter at the current index"""
         cdef int index
-        index = self.index_parameter.get_index(scenario_index)
+        index = self._index_parameter.get_index(scenario_index)
         cdef Parameter parameter = self.params[index]
         return parameter.get_value(scenario_index)
 
@@ -1755,14 +1765,24 @@ cdef class NegativeParameter(Parameter):
     def __init__(self, model, parameter, *args, **kwargs):
         super(NegativeParameter, self).__init__(model, *args, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
+
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
 
     cdef calc_values(self, Timestep timestep):
         cdef int i
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = -self.parameter._Parameter__values[i]
+            self._Parameter__values[i] = -self._parameter._Parameter__values[i]
 
     @classmethod
     def load(cls, model, data):
@@ -1787,15 +1807,25 @@ cdef class MaxParameter(Parameter):
     def __init__(self, model, parameter, threshold=0.0, *args, **kwargs):
         super(MaxParameter, self).__init__(model, *args, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
         self.threshold = threshold
 
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
+
     cdef calc_values(self, Timestep timestep):
         cdef int i
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = max(self.parameter._Parameter__values[i], self.threshold)
+            self._Parameter__values[i] = max(self._parameter._Parameter__values[i], self.threshold)
 
     @classmethod
     def load(cls, model, data):
@@ -1811,7 +1841,7 @@ cdef class NegativeMaxParameter(MaxParameter):
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = max(-self.parameter._Parameter__values[i], self.threshold)
+            self._Parameter__values[i] = max(-self._parameter._Parameter__values[i], self.threshold)
 
 NegativeMaxParameter.register()
 
@@ -1832,15 +1862,25 @@ cdef class MinParameter(Parameter):
     def __init__(self, model, parameter, threshold=0.0, *args, **kwargs):
         super(MinParameter, self).__init__(model, *args, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
         self.threshold = threshold
 
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
+
     cdef calc_values(self, Timestep timestep):
         cdef int i
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = min(self.parameter._Parameter__values[i], self.threshold)
+            self._Parameter__values[i] = min(self._parameter._Parameter__values[i], self.threshold)
 
     @classmethod
     def load(cls, model, data):
@@ -1856,7 +1896,7 @@ cdef class NegativeMinParameter(MinParameter):
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = min(-self.parameter._Parameter__values[i], self.threshold)
+            self._Parameter__values[i] = min(-self._parameter._Parameter__values[i], self.threshold)
 NegativeMinParameter.register()
 
 
@@ -1880,18 +1920,28 @@ cdef class OffsetParameter(Parameter):
     def __init__(self, model, parameter, offset=0.0, lower_bounds=0.0, upper_bounds=np.inf, *args, **kwargs):
         super(OffsetParameter, self).__init__(model, *args, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
         self.offset = offset
         self.double_size = 1
         self._lower_bounds = np.ones(self.double_size) * lower_bounds
         self._upper_bounds = np.ones(self.double_size) * upper_bounds
 
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
+
     cdef calc_values(self, Timestep timestep):
         cdef int i
         cdef int n = self._Parameter__values.shape[0]
 
         for i in range(n):
-            self._Parameter__values[i] = self.parameter._Parameter__values[i] + self.offset
+            self._Parameter__values[i] = self._parameter._Parameter__values[i] + self.offset
 
     cpdef set_double_variables(self, double[:] values):
         self.offset = values[0]
@@ -2067,10 +2117,20 @@ cdef class PiecewiseIntegralParameter(Parameter):
     def __init__(self, model, parameter, x, y, *args, **kwargs):
         super().__init__(model, *args, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
         self.x = np.array(x, dtype=float)
         self.y = np.array(y, dtype=float)
 
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
+
     cpdef setup(self):
         super(PiecewiseIntegralParameter, self).setup()
 
@@ -2082,7 +2142,7 @@ cdef class PiecewiseIntegralParameter(Parameter):
 
     cpdef double value(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         cdef double integral = 0.0
-        cdef double x = self.parameter.get_value(scenario_index)
+        cdef double x = self._parameter.get_value(scenario_index)
         cdef int i
         cdef double dx, prev_x
 
diff --git a/pywr/parameters/_thresholds.pxd b/pywr/parameters/_thresholds.pxd
index d87dfaf..72e45c7 100644
--- a/pywr/parameters/_thresholds.pxd
+++ b/pywr/parameters/_thresholds.pxd
@@ -25,12 +25,12 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
     cdef list thresholds
 
 cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
-    cdef public Parameter parameter
+    cdef Parameter _parameter
     cdef list thresholds
 
 
 cdef class ParameterThresholdParameter(AbstractThresholdParameter):
-    cdef public Parameter param
+    cdef Parameter _param
 
 cdef class RecorderThresholdParameter(AbstractThresholdParameter):
     cdef public Recorder recorder
diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 26447f1..8ce1aa0 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -252,7 +252,6 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
     def __init__(self, model, parameter, thresholds, use_max_flow=False, **kwargs):
         super(MultipleThresholdParameterIndexParameter, self).__init__(model, **kwargs)
         self.parameter = parameter
-        self.children.add(parameter)
 
         self.thresholds = []
         for threshold in thresholds:
@@ -264,6 +263,17 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
         for threshold in self.thresholds:
             self.children.add(threshold)
 
+    property parameter:
+        def __get__(self):
+            return self._parameter
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._parameter is not None:
+                self._parameter.parents.remove(self)
+
+            self._parameter = parameter
+            self.children.add(parameter)
+
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
 
@@ -276,7 +286,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
         cdef int index, j
         cdef Parameter threshold
 
-        value = self.parameter.get_value(scenario_index)
+        value = self._parameter.get_value(scenario_index)
         index = len(self.thresholds)
         for j, threshold in enumerate(self.thresholds):
             target_threshold = threshold.get_value(scenario_index)
@@ -304,10 +314,20 @@ cdef class ParameterThresholdParameter(AbstractThresholdParameter):
     def __init__(self, model, Parameter param, *args, **kwargs):
         super(ParameterThresholdParameter, self).__init__(model, *args, **kwargs)
         self.param = param
-        self.children.add(param)
+
+    property param:
+        def __get__(self):
+            return self._param
+        def __set__(self, Parameter parameter):
+            # remove any existing parameter
+            if self._param is not None:
+                self._param.parents.remove(self)
+
+            self._param = parameter
+            self.children.add(parameter)
 
     cpdef double _value_to_compare(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
-        return self.param.get_value(scenario_index)
+        return self._param.get_value(scenario_index)
 
     @classmethod
     def load(cls, model, data):
diff --git a/pywr/parameters/parameters.py b/pywr/parameters/parameters.py
index 027f197..82af370 100644
--- a/pywr/parameters/parameters.py
+++ b/pywr/parameters/parameters.py
@@ -104,9 +104,11 @@ class ScaledProfileParameter(Parameter):
         super(ScaledProfileParameter, self).__init__(model, *args, **kwargs)
         self.scale = scale
 
-        profile.parents.add(self)
+        self._profile = None
         self.profile = profile
 
+    profile = parameter_property("_profile")
+
     @classmethod
     def load(cls, model, data):
         scale = float(data.pop("scale"))
@@ -114,7 +116,7 @@ class ScaledProfileParameter(Parameter):
         return cls(model, scale, profile, **data)
 
     def value(self, ts, si):
-        p = self.profile.get_value(si)
+        p = self._profile.get_value(si)
         return self.scale * p
 
 
-- 
2.43.0


From 5c612c19c3380053768b0d86d5a720bab1a2dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 84/85] fix: apply changed points of interpolation parameters
 between runs

---
 pywr/parameters/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/parameters/parameters.py b/pywr/parameters/parameters.py
index 82af370..8433fd7 100644
--- a/pywr/parameters/parameters.py
+++ b/pywr/parameters/parameters.py
@@ -153,6 +153,11 @@ class AbstractInterpolatedParameter(Parameter):
         super(AbstractInterpolatedParameter, self).setup()
         self.interp = interp1d(self.x, self.y, **self.interp_kwargs)
 
+    def reset(self):
+        super().reset()
+        # The points could have been changed since the last run
+        self.interp = interp1d(self.x, self.y, **self.interp_kwargs)
+
     def value(self, ts, scenario_index):
         v = self._value_to_interpolate(ts, scenario_index)
         return self.interp(v)
-- 
2.43.0


From 12ed7f0c72485d2ad64a5c0b0c97566f1d4d5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 85/85] fix: record a node or parameter in more than one place
 of an HDF5 file

---
 pywr/recorders/_tables_recorders.pyx | 24 ++++++++++++------------
 pywr/recorders/recorders.py          |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index fe37733..313b4dc 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -406,7 +406,7 @@ class TablesRecorder2(Recorder):
             else:
                 buffer = None
 
-            self._node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._storage_node_arrays = {}
         for where, node in self._storage_nodes:
@@ -414,7 +414,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([3, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._storage_node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._storage_node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._index_parameter_arrays = {}
         for where, node in self._index_parameters:
@@ -422,7 +422,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.int32)
             else:
                 buffer = None
-            self._index_parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._index_parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._parameter_arrays = {}
         for where, node in self._parameters:
@@ -430,7 +430,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._time_table = None
         # Create time table
@@ -541,7 +541,7 @@ class TablesRecorder2(Recorder):
             self._buffer_first_index = idx
         buffer_idx = self._buffer_count
 
-        for node, (arrays, buffer) in self._node_arrays.items():
+        for node, arrays, buffer in self._node_arrays.values():
             if buffer is None:
                 node.get_all_max_flow(out)
                 arrays.max_flow[idx, :] = np.reshape(out, scenario_shape)
@@ -557,7 +557,7 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(node._flow, scenario_shape)
 
-        for storage_node, (arrays, buffer) in self._storage_node_arrays.items():
+        for storage_node, arrays, buffer in self._storage_node_arrays.values():
             if buffer is None:
                 storage_node.get_all_max_volume(out)
                 arrays.max_volume[idx, :] = np.reshape(out, scenario_shape)
@@ -573,14 +573,14 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(storage_node._volume, scenario_shape)
 
-        for parameter, (arrays, buffer) in self._parameter_arrays.items():
+        for parameter, arrays, buffer in self._parameter_arrays.values():
             if buffer is None:
                 v = parameter.get_all_values()
                 arrays.parameter[idx, :] = np.reshape(v, scenario_shape)
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(parameter.get_all_values(), scenario_shape)
 
-        for index_parameter, (arrays, buffer) in self._index_parameter_arrays.items():
+        for index_parameter, arrays, buffer in self._index_parameter_arrays.values():
             if buffer is None:
                 i = index_parameter.get_all_indices()
                 arrays.parameter_index[idx, :] = np.reshape(i, scenario_shape)
@@ -606,20 +606,20 @@ class TablesRecorder2(Recorder):
         """Flush the buffer arrays to PyTables"""
         cdef int idx_start = idx + 1 - num_timesteps
 
-        for _, (arrays, buffer) in self._node_arrays.items():
+        for _, arrays, buffer in self._node_arrays.values():
             arrays.max_flow[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_flow[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.flow[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._storage_node_arrays.items():
+        for _, arrays, buffer in self._storage_node_arrays.values():
             arrays.max_volume[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_volume[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.volume[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._parameter_arrays.items():
+        for _, arrays, buffer in self._parameter_arrays.values():
             arrays.parameter[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._index_parameter_arrays.items():
+        for _, arrays, buffer in self._index_parameter_arrays.values():
             arrays.parameter_index[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
         if self._time_table is not None:
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 24a6816..479dca2 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -559,7 +559,7 @@ class TablesRecorder(Recorder):
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
-            self._arrays[node] = self.h5store.file.get_node(where)
+            self._arrays[where] = node, self.h5store.file.get_node(where)
 
         self._time_table = None
         # Create time table
@@ -661,7 +661,7 @@ class TablesRecorder(Recorder):
             entry["index"] = idx
             entry.append()
 
-        for node, ca in self._arrays.items():
+        for node, ca in self._arrays.values():
             if isinstance(node, AbstractStorage):
                 ca[idx, :] = np.reshape(node.volume, scenario_shape)
             elif isinstance(node, AbstractNode):
-- 
2.43.0

