From 31e4df3d4df17ddede86f2dac8cabf90d200e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:32 +0000
Subject: [PATCH 01/41] fix: solving again must not depend on previous calls to
 solve

---
 vrpy/vrp.py | 69 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..ba53d2a 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -236,26 +236,46 @@ class VehicleRoutingProblem:
         self._max_iter = max_iter
         self._run_exact = run_exact
         self._heuristic_only = heuristic_only
-        if self._pricing_strategy == "Hyper":
-            self.hyper_heuristic = _HyperHeuristic()
+        self.hyper_heuristic = (
+            _HyperHeuristic() if self._pricing_strategy == "Hyper" else None
+        )
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
-        # If only one type of vehicle, some formatting is done
-        if not self.mixed_fleet:
-            self._format()
-        # Pre-processing
-        self._pre_solve()
+        self._preassignments = preassignments or []
+        self._initial_routes = initial_routes or []
+        # Forget the outcome of previous calls
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_routes_as_graphs = []
         if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+            check_clarke_wright_compatibility(
+                self.time_windows,
+                self.pickup_delivery,
+                self.distribution_collection,
+                self.mixed_fleet,
+                self.periodic,
+            )
+        # Pre-processing edits the graph and some of the parameters:
+        # the input data is put back when done, as it may be solved again
+        inputs = (self.G, self.num_stops, self.num_vehicles)
+        self.G = self.G.to_directed()
+        try:
+            # If only one type of vehicle, some formatting is done
+            if not self.mixed_fleet:
+                self._format()
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G, self.num_stops, self.num_vehicles = inputs
 
     @property
     def best_routes_type(self):
@@ -383,8 +403,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +432,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
@@ -848,13 +868,6 @@ class VehicleRoutingProblem:
 
     def _solve_with_clarke_wright(self):
         # return Clarke Wright solution
-        check_clarke_wright_compatibility(
-            self.time_windows,
-            self.pickup_delivery,
-            self.distribution_collection,
-            self.mixed_fleet,
-            self.periodic,
-        )
         alg = _ClarkeWright(
             self.G,
             self.load_capacity,
-- 
2.43.0


From c5788ca9d86801231054e32614782122737a9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:30 +0000
Subject: [PATCH 02/41] fix: account for service and asymmetric travel times in
 maximum duration

---
 vrpy/clarke_wright.py   | 36 ++++++++++++++++++++++--------------
 vrpy/subproblem_cspy.py |  3 ++-
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..770e129 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._added_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _added_time(self, existing_node, new_node, depot):
+        """Extra time if new_node is inserted between existing_node and depot."""
+        if depot == "Sink":
+            travel_time = (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        else:
+            travel_time = (
+                self.G.edges["Source", new_node]["time"]
+                + self.G.edges[new_node, existing_node]["time"]
+                - self.G.edges["Source", existing_node]["time"]
+            )
+        return travel_time + self.G.nodes[new_node]["service_time"]
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._added_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +209,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..521628e 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -364,7 +364,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From de401f6d890dbe60d11d1ce42ece82ef9c6b9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 03/41] fix: never return an initial route that breaks a stop
 or time constraint

---
 vrpy/vrp.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index ba53d2a..0399b14 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -875,6 +875,9 @@ class VehicleRoutingProblem:
             self.num_stops,
         )
         alg.run()
+        for route in alg.best_routes:
+            if not self._is_feasible(route):
+                raise ValueError("Clarke & Wright found no feasible solution.")
         self._best_routes = dict(
             zip([r for r in range(len(alg.best_routes))], alg.best_routes)
         )
@@ -962,6 +965,8 @@ class VehicleRoutingProblem:
         """
         Converts list of initial routes to list of Digraphs.
         By default, initial routes are computed with the first feasible vehicle type.
+        Routes that break a constraint only help to start the column generation:
+        they have a high cost and are discarded from the final solution.
         """
         self._routes = []
         self._routes_with_node = {}
@@ -969,10 +974,15 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
+            if self._is_feasible(r):
+                for (i, j) in edges:
+                    edge_cost = self.G.edges[i, j]["cost"][0]
+                    G.add_edge(i, j, cost=edge_cost)
+                    total_cost += edge_cost
+            else:
+                G.graph["name"] = "%s_non-feasible" % route_id
+                G.add_edges_from(edges, cost=1e10)
+                total_cost = 1e10
             G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
@@ -995,6 +1005,28 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _is_feasible(self, route):
+        """Checks if a route (list of nodes) meets stop and time constraints."""
+        edges = list(zip(route[:-1], route[1:]))
+        if not all(self.G.has_edge(i, j) for (i, j) in edges):
+            return False
+        if self.num_stops and len(route) - 2 > self.num_stops:
+            return False
+        nodes, arcs = self._H.nodes, self._H.edges
+        if self.duration:
+            duration = sum(arcs[i, j]["time"] for (i, j) in edges)
+            duration += sum(nodes[v]["service_time"] for v in route)
+            if duration > self.duration:
+                return False
+        if self.time_windows:
+            time = nodes["Source"]["lower"]
+            for (i, j) in edges:
+                time += nodes[i]["service_time"] + arcs[i, j]["time"]
+                time = max(time, nodes[j]["lower"])
+                if time > nodes[j]["upper"]:
+                    return False
+        return True
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
-- 
2.43.0


From 30b182bd8893ec30161411c3fe48bac422a98c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 04/41] fix: allow unconstrained routes to visit more than half
 of the nodes

---
 vrpy/subproblem_cspy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 521628e..f9d870a 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -172,7 +171,7 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
             sum(
                 [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-- 
2.43.0


From 21871587b341ea376136a70f195af0c33524da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:11 +0000
Subject: [PATCH 05/41] fix: do not mistake routes of different vehicle types
 for duplicates

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index f9d870a..4bbf998 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -269,7 +269,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From 689a79b9c88ddf9e66bfc0ab4eb74418cfb60a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:56 +0000
Subject: [PATCH 06/41] fix: search for elementary routes when the relaxed
 solution is not elementary

---
 vrpy/master_solve_pulp.py | 14 ++++++++++++++
 vrpy/vrp.py               | 40 +++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..c58c005 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -75,6 +75,20 @@ class _MasterSolvePulp(_MasterProblemBase):
         else:
             self._add_route_selection_variable(new_route)
 
+    def discard_non_elementary_routes(self):
+        """
+        Forbids columns which visit a node more than once.
+
+        Returns:
+            bool: True if the current solution makes use of such a column.
+        """
+        used = False
+        for name, var in self.y.items():
+            if "non-elem" in str(name):
+                used = used or (var.value() is not None and var.value() > 1e-6)
+                var.upBound = 0
+        return used
+
     def get_duals(self, relax: pulp.LpProblem = None):
         """Gets the dual values of each constraint of the master problem.
         If a input LpProblem is given (assuming it's a copy),
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0399b14..c64b013 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -527,6 +527,18 @@ class VehicleRoutingProblem:
 
     def _solve(self, dive, solver):
         self._column_generation()
+        # Non elementary routes are not part of the final solution,
+        # more columns may be needed without them
+        if (
+            not self._is_limit_reached(self._max_iter)
+            and self.masterproblem.discard_non_elementary_routes()
+        ):
+            self._elementary = True
+            self._more_routes = True
+            max_iter = self._iteration + 100
+            if self._max_iter:
+                max_iter = min(max_iter, self._max_iter)
+            self._column_generation(max_iter)
         if dive:
             self._dive = True
             self._more_routes = True
@@ -547,23 +559,27 @@ class VehicleRoutingProblem:
 
         self._post_process(solver)
 
-    def _column_generation(self):
+    def _column_generation(self, max_iter=None):
         while self._more_routes:
             # Generate good columns
             self._find_columns()
-            # Stop if time limit is passed
-            if (
-                isinstance(self._get_time_remaining(), float)
-                and self._get_time_remaining() == 0.0
-            ):
-                logger.info("time up !")
-                break
-            # Stop if no improvement limit is passed or max iter exceeded
-            if self._no_improvement > 1000 or (
-                self._max_iter and self._iteration >= self._max_iter
-            ):
+            # Stop if a limit is passed
+            if self._is_limit_reached(max_iter or self._max_iter):
                 break
 
+    def _is_limit_reached(self, max_iter):
+        # Time limit is passed
+        if (
+            isinstance(self._get_time_remaining(), float)
+            and self._get_time_remaining() == 0.0
+        ):
+            logger.info("time up !")
+            return True
+        # No improvement limit is passed or max iter exceeded
+        return self._no_improvement > 1000 or (
+            max_iter and self._iteration >= max_iter
+        )
+
     def _find_columns(self):
         "Solves masterproblem and pricing problem."
         # Solve restricted relaxed master problem
-- 
2.43.0


From 650810e550c147f260677a02465d0bcd56148e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:11 +0000
Subject: [PATCH 07/41] fix: relax dropping variables while generating columns

---
 vrpy/master_solve_pulp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index c58c005..2429c33 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -210,6 +210,9 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
+            # Set dropping variables to integer
+            for var in self.drop.values():
+                var.cat = pulp.LpInteger
             # Force vehicle bound artificial variable to 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
@@ -388,7 +391,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 516a619a6bde76193a9cce80fc979edfb3fb147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 08/41] fix: visit periodic customers as often as their
 frequency

---
 vrpy/master_solve_pulp.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 2429c33..0aa7d00 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -140,7 +140,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # If periodic, a route may be selected more than once
+                best_routes += [r] * (max(1, round(val)) if relax else round(val))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -183,8 +184,7 @@ class _MasterSolvePulp(_MasterProblemBase):
     def _solve(self, relax: bool, time_limit: Optional[int]):
         # Set variable types
         if not relax:
-            # Set partitioning constraints and artificial variables to integer
-            # (for the periodic case)
+            # Set partitioning constraints
             for node in self.G.nodes():
                 if (
                     node not in ["Source", "Sink"]
@@ -197,12 +197,6 @@ class _MasterSolvePulp(_MasterProblemBase):
                         # (?))
                         if "visit_node" in const:
                             self.prob.constraints[const].sense = pulp.LpConstraintEQ
-                if (
-                    self.periodic
-                    and self.G.nodes[node]["frequency"] > 1
-                    and node != "Source"
-                ):
-                    self.dummy[node].cat = pulp.LpInteger
             # Set route variables to integer
             for var in self.y.values():
                 # Disallow routes that visit multiple nodes
@@ -213,6 +207,9 @@ class _MasterSolvePulp(_MasterProblemBase):
             # Set dropping variables to integer
             for var in self.drop.values():
                 var.cat = pulp.LpInteger
+            # Force artificial variables to 0 (for the periodic case)
+            for var in self.dummy.values():
+                var.upBound = 0
             # Force vehicle bound artificial variable to 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
@@ -336,7 +333,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            # The same route may be used on different days
+            upBound=None if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 119421fdf247af3539e0d0bd34002c88e9424e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:18 +0000
Subject: [PATCH 09/41] fix: do not return the routes of a fractional solution
 after diving

---
 vrpy/master_solve_pulp.py | 6 ++++++
 vrpy/vrp.py               | 8 +++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 0aa7d00..969607a 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -68,6 +68,12 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.prob.resolve()
         return self.get_duals(), self.prob.objective.value()
 
+    def unfix_routes(self):
+        """Removes constraints added by the diving heuristic."""
+        for name in list(self.prob.constraints):
+            if name.startswith("fix_"):
+                del self.prob.constraints[name]
+
     def update(self, new_route):
         """Add new column."""
         if self.minimize_global_span:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c64b013..c4fb54b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -543,11 +543,9 @@ class VehicleRoutingProblem:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+            # The relaxed solution may be fractional
+            self.masterproblem.unfix_routes()
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From 8e35e48b57aab707cefd6d8137168912b781d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:49 +0000
Subject: [PATCH 10/41] fix: initial routes use the cost and capacity of their
 vehicle type

---
 vrpy/vrp.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c4fb54b..1f3ad2a 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -988,22 +988,9 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
-            if self._is_feasible(r):
-                for (i, j) in edges:
-                    edge_cost = self.G.edges[i, j]["cost"][0]
-                    G.add_edge(i, j, cost=edge_cost)
-                    total_cost += edge_cost
-            else:
-                G.graph["name"] = "%s_non-feasible" % route_id
-                G.add_edges_from(edges, cost=1e10)
-                total_cost = 1e10
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if self._get_max_load(r) <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -1012,6 +999,16 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            if self._is_feasible(r):
+                for (i, j) in edges:
+                    edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                    G.add_edge(i, j, cost=edge_cost)
+                    total_cost += edge_cost
+            else:
+                G.graph["name"] = "%s_non-feasible" % route_id
+                G.add_edges_from(edges, cost=1e10)
+                total_cost = 1e10
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
@@ -1019,6 +1016,22 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _get_max_load(self, route):
+        """Returns the maximum load carried along a route (list of nodes)."""
+        total_demand = sum(self.G.nodes[v]["demand"] for v in route)
+        if not self.pickup_delivery and not self.distribution_collection:
+            return total_demand
+        # Goods to be distributed are on board when leaving the Source
+        load = total_demand if self.distribution_collection else 0
+        max_load = load
+        for v in route:
+            if self.distribution_collection:
+                load += self.G.nodes[v]["collect"] - self.G.nodes[v]["demand"]
+            else:
+                load += self.G.nodes[v]["demand"]
+            max_load = max(max_load, load)
+        return max_load
+
     def _is_feasible(self, route):
         """Checks if a route (list of nodes) meets stop and time constraints."""
         edges = list(zip(route[:-1], route[1:]))
-- 
2.43.0


From 34d256b897bcb02ec4c66c57c28c0a151f1a2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:34 +0000
Subject: [PATCH 11/41] fix: randomized greedy columns respect the maximum
 duration

---
 vrpy/subproblem_greedy.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..a91edfd 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < 0 and self._is_duration_met():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +43,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < 0 and self._is_duration_met():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -190,6 +190,17 @@ class _SubProblemGreedy(_SubProblemBase):
                 <= self.duration
             )
 
+    def _is_duration_met(self):
+        """Checks time constraint on complete path, service times included."""
+        if not self.duration:
+            return True
+        path = self._current_path
+        total_time = sum(self.sub_G.nodes[v]["service_time"] for v in path)
+        total_time += sum(
+            self.sub_G.edges[i, j]["time"] for (i, j) in zip(path[:-1], path[1:])
+        )
+        return total_time <= self.duration
+
     """
     NOT IMPLEMENTED YET
     def _check_time_windows(self, v, forward):
-- 
2.43.0


From abf8a4fa3d7df6b05684ce0944240c5e5ba5e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:09 +0000
Subject: [PATCH 12/41] fix: find routes for every vehicle when all of them
 have to be used

---
 vrpy/master_solve_pulp.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 969607a..8eead4c 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -262,11 +262,11 @@ class _MasterSolvePulp(_MasterProblemBase):
         Variables are continuous when relaxed, otherwise binary.
         """
 
-        self._add_set_covering_constraints()
-
         if self.num_vehicles and not self.periodic:
             self._add_bound_vehicles()
 
+        self._add_set_covering_constraints()
+
         if self.minimize_global_span:
             self._add_maximum_makespan_constraints()
 
@@ -322,7 +322,12 @@ class _MasterSolvePulp(_MasterProblemBase):
                     self.G.nodes[node]["frequency"] if self.periodic else 1
                 )
                 # Set constraint sign (>= or =)
-                sign = pulp.LpConstraintGE  # if self.relax else pulp.LpConstraintEQ
+                # If all vehicles are used, covering a node twice could be cheaper
+                sign = (
+                    pulp.LpConstraintEQ
+                    if self.use_all_vehicles and self.vehicle_bound_constrs
+                    else pulp.LpConstraintGE
+                )
                 # Save set covering constraints
                 self.set_covering_constrs[node] = pulp.LpConstraintVar(
                     "visit_node_%s" % node, sign, right_hand_term
@@ -339,8 +344,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            # The same route may be used on different days
-            upBound=None if self.periodic else 1,
+            # Implied by the covering constraints (a bound would have a dual value)
+            upBound=None,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
@@ -383,6 +388,15 @@ class _MasterSolvePulp(_MasterProblemBase):
                 cat=pulp.LpContinuous,
                 e=((-1) * self.vehicle_bound_constrs[key] + 1e10 * self.objective),
             )
+            if self.use_all_vehicles:
+                # Not enough routes to start with
+                self.dummy_bound["missing_%s" % key] = pulp.LpVariable(
+                    "artificial_bound_missing_%s" % key,
+                    lowBound=0,
+                    upBound=None,
+                    cat=pulp.LpContinuous,
+                    e=(self.vehicle_bound_constrs[key] + 1e10 * self.objective),
+                )
 
     def _add_drop_variables(self):
         """
-- 
2.43.0


From 7cfcb85e2b86b8430cafd28ab6b0594881aad638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:03 +0000
Subject: [PATCH 13/41] fix: the hyper heuristic stops only when exact pricing
 finds no column

As documented, heuristic pricing that finds no column is followed by exact
pricing: with the hyper heuristic, the search stopped (or divided by zero when
no column was active).
---
 vrpy/hyper_heuristic.py |  5 ++--
 vrpy/vrp.py             | 52 ++++++++++++++---------------------------
 2 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..f00b8a9 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -332,11 +332,12 @@ class _HyperHeuristic:
                 norm_spread = 0
                 if sum_exp != 0:
                     norm_spread = self.exp[heuristic] / sum_exp
+                # there may be no column at all (e.g. if all nodes are dropped)
                 self.q[heuristic] = (
-                    self.weight_col_basic * active_i / active
+                    self.weight_col_basic * active_i / max(active, 1)
                     + self.weight_runtime * norm_runtime
                     + self.weight_obj * self.norm_objective_decrease[heuristic]
-                    + self.weight_col_total * active_i / total_added
+                    + self.weight_col_total * active_i / max(total_added, 1)
                 )
                 self.heuristic_points[heuristic] = self.theta * self.q[
                     heuristic
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 1f3ad2a..91c5546 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -658,41 +658,23 @@ class VehicleRoutingProblem:
     ):
         """Solves pricing problem with input heuristic"""
         more_columns = False
-        if self._pricing_strategy == "Hyper":
-            if pricing_strategy == "BestPaths":
-                more_columns = self._attempt_solve_best_paths(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges1":
-                more_columns = self._attempt_solve_best_edges1(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges2":
-                more_columns = self._attempt_solve_best_edges2(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "Exact":
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-        # old approach
-        else:
-            if pricing_strategy == "BestPaths":
-                more_columns = self._attempt_solve_best_paths(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges1":
-                more_columns = self._attempt_solve_best_edges1(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges2":
-                more_columns = self._attempt_solve_best_edges2(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            if pricing_strategy == "Exact" or not more_columns:
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
+        if pricing_strategy == "BestPaths":
+            more_columns = self._attempt_solve_best_paths(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        elif pricing_strategy == "BestEdges1":
+            more_columns = self._attempt_solve_best_edges1(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        elif pricing_strategy == "BestEdges2":
+            more_columns = self._attempt_solve_best_edges2(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        # If no column is found heuristically, the subproblem is solved exactly
+        if pricing_strategy == "Exact" or not more_columns:
+            more_columns = self._attempt_solve_exact(
+                vehicle=vehicle, duals=duals, route=route
+            )
         return more_columns
 
     def _attempt_solve_best_paths(self, vehicle=None, duals=None, route=None):
-- 
2.43.0


From 1eb23ef07fa9eb5eb6eda526f00425c7280ce7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 14/41] fix: keep generating columns when the greedy algorithm
 found some

The search stopped if the exact algorithm found a column the greedy algorithm
had just added. The last edge of a path reaching the maximum number of stops
was not accounted for, and paths built backwards were never completed.
---
 vrpy/subproblem_greedy.py | 21 ++++++++++++++++++---
 vrpy/vrp.py               |  4 ++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index a91edfd..68dad54 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < 0 and self._is_duration_met():
+            if self._new_node and self._is_improving():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +43,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < 0 and self._is_duration_met():
+            if self._new_node and self._is_improving():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -130,6 +130,7 @@ class _SubProblemGreedy(_SubProblemBase):
                 # Finish path
                 if self._new_node in self.sub_G.predecessors("Sink"):
                     self._current_path.append("Sink")
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                 else:
                     self._new_node = False
                 return False
@@ -141,8 +142,9 @@ class _SubProblemGreedy(_SubProblemBase):
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                if self._new_node in self.sub_G.successors("Source"):
                     self._current_path.insert(0, "Source")
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                 else:
                     self._new_node = False
                 return False
@@ -190,6 +192,19 @@ class _SubProblemGreedy(_SubProblemBase):
                 <= self.duration
             )
 
+    def _is_improving(self):
+        """Checks if the path is a new feasible column with negative reduced cost."""
+        edges = list(zip(self._current_path[:-1], self._current_path[1:]))
+        return (
+            self._weight < -(1e-3)
+            and self._is_duration_met()
+            and not any(
+                edges == list(r.edges())
+                and r.graph["vehicle_type"] == self.vehicle_type
+                for r in self.routes
+            )
+        )
+
     def _is_duration_met(self):
         """Checks time constraint on complete path, service times included."""
         if not self.duration:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 91c5546..808bb45 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -597,6 +597,7 @@ class VehicleRoutingProblem:
         # TODO: parallel
         # One subproblem per vehicle type
 
+        more_greedy_routes = False
         for vehicle in range(self._vehicle_types):
             # Solve pricing problem with randomised greedy algorithm
             if (
@@ -610,6 +611,7 @@ class VehicleRoutingProblem:
                 self.routes, self._more_routes = subproblem.solve(n_runs=20)
                 # Add initial_routes
                 if self._more_routes:
+                    more_greedy_routes = True
                     for r in (
                         r
                         for r in self.routes
@@ -639,6 +641,8 @@ class VehicleRoutingProblem:
                 break
             elif self._pricing_strategy == "Hyper":
                 self.hyper_heuristic.end_time = time()
+        # Columns found by the greedy algorithm change the dual values
+        self._more_routes = self._more_routes or more_greedy_routes
 
         # Keep track of convergence rate and update stopping criteria parameters
         self._iteration += 1
-- 
2.43.0


From 519bf5db1e096c5803a12b4a44dad55449cacb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:22 +0000
Subject: [PATCH 15/41] fix: backtracking from the root node of the diving
 heuristic

The parent of the root node was not a node, and all nodes shared the same tabu
list, even those of another problem.
---
 vrpy/restricted_master_heuristics.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..e566329 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,9 +32,6 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
@@ -81,8 +78,9 @@ class _DivingHeuristic:
                     prob.extend(constrs)
                     self.current_node = lp_node
                 else:
-                    # Backtrack
-                    self.current_node = self.current_node.parent
+                    # Backtrack (unless at root node)
+                    if self.current_node.parent is not None:
+                        self.current_node = self.current_node.parent
                 logger.info(
                     "fixed %s with previous value %s", var_to_fix.name, value_previous
                 )
@@ -93,6 +91,6 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None, tabu_list=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        self.tabu_list = tabu_list if tabu_list is not None else []
-- 
2.43.0


From 3021da9c2c432af38d96610c44d7768845c21546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:34 +0000
Subject: [PATCH 16/41] fix: node names with characters that are not allowed by
 the solver

Dual values of nodes such as "a b", "a-b" or -1 were looked up with a name
that pulp had changed (KeyError).
---
 vrpy/master_solve_pulp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 8eead4c..03547d2 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -35,6 +35,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.vehicle_bound_constrs = {}
         self.drop_penalty_constrs = {}
         self.makespan_constr = {}
+        # Solver names are based on node positions as node names may be anything
+        self._position = {node: i for i, node in enumerate(self.G.nodes())}
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         # Parameter when minimizing global span
@@ -111,7 +113,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                constr_name = "visit_node_%s" % self._position[node]
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
@@ -330,7 +332,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                 )
                 # Save set covering constraints
                 self.set_covering_constrs[node] = pulp.LpConstraintVar(
-                    "visit_node_%s" % node, sign, right_hand_term
+                    "visit_node_%s" % self._position[node], sign, right_hand_term
                 )
 
     def _add_route_selection_variable(self, route):
@@ -406,7 +408,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         for node in self.G.nodes():
             if node not in ["Source", "Sink"]:
                 self.drop[node] = pulp.LpVariable(
-                    "drop_%s" % node,
+                    "drop_%s" % self._position[node],
                     lowBound=0,
                     upBound=1,
                     cat=pulp.LpContinuous,
@@ -421,7 +423,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         for node in self.G.nodes():
             if self.G.nodes[node]["frequency"] > 1 and node != "Source":
                 self.dummy[node] = pulp.LpVariable(
-                    "periodic_%s" % node,
+                    "periodic_%s" % self._position[node],
                     lowBound=0,
                     upBound=None,
                     cat=pulp.LpContinuous,
-- 
2.43.0


From 9f8e5909bc3a35a5ed04c47045072556bb174c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:34 +0000
Subject: [PATCH 17/41] fix: schedule customers without demand at most once a
 day

---
 vrpy/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..db049e5 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -83,14 +83,14 @@ class _Schedule:
             )
         # at most one visit per day per customer
         for t in range(self.time_span):
-            for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+            for i, v in enumerate(self.G.nodes()):
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
                         )
                         <= 1,
-                        "day_%s_max_visit_%s" % (t, v),
+                        "day_%s_max_visit_%s" % (t, i),
                     )
         # max fleet per day
         if self.num_vehicles:
-- 
2.43.0


From 8ecbd7284968c2dbe047b680bfe7042e66bcbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:54 +0000
Subject: [PATCH 18/41] fix: the global span accounts for all routes

Only the first 74 routes were bounded by the makespan, routes found with cspy
or more than 999 routes raised a KeyError, and the dual values were those of an
integer program.
---
 vrpy/master_solve_pulp.py | 57 +++++++++++++--------------------------
 vrpy/vrp.py               |  4 +--
 2 files changed, 20 insertions(+), 41 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 03547d2..65bbb9e 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -29,19 +29,15 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.drop = {}  # dropping variable
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
-        self.makespan = {}  # maximum global span
+        self.makespan = None  # maximum global span
         # constrs
         self.set_covering_constrs = {}
         self.vehicle_bound_constrs = {}
         self.drop_penalty_constrs = {}
-        self.makespan_constr = {}
         # Solver names are based on node positions as node names may be anything
         self._position = {node: i for i, node in enumerate(self.G.nodes())}
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
-        # Parameter when minimizing global span
-        self._n_columns = 1000
-
         self._formulate()
 
     def solve(self, relax, time_limit):
@@ -132,15 +128,11 @@ class _MasterSolvePulp(_MasterProblemBase):
                     ].pi
         # global span duals
         if self.minimize_global_span:
+            constraints = relax.constraints if relax else self.prob.constraints
             for route in self.routes:
-                if not relax:
-                    duals["makespan_%s" % route.graph["name"]] = self.prob.constraints[
-                        "makespan_%s" % route.graph["name"]
-                    ].pi
-                else:
-                    duals["makespan_%s" % route.graph["name"]] = relax.constraints[
-                        "makespan_%s" % route.graph["name"]
-                    ].pi
+                duals["makespan_%s" % route.graph["name"]] = constraints[
+                    self._get_makespan_name(route)
+                ].pi
         return duals
 
     def get_total_cost_and_routes(self, relax: bool):
@@ -270,15 +262,13 @@ class _MasterSolvePulp(_MasterProblemBase):
         self._add_set_covering_constraints()
 
         if self.minimize_global_span:
-            self._add_maximum_makespan_constraints()
+            self._add_makespan_variable()
 
         # Add variables #
         # Route selection variables
         if self.minimize_global_span:
             for route in self.routes:
                 self._add_route_selection_variable_for_global_span(route)
-            for route in range(1, self._n_columns):
-                self.prob += self.makespan_constr[route]
         else:
             for route in self.routes:
                 self._add_route_selection_variable(route)
@@ -299,9 +289,6 @@ class _MasterSolvePulp(_MasterProblemBase):
         # Add dummy_vehicle variables
         self._add_vehicle_dummy_variables()
 
-        if self.minimize_global_span:
-            self._add_makespan_variable()
-
         # Set objective function
         self.prob.sense = pulp.LpMinimize
         self.prob.setObjective(self.objective)
@@ -365,7 +352,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             "y{}".format(route.graph["name"]),
             lowBound=0,
             upBound=1,
-            cat=pulp.LpInteger,
+            cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(
                     self.set_covering_constrs[r]
@@ -377,9 +364,13 @@ class _MasterSolvePulp(_MasterProblemBase):
                     for k in range(len(self.num_vehicles))
                     if route.graph["vehicle_type"] == k
                 )
-                + route.graph["cost"] * self.makespan_constr[route.graph["name"]]
             ),
         )
+        # The makespan is at least the cost of each selected route
+        self.prob += (
+            route.graph["cost"] * self.y[route.graph["name"]] <= self.makespan,
+            self._get_makespan_name(route),
+        )
 
     def _add_vehicle_dummy_variables(self):
         for key in range(len(self.num_vehicles)):
@@ -438,28 +429,16 @@ class _MasterSolvePulp(_MasterProblemBase):
                 "upper_bound_vehicles_%s" % k, sign, self.num_vehicles[k]
             )
 
-    def _add_makespan_variable(self, new_route=None):
-        """Defines maximum makespan of each route"""
-        if new_route:
-            constraints = [self.makespan_constr[new_route.graph["name"]]]
-            cost = 0
-        else:
-            # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
-            cost = 1
+    def _add_makespan_variable(self):
+        """Defines maximum makespan"""
         self.makespan = pulp.LpVariable(
             "makespan",
             lowBound=0,
             upBound=None,
             cat=pulp.LpContinuous,
-            e=(cost * self.objective - pulp.lpSum(constraints)),
+            e=1 * self.objective,
         )
 
-    def _add_maximum_makespan_constraints(self):
-        """Defines maximum makespan"""
-        for route in range(1, self._n_columns):
-            self.makespan_constr[route] = pulp.LpConstraintVar(
-                "makespan_%s" % route,
-                pulp.LpConstraintLE,
-                0,
-            )
+    def _get_makespan_name(self, route):
+        """Name of the makespan constraint of a route"""
+        return "makespan_%s" % str(route.graph["name"]).replace("-", "_")
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 808bb45..315a325 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -287,10 +287,10 @@ class VehicleRoutingProblem:
         if self.drop_penalty:
             penalty = self.drop_penalty * len(self._dropped_nodes)
             if self.minimize_global_span:
-                return max(self.best_routes_cost.values()) + penalty
+                return max(self.best_routes_cost.values(), default=0) + penalty
             return sum(self.best_routes_cost.values()) + penalty
         if self.minimize_global_span:
-            return max(self.best_routes_cost.values())
+            return max(self.best_routes_cost.values(), default=0)
         return sum(self.best_routes_cost.values())
 
     @property
-- 
2.43.0


From f1033dbf6f240d1f63742eb08bc74b8583936efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:33 +0000
Subject: [PATCH 19/41] fix: dual values do not lose their accuracy because of
 artificial costs

The solver outputs 8 digits, with artificial costs of 1e10 the search stopped
with a suboptimal solution, or without any.
---
 vrpy/master_solve_pulp.py | 46 ++++++++++++++++++++++++++++++++++++---
 vrpy/preprocessing.py     |  9 ++++++++
 vrpy/vrp.py               |  6 ++---
 3 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 65bbb9e..85312c5 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -5,6 +5,7 @@ from networkx import shortest_path
 import pulp
 
 from vrpy.masterproblem import _MasterProblemBase
+from vrpy.preprocessing import get_artificial_cost
 from vrpy.restricted_master_heuristics import _DivingHeuristic
 
 
@@ -29,6 +30,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.drop = {}  # dropping variable
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
+        self._discarded = []  # artificial variables which are not needed anymore
         self.makespan = None  # maximum global span
         # constrs
         self.set_covering_constrs = {}
@@ -36,12 +38,17 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.drop_penalty_constrs = {}
         # Solver names are based on node positions as node names may be anything
         self._position = {node: i for i, node in enumerate(self.G.nodes())}
+        # Cost of artificial variables
+        self._artificial_cost = get_artificial_cost(self.G)
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         self._formulate()
 
     def solve(self, relax, time_limit):
         self._solve(relax, time_limit)
+        if relax and self._discard_artificial_variables():
+            # Dual values are not accurate if they depend on artificial costs
+            self._solve(relax, time_limit)
         logger.debug("master problem relax %s" % relax)
         logger.debug("Status: %s" % pulp.LpStatus[self.prob.status])
         logger.debug("Objective: %s" % pulp.value(self.prob.objective))
@@ -91,8 +98,32 @@ class _MasterSolvePulp(_MasterProblemBase):
             if "non-elem" in str(name):
                 used = used or (var.value() is not None and var.value() > 1e-6)
                 var.upBound = 0
+        if used:
+            # The remaining columns may not be enough for a feasible solution
+            for var in self._discarded:
+                var.upBound = None
+            self._discarded = []
         return used
 
+    def _discard_artificial_variables(self):
+        """
+        Artificial variables and routes are useless once a feasible solution is known.
+
+        Returns:
+            bool: True if some of them have just been discarded.
+        """
+        artificial = list(self.dummy.values()) + list(self.dummy_bound.values())
+        artificial += [self.y[r] for r in self.y if "non-feasible" in str(r)]
+        artificial = [var for var in artificial if var.upBound != 0]
+        if self.prob.status != pulp.LpStatusOptimal or any(
+            var.value() is not None and var.value() > 1e-9 for var in artificial
+        ):
+            return False
+        for var in artificial:
+            var.upBound = 0
+        self._discarded += artificial
+        return len(artificial) > 0
+
     def get_duals(self, relax: pulp.LpProblem = None):
         """Gets the dual values of each constraint of the master problem.
         If a input LpProblem is given (assuming it's a copy),
@@ -379,7 +410,10 @@ class _MasterSolvePulp(_MasterProblemBase):
                 lowBound=0,
                 upBound=None,
                 cat=pulp.LpContinuous,
-                e=((-1) * self.vehicle_bound_constrs[key] + 1e10 * self.objective),
+                e=(
+                    (-1) * self.vehicle_bound_constrs[key]
+                    + self._artificial_cost * self.objective
+                ),
             )
             if self.use_all_vehicles:
                 # Not enough routes to start with
@@ -388,7 +422,10 @@ class _MasterSolvePulp(_MasterProblemBase):
                     lowBound=0,
                     upBound=None,
                     cat=pulp.LpContinuous,
-                    e=(self.vehicle_bound_constrs[key] + 1e10 * self.objective),
+                    e=(
+                        self.vehicle_bound_constrs[key]
+                        + self._artificial_cost * self.objective
+                    ),
                 )
 
     def _add_drop_variables(self):
@@ -418,7 +455,10 @@ class _MasterSolvePulp(_MasterProblemBase):
                     lowBound=0,
                     upBound=None,
                     cat=pulp.LpContinuous,
-                    e=(1e10 * self.objective + self.set_covering_constrs[node]),
+                    e=(
+                        self._artificial_cost * self.objective
+                        + self.set_covering_constrs[node]
+                    ),
                 )
 
     def _add_bound_vehicles(self):
diff --git a/vrpy/preprocessing.py b/vrpy/preprocessing.py
index 11f43dc..fd805ef 100644
--- a/vrpy/preprocessing.py
+++ b/vrpy/preprocessing.py
@@ -49,3 +49,12 @@ def _knapsack(weights, capacity):
                 else:
                     sol[i][j] = sol[i - 1][j]
     return sol[n - 1][capacity]
+
+
+def get_artificial_cost(G):
+    """
+    Cost of artificial variables: larger than the cost of any solution, but not too
+    large with respect to actual costs (dual values would not be accurate).
+    """
+    costs = [max(G.edges[i, j]["cost"]) for (i, j) in G.edges()]
+    return min(1e10, 100 * (1 + sum(abs(cost) for cost in costs if cost < 1e10)))
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 315a325..552afb3 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -12,7 +12,7 @@ from vrpy.subproblem_cspy import _SubProblemCSPY
 from vrpy.hyper_heuristic import _HyperHeuristic
 from vrpy.master_solve_pulp import _MasterSolvePulp
 from vrpy.subproblem_greedy import _SubProblemGreedy
-from vrpy.preprocessing import get_num_stops_upper_bound
+from vrpy.preprocessing import get_artificial_cost, get_num_stops_upper_bound
 from vrpy.clarke_wright import _ClarkeWright, _RoundTrip
 from vrpy.checks import (
     check_arguments,
@@ -992,8 +992,8 @@ class VehicleRoutingProblem:
                     total_cost += edge_cost
             else:
                 G.graph["name"] = "%s_non-feasible" % route_id
-                G.add_edges_from(edges, cost=1e10)
-                total_cost = 1e10
+                total_cost = get_artificial_cost(self.G)
+                G.add_edges_from(edges, cost=total_cost)
             G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
-- 
2.43.0


From 1fbde07bbd4bc3cdad3c1714f8cf3f9c121972a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:33 +0000
Subject: [PATCH 20/41] fix: routes of the LP subproblem do not include cycles
 with no reduced cost

The nodes of such a cycle were considered as visited, although they are not part
of the route from Source to Sink.
---
 vrpy/subproblem_lp.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..2c45335 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -55,13 +55,15 @@ class _SubProblemLP(_SubProblemBase):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
-        for (i, j) in self.sub_G.edges():
-            if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+        # Cycles with a reduced cost of 0 are not part of the route
+        edges = [e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5]
+        path = shortest_path(DiGraph(edges), "Source", "Sink")
+        for (i, j) in zip(path[:-1], path[1:]):
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
-- 
2.43.0


From 4f4f50c21f969cb65f49cf0893389a204a5c46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:07 +0000
Subject: [PATCH 21/41] fix: time windows when the direct edge to the depot is
 not the fastest way

Windows were strengthened with the direct travel times, which discards feasible
routes if a detour is faster. The opening time of the Source was only met thanks
to these windows.
---
 vrpy/subproblem_cspy.py |  4 +++-
 vrpy/vrp.py             | 22 ++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 4bbf998..facacd8 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -50,11 +50,13 @@ class _MyREFCallback(REFCallback):
         travel_time_ij = self._sub_G.edges[i, j]["time"]
         # Time windows
         # Lower
+        a_i = self._sub_G.nodes[i]["lower"]
         a_j = self._sub_G.nodes[j]["lower"]
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
-        new_res[2] = max(new_res[2] + theta_i + travel_time_ij, a_j)
+        # the route may not leave the Source before it opens
+        new_res[2] = max(max(new_res[2], a_i) + theta_i + travel_time_ij, a_j)
 
         # time-window feasibility resource
         if not self._time_windows or (new_res[2] <= b_j):
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 552afb3..95a1b0e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -3,7 +3,11 @@ import logging
 from time import time
 from typing import List, Union
 
-from networkx import DiGraph, shortest_path  # draw_networkx
+from networkx import (
+    DiGraph,
+    shortest_path,
+    single_source_dijkstra_path_length,
+)  # draw_networkx
 
 from vrpy.greedy import _Greedy
 from vrpy.schedule import _Schedule
@@ -1082,6 +1086,13 @@ class VehicleRoutingProblem:
 
     def _remove_infeasible_arcs_time_windows(self):
         infeasible_arcs = []
+        # Shortest travel times (the direct edge may be longer than a detour)
+        time_from_source = single_source_dijkstra_path_length(
+            self.G, "Source", weight="time"
+        )
+        time_to_sink = single_source_dijkstra_path_length(
+            self.G.reverse(copy=False), "Sink", weight="time"
+        )
         for (i, j) in self.G.edges():
             travel_time = self.G.edges[i, j]["time"]
             service_time = self.G.nodes[i]["service_time"]
@@ -1092,16 +1103,15 @@ class VehicleRoutingProblem:
             # Strengthen time windows
             for v in self.G.nodes():
                 if v not in ["Source", "Sink"]:
-                    # earliest time is coming straight from depot
+                    # earliest time is coming from depot as fast as possible
                     self.G.nodes[v]["lower"] = max(
                         self.G.nodes[v]["lower"],
-                        self.G.nodes["Source"]["lower"]
-                        + self.G.edges["Source", v]["time"],
+                        self.G.nodes["Source"]["lower"] + time_from_source[v],
                     )
-                    # Latest time is going straight to depot
+                    # Latest time is going to depot as fast as possible
                     self.G.nodes[v]["upper"] = min(
                         self.G.nodes[v]["upper"],
-                        self.G.nodes["Sink"]["upper"] - self.G.edges[v, "Sink"]["time"],
+                        self.G.nodes["Sink"]["upper"] - time_to_sink[v],
                     )
         self.G.remove_edges_from(infeasible_arcs)
 
-- 
2.43.0


From cd7224654b4ce9a0cca10883a1d6c4fb2c7a9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:29 +0000
Subject: [PATCH 22/41] fix: maximum duration with time windows, service times
 without time constraints

With cspy, waiting times counted as part of the duration (but not with
cspy=False nor in best_routes_duration), and service times without any time
constraint made routes infeasible.
---
 vrpy/subproblem_cspy.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index facacd8..41d697c 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -70,6 +70,9 @@ class _MyREFCallback(REFCallback):
             # Delivery
             new_res[5] = max(new_res[5] + self._sub_G.nodes[j]["demand"], new_res[4])
 
+        # duration (waiting times do not count)
+        new_res[6] += theta_i + travel_time_ij
+
         return new_res
 
     def REF_bwd(self, cumul_res, tail, head, edge_res, partial_path, cumul_cost):
@@ -165,6 +168,7 @@ class _SubProblemCSPY(_SubProblemBase):
             "time windows",
             "collect",
             "deliver",
+            "duration",
         ]
         # Set number of resources as attribute of graph
         self.sub_G.graph["n_res"] = len(self.resources)
@@ -172,15 +176,18 @@ class _SubProblemCSPY(_SubProblemBase):
         self.min_res = [0] * len(self.resources)
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
+        total_time = sum(
+            [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+        ) + sum([self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()])
         self.max_res = [
             len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
-            sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-            ),  # time
+            total_time
+            + max(self.sub_G.nodes[v]["lower"] for v in self.sub_G.nodes()),  # time
             1,  # time windows
             total_demand,  # pickup
             total_demand,  # deliver
+            total_time,  # duration
         ]
         # Initialize cspy edge attributes
         for edge in self.sub_G.edges(data=True):
@@ -304,9 +311,8 @@ class _SubProblemCSPY(_SubProblemBase):
         if self.duration:
             self.add_max_duration()
         if self.time_windows:
-            if not self.duration:
-                # Update upper bound for duration
-                self.max_res[2] = 1 + self.sub_G.nodes["Sink"]["upper"]
+            # Update upper bound for time
+            self.max_res[2] = 1 + self.sub_G.nodes["Sink"]["upper"]
             # Time windows feasibility
             self.max_res[3] = 0
             # Maximum feasible arrival time
@@ -319,8 +325,6 @@ class _SubProblemCSPY(_SubProblemBase):
         if self.load_capacity and self.distribution_collection:
             self.max_res[4] = self.load_capacity[self.vehicle_type]
             self.max_res[5] = self.load_capacity[self.vehicle_type]
-        if self.pickup_delivery:
-            self.max_res[6] = 0
 
     def create_new_route(self, path):
         """Create new route as DiGraph and add to pool of columns"""
@@ -363,12 +367,12 @@ class _SubProblemCSPY(_SubProblemBase):
             self.sub_G.edges[i, j]["res_cost"][1] = demand_head_node
 
     def add_max_duration(self):
-        """Updates maximum travel time."""
-        self.max_res[2] = self.duration
+        """Updates maximum travel and service time."""
+        self.max_res[6] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
             service_time = self.sub_G.nodes[i]["service_time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
+            self.sub_G.edges[i, j]["res_cost"][6] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From a8d634df04e68fafdbd04b09ef337ea4cf7e4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:51 +0000
Subject: [PATCH 23/41] fix: Clarke & Wright solution accounts for preassigned
 routes and number of vehicles

---
 vrpy/vrp.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 95a1b0e..b902471 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -882,6 +882,11 @@ class VehicleRoutingProblem:
         for route in alg.best_routes:
             if not self._is_feasible(route):
                 raise ValueError("Clarke & Wright found no feasible solution.")
+        if self.num_vehicles and (
+            len(alg.best_routes) > self.num_vehicles[0]
+            or (self.use_all_vehicles and len(alg.best_routes) < self.num_vehicles[0])
+        ):
+            raise ValueError("Clarke & Wright found no feasible solution.")
         self._best_routes = dict(
             zip([r for r in range(len(alg.best_routes))], alg.best_routes)
         )
@@ -891,6 +896,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._add_preassigned_routes(len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1205,7 +1211,10 @@ class VehicleRoutingProblem:
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
-        # Merge with preassigned complete routes
+        self._add_preassigned_routes(route_id)
+
+    def _add_preassigned_routes(self, route_id):
+        """Merges best routes with preassigned complete routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From 916218d1e66a2aa3949f1fed2d395f1e38b39cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:51 +0000
Subject: [PATCH 24/41] fix: diving heuristic when all nodes are locked

---
 vrpy/vrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index b902471..25f243d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -543,7 +543,8 @@ class VehicleRoutingProblem:
             if self._max_iter:
                 max_iter = min(max_iter, self._max_iter)
             self._column_generation(max_iter)
-        if dive:
+        # Nothing to dive into if all vertices are locked
+        if dive and len(self.G.nodes()) > 2:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-- 
2.43.0


From 84d1fb97d3ec66a7d22380d630580dc2e6d80fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:51 +0000
Subject: [PATCH 25/41] fix: BestPaths pricing strategy when all reduced costs
 are equal

---
 vrpy/subproblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..4befea8 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -200,10 +200,12 @@ class _SubProblemBase:
         # Normalize weights
         max_weight = max(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
+        # (if all weights are equal, there is nothing to normalize)
+        weight_range = (max_weight - min_weight) or 1
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+            ) / weight_range
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From 605400e644c6bdfe576dd1a2ba4f163fee94811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:27 +0000
Subject: [PATCH 26/41] fix: missing depot edges have one cost per type of
 vehicle

---
 vrpy/checks.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..da9f668 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -1,6 +1,7 @@
 """Functions to check input types and consistency.
 """
 import logging
+from copy import copy
 
 from numpy.random import RandomState
 from networkx import DiGraph, NetworkXError, has_path, shortest_path_length
@@ -97,15 +98,19 @@ def check_vrp(G: DiGraph = None):
         if len(list(G.successors("Sink"))) > 0:
             raise NetworkXError("Sink must have no outgoing edges.")
     # Roundtrips should always be possible
-    # Missing edges are added with a high cost
+    # Missing edges are added with a high cost (for each type of vehicle)
+    cost = 1e10
+    for (_, _, edge_cost) in G.edges.data("cost"):
+        if isinstance(edge_cost, list):
+            cost = [1e10] * len(edge_cost)
     for v in G.nodes():
         if v not in ["Source", "Sink"]:
             if v not in G.successors("Source"):
                 logger.warning("Source not connected to %s" % v)
-                G.add_edge("Source", v, cost=1e10)
+                G.add_edge("Source", v, cost=copy(cost))
             if v not in G.predecessors("Sink"):
                 logger.warning("%s not connected to Sink" % v)
-                G.add_edge(v, "Sink", cost=1e10)
+                G.add_edge(v, "Sink", cost=copy(cost))
     # If graph is disconnected
     if not has_path(G, "Source", "Sink"):
         raise NetworkXError("Source and Sink are not connected.")
-- 
2.43.0


From b5cb52e2bdc95e4491d6a5e23c405b91e4443131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:52 +0000
Subject: [PATCH 27/41] fix: build routes of the LP subproblem within the time
 limit

---
 vrpy/subproblem_lp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 2c45335..46a926d 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -56,8 +56,11 @@ class _SubProblemLP(_SubProblemBase):
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
         # Cycles with a reduced cost of 0 are not part of the route
-        edges = [e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5]
-        path = shortest_path(DiGraph(edges), "Source", "Sink")
+        solution = DiGraph()
+        solution.add_edges_from(
+            e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5
+        )
+        path = shortest_path(solution, "Source", "Sink")
         for (i, j) in zip(path[:-1], path[1:]):
             edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
             self.total_cost += edge_cost
-- 
2.43.0


From 81d8e41a20b4b2cc5fbdf804a4a3b2c3a80e9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:43 +0000
Subject: [PATCH 28/41] fix: the LP subproblem does not generate the same route
 over and over

---
 vrpy/subproblem_lp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 46a926d..d4835fe 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -44,8 +44,7 @@ class _SubProblemLP(_SubProblemBase):
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
-            more_routes = True
-            self._add_new_route()
+            more_routes = self._add_new_route()
         else:
             more_routes = False
 
@@ -61,6 +60,13 @@ class _SubProblemLP(_SubProblemBase):
             e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5
         )
         path = shortest_path(solution, "Source", "Sink")
+        # The same route would be found over and over
+        if any(
+            r.graph["vehicle_type"] == self.vehicle_type
+            and set(r.edges()) == set(zip(path[:-1], path[1:]))
+            for r in self.routes
+        ):
+            return False
         for (i, j) in zip(path[:-1], path[1:]):
             edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
             self.total_cost += edge_cost
@@ -81,6 +87,7 @@ class _SubProblemLP(_SubProblemBase):
         # print(i, j, self.sub_G.edges[i, j])
         # routes_txt = open("routes.txt", "a")
         # routes_txt.write(str(shortest_path(new_route, "Source", "Sink")) + "\n")
+        return True
 
     def _solve(self, time_limit):
         if self.solver == "cbc":
-- 
2.43.0


From a6003807fa72cfe7ee1c9ec1629ee747e7166623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:43 +0000
Subject: [PATCH 29/41] fix: pickup and delivery without load capacity

---
 vrpy/subproblem_lp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index d4835fe..4bca19d 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -290,17 +290,21 @@ class _SubProblemLP(_SubProblemBase):
                     "node_%s_before_%s" % (v, delivery_node),
                 )
 
+        # Maximum load (total amount to pickup if capacity is not limited)
+        if self.load_capacity:
+            M = self.load_capacity[self.vehicle_type]
+        else:
+            M = sum(max(0, self.sub_G.nodes[v]["demand"]) for v in self.sub_G.nodes())
         # Variables to track the load on each node
         self.load = pulp.LpVariable.dicts(
             "load",
             self.sub_G.nodes(),
             lowBound=0,
-            upBound=self.load_capacity[self.vehicle_type],
+            upBound=M,
             cat=pulp.LpContinuous,
         )
 
         # Load definition
-        M = self.load_capacity[self.vehicle_type]
         for (i, j) in self.sub_G.edges():
             self.prob += (
                 self.load[i] + self.sub_G.nodes[j]["demand"]
-- 
2.43.0


From 6aaacb38c952f5aa5aae43ba89764860615bc8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:44 +0000
Subject: [PATCH 30/41] fix: pricing strategy is changed to Exact if pickup and
 delivery

---
 vrpy/vrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 25f243d..639426e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -481,6 +481,10 @@ class VehicleRoutingProblem:
             pricing_strategy=self._pricing_strategy,
             G=self.G,
         )
+        # Pickup and delivery is only compatible with exact pricing
+        if self.pickup_delivery:
+            self._pricing_strategy = "Exact"
+            self.hyper_heuristic = None
         # Check feasibility
         check_feasibility(
             load_capacity=self.load_capacity, G=self.G, duration=self.duration
-- 
2.43.0


From ca0df8774773681bca1f17c84ffa3dc549a037a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:49 +0000
Subject: [PATCH 31/41] fix: no empty routes when all vehicles have to be used

---
 vrpy/subproblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 4befea8..fc43035 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -127,6 +127,9 @@ class _SubProblemBase:
                     edge[2]["weight"] -= self.duals[v]
         if "upper_bound_vehicles" in self.duals:
             for v in self.G.successors("Source"):
+                # No vehicle is needed for an empty route
+                if v == "Sink":
+                    continue
                 self.G.edges["Source", v]["weight"] -= self.duals[
                     "upper_bound_vehicles"
                 ][self.vehicle_type]
-- 
2.43.0


From 9fe034a88166b63911361834ec5c227468c86359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 32/41] fix: requests that miss their time windows may be
 dropped

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 639426e..240135b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -966,7 +966,7 @@ class VehicleRoutingProblem:
                         (v, self.G.nodes[v]["request"]),
                         (self.G.nodes[v]["request"], "Sink"),
                     ]
-                    if self.time_windows:
+                    if self.time_windows and not self.drop_penalty:
                         check_pickup_delivery_time_windows(self.G, edges)
                     self._initial_routes.append(obvious_route)
 
-- 
2.43.0


From 481317245646365005df2bfc26554585ec29d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:37 +0000
Subject: [PATCH 33/41] fix: no columns from the LP subproblem when time is up

---
 vrpy/subproblem_lp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 4bca19d..80dd505 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
@@ -42,7 +42,7 @@ class _SubProblemLP(_SubProblemBase):
         if (
             pulp.value(self.prob.objective) is not None
             and pulp.value(self.prob.objective) < -(10**-3)
-            and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
+            and pulp.LpStatus[self.prob.status] == "Optimal"
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = self._add_new_route()
         else:
-- 
2.43.0


From 586cf0fe3162b9c264b2aef90c273e640b7ef0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:37 +0000
Subject: [PATCH 34/41] fix: compute the schedule when time is up

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 240135b..2d9b79c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1281,6 +1281,6 @@ class VehicleRoutingProblem:
                 self._num_vehicles_schedule,
                 solver,
             )
-            schedule.solve(self._get_time_remaining())
+            schedule.solve(self._get_time_remaining(mip=True))
             self._schedule = schedule.routes_per_day
         self.comp_time = time() - self._start_time
-- 
2.43.0


From 6542cc9317911b379836e4624c4038ae740a70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:10 +0000
Subject: [PATCH 35/41] fix: the LP subproblem does not miss routes when travel
 times are long

The big-M of the time window constraints was smaller than the time between
two nodes of a route plus the time of the edge back.
---
 vrpy/subproblem_lp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 80dd505..f6fb47b 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -177,19 +177,24 @@ class _SubProblemLP(_SubProblemBase):
         )
 
     def _add_time_windows(self):
-        # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
         )
         # Add big-M constraints
         for (i, j) in self.sub_G.edges():
+            # Big-M definition
+            M = (
+                self.sub_G.nodes[i]["upper"]
+                + self.sub_G.nodes[i]["service_time"]
+                + self.sub_G.edges[i, j]["time"]
+                - self.sub_G.nodes[j]["lower"]
+            )
             self.prob += (
                 self.t[i]
                 + self.sub_G.nodes[i]["service_time"]
                 + self.sub_G.edges[i, j]["time"]
-                <= self.t[j] + M * (1 - self.x[(i, j)]),
+                <= self.t[j] + max(0, M) * (1 - self.x[(i, j)]),
                 "time_window_%s_%s" % (i, j),
             )
         # Add node constraints
-- 
2.43.0


From 7b0f41f3d46136c1473a3dd7beaa8adf061fdba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:31 +0000
Subject: [PATCH 36/41] fix: the LP subproblem ignores customers that cannot be
 visited in time

Their time window is empty, which made the whole subproblem infeasible.
---
 vrpy/subproblem_lp.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index f6fb47b..74e922e 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -183,9 +183,9 @@ class _SubProblemLP(_SubProblemBase):
         )
         # Add big-M constraints
         for (i, j) in self.sub_G.edges():
-            # Big-M definition
+            # Big-M definition (upper may be before lower if i cannot be visited)
             M = (
-                self.sub_G.nodes[i]["upper"]
+                max(self.sub_G.nodes[i]["upper"], self.sub_G.nodes[i]["lower"])
                 + self.sub_G.nodes[i]["service_time"]
                 + self.sub_G.edges[i, j]["time"]
                 - self.sub_G.nodes[j]["lower"]
@@ -199,6 +199,17 @@ class _SubProblemLP(_SubProblemBase):
             )
         # Add node constraints
         for v in self.sub_G.nodes():
+            if (
+                v not in ["Source", "Sink"]
+                and self.sub_G.nodes[v]["lower"] > self.sub_G.nodes[v]["upper"]
+            ):
+                # v cannot be visited in time
+                self.prob += (
+                    pulp.lpSum([self.x[(u, v)] for u in self.sub_G.predecessors(v)])
+                    == 0,
+                    "node_%s_not_visited" % v,
+                )
+                continue
             self.prob += self.t[v] <= self.sub_G.nodes[v]["upper"], "node_%s_up" % v
             self.prob += self.t[v] >= self.sub_G.nodes[v]["lower"], "node_%s_low" % v
 
-- 
2.43.0


From 6df27ac23b92a3b5ff8520a62fc50fe9637c11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:23 +0000
Subject: [PATCH 37/41] fix: preassigned routes that leave no vertex to drop

---
 vrpy/vrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2d9b79c..bde1416 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1266,8 +1266,8 @@ class VehicleRoutingProblem:
     # Post-processing #
 
     def _post_process(self, solver):
-        # Get dropped nodes
-        if self.drop_penalty:
+        # Get dropped nodes (none if all vertices are locked)
+        if self.drop_penalty and len(self.G.nodes()) > 2:
             self._dropped_nodes = self.masterproblem.dropped_nodes
         # Convert best routes into lists of nodes
         self._best_routes_as_node_lists()
-- 
2.43.0


From db41220d7430dc784be64be49a1a28d0f597eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:52 +0000
Subject: [PATCH 38/41] fix: give a preassigned route a vehicle that can carry
 its largest load

With pickup and delivery, or distribution and collection, the sum of the
demands of a route says nothing about the load on board.
---
 vrpy/vrp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index bde1416..7d23f2f 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1019,7 +1019,7 @@ class VehicleRoutingProblem:
 
     def _get_max_load(self, route):
         """Returns the maximum load carried along a route (list of nodes)."""
-        total_demand = sum(self.G.nodes[v]["demand"] for v in route)
+        total_demand = sum(self._H.nodes[v]["demand"] for v in route)
         if not self.pickup_delivery and not self.distribution_collection:
             return total_demand
         # Goods to be distributed are on board when leaving the Source
@@ -1027,9 +1027,9 @@ class VehicleRoutingProblem:
         max_load = load
         for v in route:
             if self.distribution_collection:
-                load += self.G.nodes[v]["collect"] - self.G.nodes[v]["demand"]
+                load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
             else:
-                load += self.G.nodes[v]["demand"]
+                load += self._H.nodes[v]["demand"]
             max_load = max(max_load, load)
         return max_load
 
@@ -1228,7 +1228,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._get_max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From 5739da3494f5e26d0d6c7ce4309fa28847211745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:48 +0000
Subject: [PATCH 39/41] fix: initial routes that visit a customer more than
 once are not feasible

---
 vrpy/vrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 7d23f2f..572fb1c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1035,6 +1035,9 @@ class VehicleRoutingProblem:
 
     def _is_feasible(self, route):
         """Checks if a route (list of nodes) meets stop and time constraints."""
+        if len(set(route)) < len(route):
+            # A node is visited more than once
+            return False
         edges = list(zip(route[:-1], route[1:]))
         if not all(self.G.has_edge(i, j) for (i, j) in edges):
             return False
-- 
2.43.0


From e3b3730b4176717ae6e4b3cd0fdecc3fe9602bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:48 +0000
Subject: [PATCH 40/41] fix: schedule visits at most once a day to customers of
 preassigned routes

---
 vrpy/vrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 572fb1c..d7d8f57 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1276,8 +1276,9 @@ class VehicleRoutingProblem:
         self._best_routes_as_node_lists()
         # Schedule routes over time span if Periodic CVRP
         if self.periodic:
+            # (vertices of locked routes are not in G anymore)
             schedule = _Schedule(
-                self.G,
+                self._H,
                 self.periodic,
                 self.best_routes,
                 self.best_routes_type,
-- 
2.43.0


From 55a18c7911886386a341dd4f3573fa8ad6cd5f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:05 +0000
Subject: [PATCH 41/41] fix: pickup and delivery with requests that exceed the
 capacity of some vehicle types

---
 vrpy/subproblem_lp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 74e922e..1eee605 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -320,6 +320,8 @@ class _SubProblemLP(_SubProblemBase):
             cat=pulp.LpContinuous,
         )
 
+        # Big-M definition (some requests may not fit in this type of vehicle)
+        M = max([M] + [abs(self.sub_G.nodes[v]["demand"]) for v in self.sub_G.nodes()])
         # Load definition
         for (i, j) in self.sub_G.edges():
             self.prob += (
-- 
2.43.0

