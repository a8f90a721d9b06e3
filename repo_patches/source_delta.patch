From 45823023c67a93b01c01c473d941bc1fd30ccfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/35] fix: count times and transitions correctly when
 cardinalities differ

The flat index of a joint state used the cumulative products divided by the
node's own cardinality as strides, which is only right when all the variables
have the same cardinality.
---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..c48cfa0 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,8 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        strides = np.append(1, scalar_indexes_struct[:-1])
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * strides, axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +106,8 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        strides = np.append(1, scalar_indexing[:-1])
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * strides, axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 2c443419389af4a55b08442cf0602e88a3a0c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/35] fix: list the parent combinations in the right columns
 when cardinalities differ

The first two columns were exchanged after the grid had been built in 'xy'
order, which gives the first parent the states of the second one.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From f05a1d7f5cc18f1ff8da0677a4e2b7e2f9b7860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/35] fix: keep the times of sampled trajectories instead of
 truncating them to integers

The rows were built from an integer frame, so every transition time was cut
to a whole number.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..eed1667 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.astype({"Time": float, **{v: int for v in self._vnames}})
                 self._generated_trajectory = sigma
                 return sigma
             else:
@@ -123,9 +123,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
+                new_row.at[0, self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row.at[0, "Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From 0a9a10f6dac68b948cdbfcc00706ab3828145cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/35] fix: sample waiting times with the exit rate, not its
 inverse

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index eed1667..175a770 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -98,7 +98,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 4ec8eecde63e71802a2e4722f2a32b406cd58fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/35] fix: give every parallel trajectory its own random
 state

---
 .../PyCTBN/structure_graph/trajectory_generator.py  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 175a770..c113477 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -136,7 +136,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -145,8 +145,13 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: If defined, the seed of the random state used by this process. Without it every
+                forked process would start from the same copy of the parent's random state
+            :type seed: int
         """
         
+        if seed is not None:
+            random.seed(seed)
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -166,9 +171,11 @@ class TrajectoryGenerator(object):
         trajectories = Manager().list()
 
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, s))
+                for t, s in zip(t_ends, random.randint(0, 2 ** 31, size = len(t_ends)))]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, s))
+                for m, s in zip(max_trs, random.randint(0, 2 ** 31, size = len(max_trs)))]
 
         for p in processes:
             p.start()
-- 
2.43.0


From b40e1b5702ecab4840d97a7f5fa486dee76bb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 06/35] fix: draw the tabu search candidate from a list, sets
 cannot be sampled

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..ccd856e 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = sample(sorted(current_possible_nodes),k=1)[0]
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From 7b87862eae40804b33164bdda45ad58cfaf29090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 07/35] fix: end the score-based search at once when there is
 no candidate parent

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 4 ++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..98fe00f 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -89,6 +89,10 @@ class HillClimbing(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)]
         
+        'without candidates the known parents are the result'
+        if not other_nodes:
+            return graph.edges
+
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
         patince_count = 0
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index ccd856e..4fa9fc7 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -98,6 +98,10 @@ class TabuSearch(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)])
 
+        'without candidates the known parents are the result'
+        if not other_nodes:
+            return graph.edges
+
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
-- 
2.43.0


From cf6a3e00fcf3a591eae261e36a203a4388e2e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 08/35] fix: never swap out a known parent when the parents
 limit is reached

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 6 +++++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index 98fe00f..e6932ce 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -111,7 +111,11 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        'known parents cannot be removed; if there is no other, no move is possible'
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if not removable_parents:
+                            break
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 4fa9fc7..32d5335 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -143,7 +143,11 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        'known parents cannot be removed; if there is no other, no move is possible'
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if not removable_parents:
+                            break
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
-- 
2.43.0


From 5bc75332ddeba74d3a8731867f26136270d76105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 09/35] fix: keep the variables without edges in the estimated
 graph

---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From f738b4aee064d59337e1ca84fec09681749dc925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 10/35] fix: give the sample path its prior edges back after an
 estimation

---
 .../estimators/structure_constraint_based_estimator.py     | 7 +++++++
 .../PyCTBN/estimators/structure_score_based_estimator.py   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..7931be3 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -221,6 +221,9 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'get the number of CPU'
         cpu_count = multiprocessing.cpu_count()
 
+        'Save the prior edges, they are put back after the estimation'
+        prior_edges = self._sample_path.structure.edges
+
         'Remove all the edges from the structure'   
         self._sample_path.structure.clean_structure_edges()
 
@@ -241,6 +244,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
+        'Put the prior edges back'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..8f85e73 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -79,6 +79,9 @@ class StructureScoreBasedEstimator(StructureEstimator):
         the maximum number of process; if None it will be automatically set, default to None
         :type processes_number: int, optional
         """
+        'Save the prior edges, they are put back after the estimation'
+        prior_edges = self._sample_path.structure.edges
+
         'Save the true edges structure in tuples'
         true_edges = copy.deepcopy(self._sample_path.structure.edges)
         true_edges = set(map(tuple, true_edges))
@@ -130,6 +133,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
                                                             l_optimizer)
 
 
+        'Put the prior edges back'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
-- 
2.43.0


From 390dad2364b3252f240c5c9edd3a850e5d7649d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 11/35] fix: report the estimated edges missing in the prior
 net as spurious, not the opposite

---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..4561296 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -142,7 +142,7 @@ class StructureEstimator(object):
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return list(nx.difference(self._complete_graph, real_graph).edges)
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
-- 
2.43.0


From 23cbd73b579bf565c215ed8351a40880a28a6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 12/35] fix: forget after the search which edges were found
 untestable

---
 PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
index aeb67fc..1527331 100644
--- a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
+++ b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
@@ -62,6 +62,9 @@ class ConstraintBasedOptimizer(Optimizer):
             graph.add_edges([(possible_parent,self.node_id)])
 
         
+        'The tests mark here the edges that cannot be removed for lack of data: it must not last after this search'
+        removable_edges_matrix = self.structure_estimator._removable_edges_matrix.copy()
+
         u = other_nodes
         child_states_numb = self.structure_estimator._sample_path.structure.get_states_number(self.node_id)
         b = 0
@@ -84,4 +87,5 @@ class ConstraintBasedOptimizer(Optimizer):
                     parent_indx += 1
             b += 1
         self.structure_estimator._cache.clear()
+        self.structure_estimator._removable_edges_matrix = removable_edges_matrix
         return graph.edges
\ No newline at end of file
-- 
2.43.0


From fd73b67d0179a2b9e50b809fd84bd1d0c3227f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 13/35] fix: make an independence test independent of the tests
 made before it

---
 .../structure_constraint_based_estimator.py   | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 7931be3..72790b3 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -59,6 +59,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         self._chi_test_alfa = chi_test_alfa
         self._thumb_threshold = thumb_threshold
         self._cache = Cache()
+        self._cached_child = None
 
     def complete_test(self, test_parent: str, test_child: str, parent_set: typing.List, child_states_numb: int,
                       tot_vars_count: int, parent_indx, child_indx) -> bool:
@@ -79,6 +80,11 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         :return: True iff test_child and test_parent are independent given the sep_set parent_set. False otherwise
         :rtype: bool
         """
+        'The cache holds the cims of a single child'
+        if test_child != self._cached_child:
+            self._cache.clear()
+            self._cached_child = test_child
+
         p_set = parent_set[:]
         complete_info = parent_set[:]
         complete_info.append(test_child)
@@ -109,11 +115,15 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         del p_set[0]
         sofc1 = self._cache.find(set(p_set))
         if not sofc1:
-            g2.remove_node(test_parent)
-            g2.fast_init(test_child)
-            p2 = ParametersEstimator(self._sample_path.trajectories, g2)
-            p2.fast_init(test_child)
-            sofc1 = p2.compute_parameters_for_node(test_child)
+            bool_mask1 = np.isin(self._nodes, p_set + [test_child])
+            l1 = list(self._nodes[bool_mask1])
+            eds1 = list(itertools.product(p_set, [test_child]))
+            s1 = Structure(l1, self._nodes_indxs[bool_mask1], self._nodes_vals[bool_mask1], eds1, tot_vars_count)
+            g1 = NetworkGraph(s1)
+            g1.fast_init(test_child)
+            p1 = ParametersEstimator(self._sample_path.trajectories, g1)
+            p1.fast_init(test_child)
+            sofc1 = p1.compute_parameters_for_node(test_child)
             self._cache.put(set(p_set), sofc1)
         thumb_value = 0.0
         if child_states_numb > 2:
-- 
2.43.0


From 0b7823cfbe85316fd58a1de43a4b499f6addae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 14/35] fix: accept trajectories whose time column is not
 called Time

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..ba614db 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -113,7 +113,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, df_samples_list[0].columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
-- 
2.43.0


From 07d37d509e57ce66e6e09aaea30d782e49ac88f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/35] fix: never name a shifted column like another column

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index ba614db..a42c47e 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -106,7 +106,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in df_samples_list[0].columns for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From cec4e2534574647251ce197d3ee1a3bf68125ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 16/35] fix: number the variables by their position, not by the
 index of the imported frame

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..74dc7a6 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From f05b2fbf88347676a105bab77e70e10afeaabef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 17/35] fix: do not refuse a valid density because of floating
 point rounding

---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..30ca572 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if not np.isclose(n_edges, round(n_edges), rtol = 0, atol = 1e-9):
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = int(round(n_edges))
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From 4fffe8a3d362795d2cab3f352c308bb4ff903f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 18/35] fix: look a node label up by the dataset index also
 after a removal

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index eb3edda..6980a75 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -71,7 +71,7 @@ class Structure(object):
         :return: the node label
         :rtype: string
         """
-        return self._nodes_labels_list[node_indx]
+        return self._nodes_labels_list[np.flatnonzero(np.asarray(self._nodes_indexes_arr) == node_indx)[0]]
 
     def clean_structure_edges(self):
         self._edges_list = list()
-- 
2.43.0


From a6d036e3f0f1f1f7de0ce5955d2ae8d7a8c5f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 19/35] fix: refuse an importer that has not imported its data
 yet

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 74dc7a6..2efdeda 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -39,6 +39,8 @@ class SamplePath(object):
         if isinstance(self._importer._concatenated_samples, np.ndarray) and\
             self._importer._concatenated_samples.size == 0:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
+        if isinstance(self._importer._concatenated_samples, list) and not self._importer._concatenated_samples:
+                raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = None
         self._structure = None
         self._total_variables_count = None
-- 
2.43.0


From 4dfeba93dc977e8e7170067d5d37bf968883d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 20/35] fix: let a transition that never happened not disable
 the chi-square test

---
 .../estimators/structure_constraint_based_estimator.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 72790b3..fbd75af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -175,8 +175,9 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
-                         (M1_no_diag[val] + M2_no_diag[val]))
+            'the cells without observations, whose term is 0/0, contribute nothing'
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+                            (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
         return True
-- 
2.43.0


From 600484710868207b5c484223237bda6036240910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 21/35] fix: build a trajectory generator also from an imported
 network without edges

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index c113477..ba47d1b 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -35,12 +35,14 @@ class TrajectoryGenerator(object):
 
         self._vnames = self._importer._df_variables.iloc[:, 0].to_list() if importer is not None else variables.iloc[:, 0].to_list()
  
+        structure = self._importer._df_structure if importer is not None else dyn_str
+
         self._parents = {}
         for v in self._vnames:
-            if importer is not None:
-                self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
+            if structure.empty:
+                self._parents[v] = []
             else:
-                self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+                self._parents[v] = structure.where(structure["To"] == v).dropna()["From"].tolist()
         
         self._cims = {}
         if importer is not None:
-- 
2.43.0


From 5dd0ac2ee6bf310aaefb4f61bba3f3c32065e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/35] fix: find the imported intensities by the names and
 states in their keys

---
 .../structure_graph/trajectory_generator.py   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index ba47d1b..cf8bcc7 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -42,19 +42,26 @@ class TrajectoryGenerator(object):
             if structure.empty:
                 self._parents[v] = []
             else:
-                self._parents[v] = structure.where(structure["To"] == v).dropna()["From"].tolist()
+                # variables order, as in the columns of p_combs
+                self._parents[v] = sorted(structure.where(structure["To"] == v).dropna()["From"].tolist(), key = self._vnames.index)
         
         self._cims = {}
         if importer is not None:
             sampled_cims = self._importer._cims
         
             for v in sampled_cims.keys():
-                p_combs = []
-                v_cims = []
-                for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
-                    cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
-                    v_cims.append(ConditionalIntensityMatrix(cim = cim))
+                # every key names the parents and their states: "A=0,B=1"
+                names = "|".join(re.escape(p) for p in sorted(self._parents[v], key = len, reverse = True))
+                cims_by_comb = {}
+                for key in sampled_cims[v].keys():
+                    states = dict(re.findall(r"(?:^|,)(" + names + r")=(\d+)(?=,|$)", key)) if names else {}
+                    comb = tuple(int(states[p]) for p in self._parents[v])
+                    cim = pd.DataFrame(sampled_cims[v][key]).to_numpy()
+                    cims_by_comb[comb] = ConditionalIntensityMatrix(cim = cim)
+
+                # same order as in NetworkGraph: the state of the first parent changes first
+                p_combs = sorted(cims_by_comb, key = lambda comb: comb[::-1])
+                v_cims = [cims_by_comb[comb] for comb in p_combs]
 
                 if importer is not None:
                     sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables["Name"] == p)["Value"] for p in self._parents[v]], 
-- 
2.43.0


From c8b2232671e222f773d10157707eb504dfbcb12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 23/35] fix: accept imported intensities that are whole numbers

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index cf8bcc7..f8b4403 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -56,7 +56,7 @@ class TrajectoryGenerator(object):
                 for key in sampled_cims[v].keys():
                     states = dict(re.findall(r"(?:^|,)(" + names + r")=(\d+)(?=,|$)", key)) if names else {}
                     comb = tuple(int(states[p]) for p in self._parents[v])
-                    cim = pd.DataFrame(sampled_cims[v][key]).to_numpy()
+                    cim = pd.DataFrame(sampled_cims[v][key]).to_numpy(dtype = float)
                     cims_by_comb[comb] = ConditionalIntensityMatrix(cim = cim)
 
                 # same order as in NetworkGraph: the state of the first parent changes first
-- 
2.43.0


From 1dbd3e7f1e6c80d8c4be1421d4c25004cbe855bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/35] fix: name the parents of the exported matrices in
 variable order, however the edges are listed

---
 PyCTBN/PyCTBN/utility/json_exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 43b11da..f9a3ac5 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -51,7 +51,9 @@ class JsonExporter(AbstractExporter):
 
         for i, l in enumerate(self._variables.iloc[:, 0].to_list()):
             json_cims[l] = {}
-            parents = self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist()
+            # variables order, as in the columns of p_combs
+            parents = sorted(self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist(), 
+                key = self._variables.iloc[:, 0].to_list().index)
             for j, comb in enumerate(self._dyn_cims[l].p_combs):
                 comb_key = ""
                 if len(parents) != 0:
-- 
2.43.0


From 06d4b2b3857f9bacbcf6fc1d5f1080ec0b6bf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 25/35] fix: drop only the last row of a trajectory, also when
 rows share an index label

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index a42c47e..e764287 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 502df9549407be940bd767beb23d16d579e18f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 26/35] fix: compare structures by contents, whatever the order
 of nodes and edges

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index 6980a75..1c8b205 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -118,10 +118,9 @@ class Structure(object):
     def __eq__(self, other):
         """Overrides the default implementation"""
         if isinstance(other, Structure):
-            return set(self._nodes_labels_list) == set(other._nodes_labels_list) and \
-                   np.array_equal(self._nodes_vals_arr, other._nodes_vals_arr) and \
-                   np.array_equal(self._nodes_indexes_arr, other._nodes_indexes_arr) and \
-                   self._edges_list == other._edges_list
+            return dict(zip(self._nodes_labels_list, zip(self._nodes_indexes_arr, self._nodes_vals_arr))) == \
+                   dict(zip(other._nodes_labels_list, zip(other._nodes_indexes_arr, other._nodes_vals_arr))) and \
+                   set(map(tuple, self._edges_list)) == set(map(tuple, other._edges_list))
 
         return False
 
-- 
2.43.0


From 171086794ec1575a194f7ca5a69e2c7f4ba66acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 27/35] fix: keep imported edges as tuples, so that they can be
 looked up and removed

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 2efdeda..740207d 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -68,7 +68,7 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(self._importer.structure.to_records(index=False))
+            edges = list(self._importer.structure.itertuples(index=False, name=None))
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
-- 
2.43.0


From b789729a579b0ac11dcd138aaf96738323552ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 28/35] fix: draw the estimated structure on explicit axes
 (recent matplotlib)

---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 4561296..e989e1c 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -166,8 +166,8 @@ class StructureEstimator(object):
             #"edge_color":edges_colors,
         }
 
-        nx.draw(self._complete_graph, pos, **options)
         ax = plt.gca()
+        nx.draw(self._complete_graph, pos, ax=ax, **options)
         ax.margins(0.20)
         plt.axis("off")
         plt.savefig(file_path)
-- 
2.43.0


From de127a612c378f6530e010bbf02151d2378bc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 29/35] fix: report the position of a node in the graph also
 after a removal

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index a6dc756..a671e88 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -253,7 +253,7 @@ class NetworkGraph(object):
         return nx.get_node_attributes(self._graph, 'indx')[node_id]
 
     def get_positional_node_indx(self, node_id) -> int:
-        return self._graph.nodes[node_id]['pos_indx']
+        return self._graph_struct.get_positional_node_indx(node_id)
 
     @property
     def nodes(self) -> typing.List:
-- 
2.43.0


From ee54d908abdf85fc119e82995f3ff2da5600e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 30/35] fix: read JSON data whatever the order of the keys of
 its objects

---
 PyCTBN/PyCTBN/utility/json_importer.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 781be4d..9f150cf 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -88,7 +88,8 @@ class JsonImporter(AbstractImporter):
         :return: Dataframe containg the starting node a ending node of every arc of the network
         :rtype: pandas.Dataframe
         """
-        return self.one_level_normalizing(raw_data, self._array_indx, self._structure_label)
+        return self.columns_first(self.one_level_normalizing(raw_data, self._array_indx, self._structure_label),
+                                  ["From", "To"])
 
     def import_variables(self, raw_data: typing.List) -> pd.DataFrame:
         """Imports the data in ``raw_data`` at the key ``_variables_label``.
@@ -98,7 +99,8 @@ class JsonImporter(AbstractImporter):
         :return: Datframe containg the variables simbolic labels and their cardinalities
         :rtype: pandas.Dataframe
         """
-        return self.one_level_normalizing(raw_data, self._array_indx, self._variables_label)
+        return self.columns_first(self.one_level_normalizing(raw_data, self._array_indx, self._variables_label),
+                                  [self._variables_key])
 
     def read_json_file(self) -> typing.List:
         """Reads the JSON file in the path self.filePath.
@@ -145,7 +147,23 @@ class JsonImporter(AbstractImporter):
         dataframe = pd.DataFrame
         smps = raw_data[indx][trajectories_key]
         df_samples_list = [dataframe(sample) for sample in smps]
-        return df_samples_list
+        for sample in df_samples_list:
+            if self._time_key not in sample.columns:
+                raise KeyError(self._time_key)
+        return [self.columns_first(sample, [self._time_key]) for sample in df_samples_list]
+
+    def columns_first(self, frame: pd.DataFrame, names: typing.List) -> pd.DataFrame:
+        """Moves the columns ``names`` to the front, since the keys of a json object have no order.
+
+        :param frame: the dataframe to rearrange
+        :type frame: pandas.Dataframe
+        :param names: the columns to be moved, those that are not in ``frame`` are ignored
+        :type names: List
+        :return: the rearranged dataframe
+        :rtype: pandas.Dataframe
+        """
+        first = [name for name in names if name in frame.columns]
+        return frame[first + [name for name in frame.columns if name not in first]]
 
     def build_sorter(self, sample_frame: pd.DataFrame) -> typing.List:
         """Implements the abstract method build_sorter of the :class:`AbstractImporter` for this dataset.
-- 
2.43.0


From f26cb1cd10cc2de97497d11f7a375d51375bb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 31/35] fix: take the columns of an imported intensity matrix
 in the order of the states

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index f8b4403..986fdeb 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -56,7 +56,9 @@ class TrajectoryGenerator(object):
                 for key in sampled_cims[v].keys():
                     states = dict(re.findall(r"(?:^|,)(" + names + r")=(\d+)(?=,|$)", key)) if names else {}
                     comb = tuple(int(states[p]) for p in self._parents[v])
-                    cim = pd.DataFrame(sampled_cims[v][key]).to_numpy(dtype = float)
+                    cim = pd.DataFrame(sampled_cims[v][key])
+                    # the keys of a json object, here the states, have no order
+                    cim = cim[sorted(cim.columns, key = int)].to_numpy(dtype = float)
                     cims_by_comb[comb] = ConditionalIntensityMatrix(cim = cim)
 
                 # same order as in NetworkGraph: the state of the first parent changes first
-- 
2.43.0


From 18237036b3e30a15e8a511ecd152ab2473e2cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 32/35] fix: put the prior edges back also when the learning of
 the structure fails or is interrupted

---
 .../structure_constraint_based_estimator.py   | 17 +++++++-------
 .../PyCTBN/estimators/structure_estimator.py  | 23 +++++++++++++++++++
 .../structure_score_based_estimator.py        | 10 ++------
 .../optimizers/constraint_based_optimizer.py  |  4 ----
 4 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index fbd75af..e6c119f 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -18,7 +18,7 @@ from ..utility.cache import Cache
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keeps_prior_edges
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from ..optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
@@ -210,9 +210,15 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                             node_id = var_id,
                                                             structure_estimator = self,
                                                             tot_vars_count = tot_vars_count)
-        return optimizer_obj.optimize_structure()
+        'The tests mark the edges that cannot be removed for lack of data: it must not last after the iteration'
+        removable_edges_matrix = self._removable_edges_matrix.copy()
+        try:
+            return optimizer_obj.optimize_structure()
+        finally:
+            self._removable_edges_matrix = removable_edges_matrix
 
     
+    @keeps_prior_edges
     def ctpc_algorithm(self, disable_multiprocessing:bool= False, processes_number:int= None):
         """Compute the CTPC algorithm over the entire net.
 
@@ -232,9 +238,6 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'get the number of CPU'
         cpu_count = multiprocessing.cpu_count()
 
-        'Save the prior edges, they are put back after the estimation'
-        prior_edges = self._sample_path.structure.edges
-
         'Remove all the edges from the structure'   
         self._sample_path.structure.clean_structure_edges()
 
@@ -255,10 +258,6 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
-        'Put the prior edges back'
-        for edge in prior_edges:
-            self._sample_path.structure.add_edge(edge)
-
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index e989e1c..cfc0cfd 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -2,6 +2,7 @@
 # License: MIT License
 
 
+import functools
 import itertools
 import json
 import typing
@@ -23,6 +24,28 @@ from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 
 
+def keeps_prior_edges(estimate):
+    """Decorator of the methods that estimate the structure after the removal of the prior edges: puts them back
+    at the end, also when the estimation fails or is interrupted.
+
+    :param estimate: the method to be decorated
+    :type estimate: Callable
+    :return: the decorated method
+    :rtype: Callable
+    """
+    @functools.wraps(estimate)
+    def wrapper(self, *args, **kwargs):
+        structure = self._sample_path.structure
+        prior_edges = structure.edges
+        try:
+            return estimate(self, *args, **kwargs)
+        finally:
+            structure.clean_structure_edges()
+            for edge in prior_edges:
+                structure.add_edge(edge)
+    return wrapper
+
+
 class StructureEstimator(object):
     """Has the task of estimating the network structure given the trajectories in ``samplepath``.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 8f85e73..70d0306 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -19,7 +19,7 @@ import copy
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keeps_prior_edges
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from .fam_score_calculator import FamScoreCalculator
@@ -55,6 +55,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         self.alpha_xu=alpha_xu
 
 
+    @keeps_prior_edges
     def estimate_structure(self, max_parents:int = None, iterations_number:int= 40,
                          patience:int = None, tabu_length:int = None, tabu_rules_duration:int = None,
                          optimizer: str = 'tabu', disable_multiprocessing:bool= False, processes_number:int= None):
@@ -79,9 +80,6 @@ class StructureScoreBasedEstimator(StructureEstimator):
         the maximum number of process; if None it will be automatically set, default to None
         :type processes_number: int, optional
         """
-        'Save the prior edges, they are put back after the estimation'
-        prior_edges = self._sample_path.structure.edges
-
         'Save the true edges structure in tuples'
         true_edges = copy.deepcopy(self._sample_path.structure.edges)
         true_edges = set(map(tuple, true_edges))
@@ -133,10 +131,6 @@ class StructureScoreBasedEstimator(StructureEstimator):
                                                             l_optimizer)
 
 
-        'Put the prior edges back'
-        for edge in prior_edges:
-            self._sample_path.structure.add_edge(edge)
-
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
diff --git a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
index 1527331..aeb67fc 100644
--- a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
+++ b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
@@ -62,9 +62,6 @@ class ConstraintBasedOptimizer(Optimizer):
             graph.add_edges([(possible_parent,self.node_id)])
 
         
-        'The tests mark here the edges that cannot be removed for lack of data: it must not last after this search'
-        removable_edges_matrix = self.structure_estimator._removable_edges_matrix.copy()
-
         u = other_nodes
         child_states_numb = self.structure_estimator._sample_path.structure.get_states_number(self.node_id)
         b = 0
@@ -87,5 +84,4 @@ class ConstraintBasedOptimizer(Optimizer):
                     parent_indx += 1
             b += 1
         self.structure_estimator._cache.clear()
-        self.structure_estimator._removable_edges_matrix = removable_edges_matrix
         return graph.edges
\ No newline at end of file
-- 
2.43.0


From 4d2be811e68599c305ee78d12a14efb79e9f41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 33/35] fix: give a structure its own copy of the
 cardinalities, not the caller's frame

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 740207d..24701b4 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -64,7 +64,7 @@ class SamplePath(object):
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
         indxs = np.arange(len(labels))
-        vals = self._importer.variables.iloc[:, 1].to_numpy()
+        vals = self._importer.variables.iloc[:, 1].to_numpy(copy=True)
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-- 
2.43.0


From 96b97f4dcca5c7c8c782e68a19c46da461dcdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 34/35] fix: give a structure its own lists of variables and
 edges

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index 1c8b205..ac33cf8 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -26,10 +26,10 @@ class Structure(object):
                  edges_list: ty.List, total_variables_number: int):
         """Constructor Method
         """
-        self._nodes_labels_list = nodes_labels_list
+        self._nodes_labels_list = list(nodes_labels_list)
         self._nodes_indexes_arr = nodes_indexes_arr
         self._nodes_vals_arr = nodes_vals_arr
-        self._edges_list = edges_list
+        self._edges_list = list(edges_list)
         self._total_variables_number = total_variables_number
 
     def remove_node(self, node_id: str) -> None:
-- 
2.43.0


From df09d37bbb37b373d5884b45bfc09d129728796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:12 +0000
Subject: [PATCH 35/35] fix: import sampled matrices whatever the order of the
 keys of their rows

---
 PyCTBN/PyCTBN/utility/json_importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 9f150cf..40b167d 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -199,7 +199,9 @@ class JsonImporter(AbstractImporter):
             sampled_cims_list = []
             cims_for_all_vars[var] = sampled_cims_list
             for p_comb in raw_data[indx][cims_key][var]:
-                cims_for_all_vars[var].append(pd.DataFrame(raw_data[indx][cims_key][var][p_comb]).to_numpy())
+                cim = pd.DataFrame(raw_data[indx][cims_key][var][p_comb])
+                # the keys of a json object, here the states, have no order
+                cims_for_all_vars[var].append(cim[sorted(cim.columns, key=int)].to_numpy())
         return cims_for_all_vars
 
 
-- 
2.43.0

