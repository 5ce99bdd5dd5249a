From eaf0b6b807fc7589457d8bb16d8999e47497464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 01/43] fix: cost cover uses the original cost of the new best
 solution

---
 src/cost_cover.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..25b1b47 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 #include "pctsp/cost_cover.hh"
 #include "pctsp/data_structures.hh"
 #include "pctsp/logger.hh"
@@ -77,7 +79,12 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 }
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
-    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetUpperbound(scip);
+    // the cost of the new best solution in the original (unscaled) problem: when the event
+    // is triggered the upper bound of SCIP is not guaranteed to be updated and it is given
+    // in the objective space of the transformed problem
+    CostNumberType cost_upper_bound = (CostNumberType) std::lround(
+        SCIPgetSolOrigObj(scip, SCIPeventGetSol(event))
+    );
     unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
     increaseNumConssAdded(nconss);
     return SCIP_OKAY;
-- 
2.43.0


From 473eb67cd4c6d8de0796647ed3f6f3cc6b88878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 02/43] fix: summary stats report bounds in the original
 objective space

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..bc914af 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -100,8 +100,8 @@ SummaryStats getSummaryStatsFromSCIP(SCIP* scip) {
 
     SummaryStats summary = {
         SCIPgetStatus(scip),
-        SCIPgetLowerbound(scip),
-        SCIPgetUpperbound(scip),
+        SCIPgetDualbound(scip),
+        SCIPgetPrimalbound(scip),
         num_cost_cover_disjoint_paths,
         num_cost_cover_shortest_paths,
         nconss_presolve_disjoint_paths,
-- 
2.43.0


From a03c2338519a87015e501e499dce61c57a7c0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 03/43] fix: tailing off node with an integral LP solution is
 infeasible, not an error

---
 src/subtour_elimination.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..ee8f002 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -217,7 +217,10 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
             && (SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_UNBOUNDEDRAY || SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_OPTIMAL)) {
             // resolve the infeasibility by branching
             BOOST_LOG_TRIVIAL(debug)<< "BRANCHING in enfolp: Node " << std::to_string(node_id) << " found to be tailing off. Gap is " << std::to_string(gap) << ". Threshold is " << std::to_string(sec_lp_gap_improvement_threshold) << std::endl;
-            SCIPbranchLP(scip, result);
+            *result = SCIP_DIDNOTRUN;
+            SCIP_CALL(SCIPbranchLP(scip, result));
+            // an integral LP solution has no branching candidates
+            if (*result == SCIP_DIDNOTRUN) *result = SCIP_INFEASIBLE;
         }
         else {
             // resolve the infeasibility by adding a subtour elimination constraint
-- 
2.43.0


From 8d2ac68bf11ae5b595be8375e072baed27c1dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 04/43] fix: read the summary stats fields in the order of the
 struct

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 67301117db8196b586cd00173d9cf605d8d02a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 05/43] fix: pass step size and path depth limit to path
 extension in the right order

---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From 514e0e60fbd3f506ff94d1d8f4b7c7b3f56fbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 06/43] fix: non-singular components are looked up by their
 component id

---
 include/pctsp/data_structures.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..0ac7871 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
@@ -108,8 +108,8 @@ std::vector<std::vector<typename TGraph::vertex_descriptor>> getNonSingularConne
     int& n_components,
     std::vector<int>& vertex_component_ids
 ) {
-    auto component_vectors = getConnectedComponentVectors(graph, n_components, vertex_component_ids);
-    return getNonSingularComponentVectors(component_vectors);
+    auto component_vectors = getConnectedComponentsVectors(graph, n_components, vertex_component_ids);
+    return getNonSingularConnectedComponentVectors(component_vectors);
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 93020bf6b4dfcbdacf35510e80b41108ac22eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 07/43] fix: renaming a vertex that is not in the graph no
 longer reads past the end of the bimap

---
 include/pctsp/exception.hh  | 2 ++
 include/pctsp/renaming.hh   | 6 ++++++
 src/subtour_elimination.cpp | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..fd91870 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -33,6 +33,8 @@ class VertexNotFoundException : public std::exception {
     std::string message;
 public:
     VertexNotFoundException(const std::string& vertex_str) : message(std::string("Vertex not found: ") + vertex_str) {}
+
+    const char* what() const throw() { return message.c_str(); }
 };
 
 class NoSelfLoopFoundException : EdgeNotFoundException {
diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index 0903fa3..cc5c7c3 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -2,6 +2,8 @@
 #define __PCTSP_RENAME__
 #include <boost/bimap.hpp>
 
+#include "exception.hh"
+
 // functions for renaming vertices and creating new graphs
 
 template<typename OldVertex, typename NewVertex>
@@ -60,12 +62,14 @@ std::vector<std::pair<NewVertex, NewVertex>> renameEdges(
 template<typename OldVertex, typename NewVertex>
 OldVertex getOldVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, NewVertex& new_vertex) {
     auto it = vertex_bimap.left.find(new_vertex);
+    if (it == vertex_bimap.left.end()) throw VertexNotFoundException(std::to_string(new_vertex));
     return (*it).second;
 }
 
 template<typename OldVertex, typename NewVertex>
 NewVertex getNewVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, OldVertex& old_vertex) {
     auto it = vertex_bimap.right.find(old_vertex);
+    if (it == vertex_bimap.right.end()) throw VertexNotFoundException(std::to_string(old_vertex));
     return (*it).second;
 }
 
@@ -169,6 +173,8 @@ void fillRenamedVertexMap(
 ) {
     for (const auto& [key, value] : old_prize_map) {
         OldVertex old = key;
+        // a vertex that is not the endpoint of an edge is not in the renamed graph
+        if (vertex_id_map.right.find(old) == vertex_id_map.right.end()) continue;
         NewVertex v = getNewVertex(vertex_id_map, old);
         new_prize_map[v] = value;
     }
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index ee8f002..e4a04b3 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -343,6 +343,9 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
             root_edge_vector.push_back(pair);
         }
     }
+    // the root is isolated in the support graph so there is no flow to separate
+    if (root_edge_vector.size() == 0) return SCIP_OKAY;
+
     // create mapping from input vertices to support vertices (they will be renamed)
     typedef boost::graph_traits<DirectedCapacityGraph>::vertex_descriptor SupportVertex;
     boost::bimap<SupportVertex, PCTSPvertex> lookup;
-- 
2.43.0


From 38523d1f9a58a05c6f3541a878fc3928c4156bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 08/43] fix: max-flow separation pairs each edge of the root
 component with its own capacity

---
 include/pctsp/subtour_elimination.hh | 3 +--
 src/subtour_elimination.cpp          | 7 +++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/pctsp/subtour_elimination.hh b/include/pctsp/subtour_elimination.hh
index 376e08f..a73d454 100644
--- a/include/pctsp/subtour_elimination.hh
+++ b/include/pctsp/subtour_elimination.hh
@@ -183,8 +183,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     SCIP_SOL* sol,
     SCIP_RESULT* result,
     std::set<PCTSPvertex>& root_component,
-    int& num_conss_added,
-    int freq
+    int& num_conss_added
 );
 
 void pushIntoRollingLpGapList(std::list<double>& rolling_gaps, double& gap, int& sec_max_tailing_off_iterations);
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index e4a04b3..9939319 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -337,10 +337,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // the root is isolated in the support graph so there is no flow to separate
@@ -357,7 +360,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From a6e3c8e0f9075cd1ec532e62a341116fcf1397b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 09/43] fix: path extension until prize feasible stops when the
 quota is reached

---
 include/pctsp/heuristic.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index b4ba7c5..2c243b4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -352,6 +352,7 @@ void pathExtensionUntilPrizeFeasible(
             auto external_path = extension_paths[index_of_smallest_loss];
             int last_index = (index_of_smallest_loss + step_size) % k;
             swapPathsInTour(tour, external_path, index_of_smallest_loss, last_index);
+            prize = totalPrizeOfTour(prize_map, tour);
         }
     }
 }
-- 
2.43.0


From ead4abce96bcb2d85e41e73ea97baa5151ca72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 10/43] fix: do not double the distance of an unreachable
 vertex in the shortest path cost cover

---
 include/pctsp/cost_cover.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..4e1d894 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -1,6 +1,7 @@
 #ifndef __PCTSP_COST_COVER__
 #define __PCTSP_COST_COVER__
 
+#include <limits>
 #include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
@@ -152,8 +153,9 @@ SCIP_RETCODE includeShortestPathCostCover(
     );
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
+    // (the distance of an unreachable vertex is the maximum integer and cannot be doubled)
     for (int i = 0; i < distances.size(); i++) {
-        distances[i] = distances[i] * 2;
+        if (distances[i] < std::numeric_limits<int>::max()) distances[i] = distances[i] * 2;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From 53fe73025f83fe957d3039391fbca4b8b9838da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 11/43] fix: close the SCIP log file after writing the
 statistics

---
 src/algorithms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index bc914af..1d316b8 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -225,6 +225,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
     // write the logs to txt
     FILE* log_file = fopen(scip_logs_txt.c_str(), "w");
     SCIPprintStatistics(scip, log_file);
+    if (log_file != NULL) fclose(log_file);
 
     // write the bounds CSV: NOTE this file can get very large
     // std::vector<Bounds> bounds_vector = bounds_handler->getBoundsVector();
-- 
2.43.0


From aedbee502ab66c6091d0fbce161a215227ac67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 12/43] fix: only create the cycle cover constraint handler if
 it is included

---
 src/algorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 1d316b8..c57e06c 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -179,8 +179,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
         }
     }
     // add cycle cover constraint
-    auto cycle_cover_conshdlr = new CycleCoverConshdlr(scip);
     if (cycle_cover) {
+        auto cycle_cover_conshdlr = new CycleCoverConshdlr(scip);
         SCIPincludeObjConshdlr(scip, cycle_cover_conshdlr, true);
         SCIP_CONS* cycle_cover_cons;
         createBasicCycleCoverCons(scip, &cycle_cover_cons);
-- 
2.43.0


From 0d55592b4b7e2687ea6954563defcaf9b6c551a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 13/43] fix: initialise the data of the subtour and cycle cover
 constraints

---
 src/cycle_cover.cpp         | 2 +-
 src/subtour_elimination.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cycle_cover.cpp b/src/cycle_cover.cpp
index 5ae4ae7..c070ca1 100644
--- a/src/cycle_cover.cpp
+++ b/src/cycle_cover.cpp
@@ -38,7 +38,7 @@ SCIP_RETCODE createCycleCoverCons(
     SCIP_Bool removable
 ) {
     SCIP_CONSHDLR* conshdlr;
-    SCIP_CONSDATA* consdata;
+    SCIP_CONSDATA* consdata = NULL;
 
     /* find the subtour constraint handler */
     conshdlr = SCIPfindConshdlr(scip, CYCLE_COVER_NAME.c_str());
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 9939319..b11478b 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -125,7 +125,7 @@ SCIP_RETCODE PCTSPcreateConsSubtour(
     SCIP_Bool             removable           /**< should the constraint be removed from the LP due to aging or cleanup? */
 ) {
     SCIP_CONSHDLR* conshdlr;
-    SCIP_CONSDATA* consdata;
+    SCIP_CONSDATA* consdata = NULL;
 
     /* find the subtour constraint handler */
     conshdlr = SCIPfindConshdlr(scip, SEC_CONSHDLR_NAME.c_str());
-- 
2.43.0


From 2fb02ea87c62cfd118a2c1ae73172c8352580d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 14/43] fix: cost cover never excludes the root vertex

---
 src/cost_cover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index 25b1b47..43ba5e5 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -99,6 +99,9 @@ unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNu
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
     unsigned int num_conss_added = 0;
     for (auto& vertex: violated_vertices) {
+        // the root is in every tour, so it is never covered: the distance given for the root
+        // is not the cost of a tour (Suurballe's algorithm goes there and back)
+        if (vertex == root_vertex) continue;
         num_conss_added ++;
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
         addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map);
-- 
2.43.0


From 83f09caaccdfb70d466349f1669051678438dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 15/43] fix: extension and collapse uses the tour extended
 until it is prize feasible

---
 pctsp/lab/run_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..a5bdc48 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -101,7 +101,7 @@ def run_heuristic(
         AlgorithmName.suurballes_extension_collapse,
     ]:
         # run extension with unitary gain then collapse
-        extension_until_prize_feasible(graph, small_tour, quota)
+        small_tour = extension_until_prize_feasible(graph, small_tour, quota)
         tour = extension_unitary_gain_collapse(
             graph,
             small_tour,
-- 
2.43.0


From e871fe19dbdb2dc162d29a19f953e58f27abd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 16/43] fix: heuristic vials collapse with shortest paths if
 their parameters say so

---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index a5bdc48..5e66a66 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -183,6 +183,7 @@ def run_algorithm(
             vial.data_config.quota,
             vial.data_config.root,
             vial.model_params.algorithm,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
-- 
2.43.0


From dd93d645faad56601780b5fce15cf13d7de95441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 17/43] fix: a damaged result file does not stop the search for
 infeasible vials

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..baf042e 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From 8638f297d1bf5a5a128b7e549951348d5adbf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 18/43] fix: random tour is made from the disjoint paths that
 passed the size test

---
 pctsp/algorithms/heuristic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..11384d6 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -189,15 +189,14 @@ def random_tour_from_disjoint_paths_map(
         error_message += "(excluding between the root and itself)"
         raise ValueError(error_message)
 
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+    raise ValueError("No vertex disjoint paths with enough vertices for a cycle")
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From a9f8a728bbcf76b1239e4c9d28951c7fd9c89569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 19/43] fix: the initial tour from disjoint paths visits no
 vertex twice

---
 pctsp/algorithms/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 11384d6..15f120e 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,7 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From 0493515b02c2895016efc814c52e4283fb42a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 20/43] fix: traverse deep shortest path trees without
 recursion

---
 pctsp/suurballe/suurballe.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index d6f086d..674a95f 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -111,19 +111,13 @@ def preorder(T: nx.DiGraph, source: Vertex) -> VertexList:
         Assigns nodes with the attribute "pre".
     """
     nx.set_node_attributes(T, sys.maxsize, name="pre")
-    order: VertexList = []
-    preorder_recursive(T, source, order)
+    # NOTE not recursive because the tree may be deeper than the recursion limit
+    order: VertexList = list(nx.dfs_preorder_nodes(T, source))
+    for i, vertex in enumerate(order):
+        T.nodes[vertex]["pre"] = i
     return order
 
 
-def preorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call in preorder traversal"""
-    T.nodes[vertex]["pre"] = len(order)
-    order.append(vertex)
-    for successor in T.successors(vertex):
-        preorder_recursive(T, successor, order)
-
-
 def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
     """Postorder traversal of the tree.
 
@@ -138,19 +132,13 @@ def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
         Assigns nodes with the attribute "post".
     """
     nx.set_node_attributes(T, sys.maxsize, name="post")
-    order: VertexList = []
-    postorder_recursive(T, source, order)
+    # NOTE not recursive because the tree may be deeper than the recursion limit
+    order: VertexList = list(nx.dfs_postorder_nodes(T, source))
+    for i, vertex in enumerate(order):
+        T.nodes[vertex]["post"] = i
     return order
 
 
-def postorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call for postorder traversal"""
-    for successor in T.successors(vertex):
-        postorder_recursive(T, successor, order)
-    T.nodes[vertex]["post"] = len(order)
-    order.append(vertex)
-
-
 def adjust_edge_cost(
     original_cost_of_edge: int, distance_from_s_to_u: int, distance_from_s_to_v: int
 ) -> int:
-- 
2.43.0


From c15f627a99472b8b3427dc77682aafbc4d194f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 21/43] fix: remove long chains of leaves without recursion

---
 pctsp/preprocessing/preprocessing.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pctsp/preprocessing/preprocessing.py b/pctsp/preprocessing/preprocessing.py
index dd30dee..368309a 100644
--- a/pctsp/preprocessing/preprocessing.py
+++ b/pctsp/preprocessing/preprocessing.py
@@ -115,16 +115,17 @@ def remove_leaves(graph: nx.Graph) -> nx.Graph:
     Notes:
         Self loops are not considered
     """
-    leaf_vertices = set()
-    leaf_vertex_found = False
-    for vertex in graph:
-        # remove self loops and isolated vertices (not including self loops)
-        if degree_without_self_loops(graph, vertex) <= 1:
-            leaf_vertices.add(vertex)
-            leaf_vertex_found = True
-    subgraph = graph.subgraph(set(graph.nodes()) - leaf_vertices)
-    if leaf_vertex_found:
-        return remove_leaves(subgraph)
+    # NOTE a loop because the number of rounds may be larger than the recursion limit
+    subgraph = graph
+    leaf_vertex_found = True
+    while leaf_vertex_found:
+        leaf_vertices = set()
+        for vertex in subgraph:
+            # remove self loops and isolated vertices (not including self loops)
+            if degree_without_self_loops(subgraph, vertex) <= 1:
+                leaf_vertices.add(vertex)
+        leaf_vertex_found = len(leaf_vertices) > 0
+        subgraph = graph.subgraph(set(subgraph.nodes()) - leaf_vertices)
     return subgraph
 
 
-- 
2.43.0


From bf6278112ee74cfe12eaa719958766a09b4b86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 22/43] fix: Suurballe's algorithm processes every incident
 edge of a labelled vertex

---
 pctsp/suurballe/suurballe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index 674a95f..99f91b9 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -290,7 +290,8 @@ def suurballe_shortest_vertex_disjoint_paths(
             T.labeled[v] = True  # make v labeled
 
             # process edges incident to v
-            for u, w in T.edges_incident_to_vertex[v]:
+            # NOTE a copy because processing removes the edge from the list
+            for u, w in T.edges_incident_to_vertex[v].copy():
                 process(T, u, w, v)
 
             # denoted x in the paper
@@ -414,7 +415,8 @@ def scan_parent(T, x, v):
     v : node
         Node which causes edge (u,w) to be processed.
     """
-    for u, w in T.edges_incident_to_vertex[x]:
+    # NOTE a copy because processing removes the edge from the list
+    for u, w in T.edges_incident_to_vertex[x].copy():
         # u and w are in different subtrees so process edge
         if u != x and is_ancestor(T, v, u):
             process(T, u, w, v)
-- 
2.43.0


From 8e7b0e030ae18500fa4e7738c2df9caee144bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 23/43] fix: self loops never add to the objective of the
 solver

---
 src/algorithms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index c57e06c..206dfb5 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -280,8 +280,9 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
     // add self loops to graph - we assume the input graph is simple
     if (hasSelfLoopsOnAllVertices(graph) == false) {
         addSelfLoopsToGraph(graph);
-        assignZeroCostToSelfLoops(graph, cost_map);
     }
+    // a self loop only represents visiting its vertex, so it never has a cost
+    assignZeroCostToSelfLoops(graph, cost_map);
 
     std::map<PCTSPedge, SCIP_VAR*> edge_variable_map;
     std::map<PCTSPedge, PrizeNumberType> weight_map;
-- 
2.43.0


From 4ac2337c3c8c4a92a5b1301f4680ff1d4637efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 24/43] fix: dataset stats keep the biggest vertex id for
 reading the disjoint path costs

---
 pctsp/apps/dataset_app.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..f3d62f2 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -155,7 +154,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         )
         if prize > biggest_prize:
             biggest_prize = prize
-            biggest_vertex = u
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From 211c9279e46da0a845219a3099b6f7de5685f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 25/43] fix: slurm time limit is capped at two days

---
 pctsp/apps/main_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..4d78f7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -278,7 +278,7 @@ def slurm(
     output_filename = f"joboutput_{experiment_name.value}_%j.out"
     error_filename = f"joboutput_{experiment_name.value}_%j.err"
 
-    two_days_in_hours = 2 * 24 * 3600
+    two_days_in_hours = 2 * 24
     expected_cpu_time = math.ceil(float(batch_size) * (time_limit / 3600.0))
     slurm_time_limit_hours = min(expected_cpu_time + 1, two_days_in_hours)
 
-- 
2.43.0


From deed733932df3f1608b907c0a710ac06cb958d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 26/43] fix: only replace branching strategies in their own
 column

---
 pctsp/apps/tables_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index b7fa05c..9d92e5d 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -185,7 +185,7 @@ def pretty_dataframe(df: pd.DataFrame, long: bool = False) -> pd.DataFrame:
         4: "Default",
     }
     if "branching_strategy" in df:
-        df = df.replace(branching_replacements)
+        df = df.replace({"branching_strategy": branching_replacements})
     if "branching_strategy" in df.index.names:
         df = df.rename(index=branching_replacements, level=col)
 
-- 
2.43.0


From 3a479ca6f639ea0cb60e128d34c6994d9ef3934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 27/43] fix: pretty column names of multi-level columns match
 their columns

---
 pctsp/apps/tables_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index 9d92e5d..adf3e44 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -201,7 +201,7 @@ def pretty_dataframe(df: pd.DataFrame, long: bool = False) -> pd.DataFrame:
                 pass
             else:
                 new_cols = list(
-                    map(make_column_name_pretty, df.columns.get_level_values(level))
+                    map(make_column_name_pretty, df.columns.levels[level])
                 )
                 df.columns = df.columns.set_levels(
                     new_cols, level=level, verify_integrity=False
-- 
2.43.0


From 76de7574885bf3786437bccca1e74c2d018b8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 28/43] fix: getting the same logger twice does not log
 messages twice

---
 pctsp/utils/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pctsp/utils/utils.py b/pctsp/utils/utils.py
index b15071f..0d4e1c7 100644
--- a/pctsp/utils/utils.py
+++ b/pctsp/utils/utils.py
@@ -11,6 +11,12 @@ def get_pctsp_logger(name: str, level: int = logging.INFO) -> logging.Logger:
     logger = logging.getLogger(name)
     logger.setLevel(level)
 
+    # a logger that was created before already has a handler
+    if logger.handlers:
+        for handler in logger.handlers:
+            handler.setLevel(level)
+        return logger
+
     # create console handler and set level to debug
     console_handler = logging.StreamHandler()
     console_handler.setLevel(level)
-- 
2.43.0


From 766a2dff012843bbdd798f69f508ccea23d88d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 29/43] fix: edges are drawn as separate lines

---
 pctsp/plot/plot_edges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pctsp/plot/plot_edges.py b/pctsp/plot/plot_edges.py
index 829d793..5410591 100644
--- a/pctsp/plot/plot_edges.py
+++ b/pctsp/plot/plot_edges.py
@@ -19,10 +19,11 @@ def edge_scatter(
     edge_np = edge_df[[source, target]].to_numpy()
 
     # apply x/y coordinate mapper and flatten arrays
+    # NaN separates the edges, else consecutive edges are joined by a line
     edge_x = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name]),
+                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name], np.nan),
                 edge_np,
             )
         )
@@ -30,7 +31,7 @@ def edge_scatter(
     edge_y = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name]),
+                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name], np.nan),
                 edge_np,
             )
         )
-- 
2.43.0


From bf4be6b81c73d2e705a71689382550fbb71b1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 30/43] fix: read the ends of an edge by column name when
 drawing a tour

---
 pctsp/plot/plot_tour.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pctsp/plot/plot_tour.py b/pctsp/plot/plot_tour.py
index a266e5f..bbc649f 100644
--- a/pctsp/plot/plot_tour.py
+++ b/pctsp/plot/plot_tour.py
@@ -32,7 +32,9 @@ def tour_edges_trace(
 
     # filter edges
     tour_edge_mask = edge_df[[source, target]].apply(
-        lambda x: (x[0], x[1]) in tour_edge_set or (x[1], x[0]) in tour_edge_set, axis=1
+        lambda x: (x[source], x[target]) in tour_edge_set
+        or (x[target], x[source]) in tour_edge_set,
+        axis=1,
     )
     tour_edge_df = edge_df.loc[tour_edge_mask]
 
-- 
2.43.0


From 184f6fc254e5e59aaa00f7bd1fac13bd7c8351d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 31/43] fix: set titles of plots through the title attribute

---
 pctsp/plot/plot_graph.py    | 3 +--
 pctsp/plot/plot_vertices.py | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pctsp/plot/plot_graph.py b/pctsp/plot/plot_graph.py
index af3da9e..823340a 100644
--- a/pctsp/plot/plot_graph.py
+++ b/pctsp/plot/plot_graph.py
@@ -19,8 +19,7 @@ def graph_trace(edge_df: pd.DataFrame, vertex_df: pd.DataFrame) -> List[go.Scatt
 def graph_layout() -> go.Layout:
     """Plotly layout of graph"""
     return go.Layout(
-        title="<br>Network graph made with Python",
-        titlefont_size=16,
+        title={"text": "<br>Network graph made with Python", "font": {"size": 16}},
         showlegend=False,
         hovermode="closest",
         margin={"b": 20, "l": 5, "r": 5, "t": 40},
diff --git a/pctsp/plot/plot_vertices.py b/pctsp/plot/plot_vertices.py
index e9d32ac..c88e8f7 100644
--- a/pctsp/plot/plot_vertices.py
+++ b/pctsp/plot/plot_vertices.py
@@ -24,7 +24,9 @@ def vertex_scatter(
             size=10,
             color=vertex_df[color],
             colorbar=go.scatter.marker.ColorBar(
-                thickness=15, title="Prize", xanchor="left", titleside="right"
+                thickness=15,
+                title={"text": "Prize", "side": "right"},
+                xanchor="left",
             ),
             line_width=2,
         ),
-- 
2.43.0


From 748e7b8f7a1796fa7fc173a0c172cc4bbe72b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 32/43] fix: incomplete summary stats of one vial do not stop
 the CSV export

---
 pctsp/apps/csv_app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..189de36 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -7,6 +7,7 @@ import yaml
 
 import numpy as np
 import pandas as pd
+from pydantic import ValidationError
 import typer
 
 from ..algorithms import SummaryStats
@@ -58,7 +59,7 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_dict = stats.dict()
             stats_dict["vial_uuid"] = vial_uuid
             stats_list.append(stats_dict)
-        except (FileNotFoundError, yaml.YAMLError):
+        except (FileNotFoundError, TypeError, ValidationError, yaml.YAMLError):
             pass
     return pd.DataFrame.from_records(stats_list)
 
-- 
2.43.0


From 51328102278e679d39c0c8228019191b4b9e5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 33/43] fix: quota of a londonaq instance is alpha percent of
 its total prize

---
 pctsp/compare/product_of_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..c4acb28 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -108,7 +108,7 @@ def product_of_londonaq_data_config_from_alpha(
                 cost_function=problems[name].edge_weight_type,
                 dataset=DatasetName.londonaq,
                 graph_name=name,
-                quota=problems[name].get_quota(alpha),
+                quota=int(float(alpha * problems[name].get_total_prize()) / 100.0),
                 root=problems[name].get_root_vertex(),
                 alpha=alpha,
             )
-- 
2.43.0


From 6699dee883b48190b8c5a0344f5feccc9809b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 34/43] fix: dataset stats leave out the root when looking at
 disjoint paths

---
 pctsp/apps/dataset_app.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index f3d62f2..37d1a86 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -146,6 +146,8 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     biggest_prize = 0
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
+        if u == root_vertex:
+            continue  # two disjoint cycles from the root are not a pair of disjoint paths
         prize = (
             total_prize(prize_map, path1)
             + total_prize(prize_map, path2)
@@ -157,7 +159,9 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-        vertex_disjoint_cost_map(tree, biggest_vertex).values()
+        cost
+        for u, cost in vertex_disjoint_cost_map(tree, biggest_vertex).items()
+        if u != root_vertex
     )
 
     # preprocessing
-- 
2.43.0


From 1e9c35d6cb702698dc271917066cae7d6166a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 35/43] fix: path extension of an empty tour returns it instead
 of running out of memory

---
 include/pctsp/heuristic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index 2c243b4..fad36c4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -259,7 +259,7 @@ void pathExtension(
     bool calculate_avg_loss = true;
     float avg_loss = 0.0;
     int i = 0;
-    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size < tour.size() - 1) {
+    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size + 1 < (int) tour.size()) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
@@ -332,7 +332,7 @@ void pathExtensionUntilPrizeFeasible(
     int num_feasible_extensions = 1;
     int i = 0;
 
-    while (prize < quota && num_feasible_extensions > 0 && step_size < tour.size() - 1 && i++ < boost::num_vertices(graph)) {
+    while (prize < quota && num_feasible_extensions > 0 && step_size + 1 < (int) tour.size() && i++ < boost::num_vertices(graph)) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
-- 
2.43.0


From 7bb00ecc760e89bce69f0856f548209b3d339bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:16 +0000
Subject: [PATCH 36/43] fix: timestamps are written in UTC with three digits of
 milliseconds

---
 src/event_handlers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..dff863f 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -105,8 +105,10 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    std::string ms_string = std::to_string(ms.count());
+    ms_string.insert(0, 3 - ms_string.size(), '0');
+    std::string all = std::string(mbstr) + "." + ms_string + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From fdc9afe91d28e529e5154ed79464c148576686f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 37/43] fix: the message of FileDoesNotExistError is
 initialised before it is used

---
 include/pctsp/exception.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index fd91870..fc33c80 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -87,7 +87,7 @@ class TargetVertexFound : public std::exception {
 
 class FileDoesNotExistError : public std::filesystem::filesystem_error {
     private:
-        const std::string message = "File does not exist: ";
+        inline static const std::string message = "File does not exist: ";
     
     public:
         FileDoesNotExistError(const std::string& what_arg, const std::filesystem::path& p1, std::error_code ec) : std::filesystem::filesystem_error(what_arg, p1, ec) {};
-- 
2.43.0


From df03abc482732c453947a6b1a8ea9ef1a5b141e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 38/43] fix: result files that are not text or hold no result
 count as missing

---
 pctsp/lab/lab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index baf042e..ff9d578 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -65,7 +65,7 @@ class Lab:
                 Result.read_from_json_file(
                     self.get_vial_dir(experiment.name, vial.uuid), vial.uuid
                 )
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (FileNotFoundError, ValueError):
                 missing.append(vial)
         return missing
 
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (FileNotFoundError, ValueError):
                 pass
         return infeasible
 
@@ -280,7 +280,7 @@ class Lab:
                 self.logger.warning(
                     "Json results file not found for vial %s", {vial.uuid}
                 )
-            except json.JSONDecodeError:
+            except ValueError:
                 self.logger.warning(
                     "JSON result file decoder error for vial %s", vial.uuid
                 )
-- 
2.43.0


From f042d6b3ca6f03387f257e906be9ef34aaf3e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:49 +0000
Subject: [PATCH 39/43] fix: the capsule of the model is kept alive while its
 pointer is read

---
 pctsp/pypctsp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pctsp/pypctsp.cpp b/pctsp/pypctsp.cpp
index 78fdaf3..673574d 100644
--- a/pctsp/pypctsp.cpp
+++ b/pctsp/pypctsp.cpp
@@ -23,8 +23,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pyBasicSolvePrizeCollectingTSP(
     PCTSPvertex& root_vertex,
     std::string& name
 ) {
-    PyObject* capsule = model.attr("to_ptr")(false).ptr();
-    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule, "scip");
+    py::object capsule = model.attr("to_ptr")(false);
+    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule.ptr(), "scip");
     PCTSPgraph graph;
     auto sol_edges = solvePrizeCollectingTSP(scip, graph, edge_list, heuristic_edges, cost_dict, prize_dict, quota, root_vertex, name);
     return sol_edges;
@@ -59,8 +59,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pySolvePrizeCollectingTSP(
     PCTSPinitLogging(getBoostLevelFromPyLevel(log_level_py));
 
     // get the model from python
-    PyObject* capsule = model.attr("to_ptr")(false).ptr();
-    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule, "scip");
+    py::object capsule = model.attr("to_ptr")(false);
+    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule.ptr(), "scip");
 
     // rename vertices if they are not in range [0, n-1]
     PCTSPgraph graph;
-- 
2.43.0


From 5d1a5559292a0825202b51746f61735a6f5193b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:05 +0000
Subject: [PATCH 40/43] fix: the basic solver returns no tour if it stopped
 without a solution

---
 src/algorithms.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 206dfb5..9c23393 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -37,7 +37,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, heuristic_edges, cost_map, prize_map, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    // the solver may also stop without a solution because of a limit
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
@@ -58,7 +59,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, edge_list, heuristic_edges, cost_dict, prize_dict, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    // the solver may also stop without a solution because of a limit
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
-- 
2.43.0


From 45e32e6941fa1921bd240c075a72a1ddf9c8fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 41/43] fix: self loops are added only to vertices without one

---
 src/preprocessing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessing.cpp b/src/preprocessing.cpp
index 6936ec4..9041ee9 100644
--- a/src/preprocessing.cpp
+++ b/src/preprocessing.cpp
@@ -2,7 +2,9 @@
 
 void addSelfLoopsToGraph(PCTSPgraph& graph) {
     for (auto vertex : boost::make_iterator_range(vertices(graph))) {
-        boost::add_edge(vertex, vertex, graph);
+        if (boost::edge(vertex, vertex, graph).second == false) {
+            boost::add_edge(vertex, vertex, graph);
+        }
     }
 }
 
-- 
2.43.0


From 3052f2edf16a3872e98c72e93d79c0b8abf05ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:27 +0000
Subject: [PATCH 42/43] fix: a far vertex whose doubled distance exceeds an int
 gets the largest cost cover bound

---
 include/pctsp/cost_cover.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 4e1d894..f3689da 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -153,9 +153,10 @@ SCIP_RETCODE includeShortestPathCostCover(
     );
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
-    // (the distance of an unreachable vertex is the maximum integer and cannot be doubled)
+    // (a distance that cannot be doubled, such as that of an unreachable vertex, becomes the maximum integer)
+    const int max_distance = std::numeric_limits<int>::max();
     for (int i = 0; i < distances.size(); i++) {
-        if (distances[i] < std::numeric_limits<int>::max()) distances[i] = distances[i] * 2;
+        distances[i] = distances[i] <= max_distance / 2 ? distances[i] * 2 : max_distance;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From ccbc1707d9287ee179c405258fc26575662b968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:27 +0000
Subject: [PATCH 43/43] fix: collapsing counts no prize twice, so prizes that
 fit an int together cannot overflow

---
 include/pctsp/heuristic.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index fad36c4..5edad17 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -684,11 +684,13 @@ std::list<std::list<typename TGraph::vertex_descriptor>> findCollapsePaths (
 
     // for each neighbour of the source vertex
     for (VD collapse_vertex: boost::make_iterator_range(boost::adjacent_vertices(source, graph))) {
+        // the prize of a vertex in the internal path is already counted
+        if (in_internal_path[collapse_vertex]) continue;
         // check if there exists an edge from v to root
         auto edge = boost::edge(collapse_vertex, target, graph);
         bool edge_exists = edge.second;
         auto prize_of_new_tour = prize_of_internal_path + prize_map[collapse_vertex];
-        if (edge_exists && ! in_internal_path[collapse_vertex] && prize_of_new_tour >= quota && source != target) {
+        if (edge_exists && prize_of_new_tour >= quota && source != target) {
             std::list<VD> collapse = {source, collapse_vertex, target};
             collapse_paths.push_back(collapse);
         }
@@ -716,7 +718,7 @@ std::list<std::list<typename TGraph::vertex_descriptor>> findCollapsePaths (
             auto color_start = color_map.begin();
             auto color_last = color_map.end();
             auto path_st = pathInTreeFromParents(predecessor, source, target);
-            int prize_of_new_tour = prize_of_internal_path + totalPrize(prize_map, path_st) - prize_map[source] - prize_map[target];
+            int prize_of_new_tour = prize_of_internal_path - prize_map[source] - prize_map[target] + totalPrize(prize_map, path_st);
             if (prize_of_new_tour >= quota) {
                 collapse_paths.push_back(path_st);
             }
-- 
2.43.0

