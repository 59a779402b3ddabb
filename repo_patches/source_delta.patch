From 0a73f07d3864c14c86d060d0612b79b37ee776b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 01/58] fix: kosaraju computes the finish order of a real
 depth-first search

---
 include/graph/algorithm/connected_components.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..858153d 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -164,7 +163,11 @@ void kosaraju(G&&        g,        // graph
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // A vertex is visited when it is taken from the stack, not when it is pushed: only then is the
+        // finish order that of a depth-first search
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +177,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +285,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -291,13 +292,16 @@ void kosaraju(G&&        g,        // bidirectional graph
 
       if (children_visited) {
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // A vertex is visited when it is taken from the stack, not when it is pushed: only then is the
+        // finish order that of a depth-first search
+        visited[uid] = true;
+
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From 6866bc1505a5a6630c28b133bc2ed3d424fb1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 02/58] fix: afforest accepts an empty graph

---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 858153d..db693d5 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -724,6 +724,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label, nothing to sample
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -831,6 +834,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label, nothing to sample
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 9ecedec36b141393a24841b4e8648d6d8d7ffa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 03/58] fix: maximal_independent_set never selects a vertex
 with a self-loop

---
 include/graph/algorithm/mis.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..2c79870 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -183,6 +183,13 @@ size_t maximal_independent_set(G&&                      g,       // graph
 
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
+    // A vertex with a self-loop is adjacent to itself and cannot be in an independent set
+    for (auto uv : edges(g, u)) {
+      if (target_id(g, uv) == uid) {
+        removed_vertices[uid] = 1;
+        break;
+      }
+    }
     if (!removed_vertices[uid]) {
       *mis++ = uid;
       ++count;
-- 
2.43.0


From 012da4b87aaf52e6207bfc82e30ea58929da2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 04/58] fix: biconnected_components emits a vertex that has
 only self-loops

---
 include/graph/algorithm/biconnected_components.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..d5c01e9 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -262,6 +262,11 @@ void biconnected_components(G&& g, OuterContainer& components) {
         }
       }
     }
+
+    if (timer == disc[start] + 1) {
+      // Only self-loops at start, no other vertex reached — trivial biconnected component
+      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
+    }
   }
 }
 
-- 
2.43.0


From 4a6f4669ebd3d92c7ef6c3a1e3ce09a0a9e99313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 05/58] fix: bellman_ford_shortest_paths does not relax edges
 of unreached vertices

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..5c10fa6 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -193,6 +193,11 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    // No path to uid is known yet: there is no distance that could be extended
+    if (d_u == shortest_path_infinite_distance<DistanceValue>()) {
+      return false;
+    }
+
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -260,7 +265,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From f3e9c1e847c745396a3261bed959067fc5e4ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 06/58] fix: find_negative_cycle terminates when the reported
 vertex is not on the cycle

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index 5c10fa6..4168b27 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -60,11 +60,16 @@ void find_negative_cycle(G&                              g,
                          OutputIterator                  out_cycle) {
   // Does a negative weight cycle exist?
   if (cycle_vertex_id.has_value()) {
-    vertex_id_t<G> uid = cycle_vertex_id.value();
+    // The vertex may only be reachable from the cycle: after num_vertices(g) steps back we are on the cycle
+    vertex_id_t<G> cycle_id = cycle_vertex_id.value();
+    for (size_t k = 0; k < num_vertices(g); ++k) {
+      cycle_id = predecessor[cycle_id];
+    }
+    vertex_id_t<G> uid = cycle_id;
     do {
       *out_cycle++ = uid;
       uid          = predecessor[uid];
-    } while (uid != cycle_vertex_id.value());
+    } while (uid != cycle_id);
   }
 }
 
-- 
2.43.0


From e78f9cf9d3a75940cb8bf4d0b338786344e8c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 07/58] fix: kruskal and inplace_kruskal find the largest
 vertex id for any number of edges

---
 include/graph/algorithm/mst.hpp | 36 +++++++++++----------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..3e81dac 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,16 +565,13 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
+  // Find maximum vertex ID (needed to size disjoint-set structure). This cannot be left to the comparator: it is
+  // not called for every edge, and not at all for a single edge.
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e_copy) {
+    N = std::max({N, uid, vid});
+  }
   auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
-    }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
-    }
     return compare(get<2>(i), get<2>(j)); // Compare edge weights
   };
   std::ranges::sort(e_copy, outer_compare);
@@ -708,26 +705,17 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
+  // Find maximum vertex ID (needed to size disjoint-set structure). This cannot be left to the comparator: it is
+  // not called for every edge, and not at all for a single edge.
+  VId N = 0;
+  for (auto&& ed : e) {
+    N = std::max({N, static_cast<VId>(ed.source_id), static_cast<VId>(ed.target_id)});
+  }
   auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
-    }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
-    }
     return compare(i.value, j.value); // Compare edge weights
   };
   std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
 
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
-  }
-
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
   for (VId uid = 0; uid <= N; ++uid) {
-- 
2.43.0


From 8c4a8a6e4835c86b8734be1c971604ca6f155566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 08/58] fix: prim adds the best edge first and never revises
 edges of vertices in the tree

---
 include/graph/algorithm/mst.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 3e81dac..2129c68 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -929,21 +929,34 @@ auto prim(G&&                   g,           // graph
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
   // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // (std::priority_queue has the greatest element on top, so the arguments are swapped)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  std::vector<bool> in_tree(N, false);   // vertices whose tree edge is final
+  EV                total_weight = EV{}; // sum of the final tree edges
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
 
+    // A vertex may be queued several times, only its best edge enters the tree
+    if (in_tree[uid]) {
+      continue;
+    }
+    in_tree[uid] = true;
+    if (uid != seed) {
+      total_weight += distance[uid];
+    }
+
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
       // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -952,17 +965,6 @@ auto prim(G&&                   g,           // graph
     }
   }
 
-  // Calculate total MST weight by summing edge weights
-  // weight[v] contains the edge weight from predecessor[v] to v
-  // Exclude seed vertex (which has no incoming edge in MST)
-  EV total_weight = EV{};
-  for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
-      total_weight += weight[v];
-    }
-  }
-
   return total_weight;
 }
 } // namespace graph
-- 
2.43.0


From 4638347a4063c5e9b791af79b774866127392faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 09/58] fix: dijkstra_shortest_paths examines vertices in order
 of distance, each with its final distance

---
 .../algorithm/dijkstra_shortest_paths.hpp     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ede2b58..420793d 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -188,10 +188,10 @@ constexpr void dijkstra_shortest_paths(
 
   const id_type N = static_cast<id_type>(num_vertices(g));
 
-  auto qcompare = [&distances](id_type a, id_type b) {
-    return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];
-  };
-  using Queue = std::priority_queue<id_type, std::vector<id_type>, decltype(qcompare)>;
+  // The distance is stored in the entry: the keys of a heap must not change while they are in it
+  using queue_entry = std::pair<distance_type, id_type>;
+  auto qcompare     = [](const queue_entry& a, const queue_entry& b) { return a.first > b.first; };
+  using Queue       = std::priority_queue<queue_entry, std::vector<queue_entry>, decltype(qcompare)>;
   Queue queue(qcompare);
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
@@ -210,7 +210,7 @@ constexpr void dijkstra_shortest_paths(
     if (source >= N || source < 0) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
-    queue.push(source);
+    queue.push({zero, static_cast<id_type>(source)});
     distances[static_cast<size_t>(source)] = zero; // mark source as discovered
     if constexpr (has_on_discover_vertex<G, Visitor>) {
       visitor.on_discover_vertex(g, *find_vertex(g, source));
@@ -221,8 +221,11 @@ constexpr void dijkstra_shortest_paths(
 
   // Main loop to process the queue
   while (!queue.empty()) {
-    const id_type uid = queue.top();
+    const auto [queued_distance, uid] = queue.top();
     queue.pop();
+    if (queued_distance != distances[static_cast<size_t>(uid)]) {
+      continue; // a shorter path to uid was found after this entry was queued
+    }
     if constexpr (has_on_examine_vertex<G, Visitor>) {
       visitor.on_examine_vertex(g, *find_vertex(g, uid));
     } else if constexpr (has_on_examine_vertex_id<G, Visitor>) {
@@ -257,7 +260,7 @@ constexpr void dijkstra_shortest_paths(
           } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
             visitor.on_discover_vertex(g, vid);
           }
-          queue.push(vid);
+          queue.push({distances[static_cast<size_t>(vid)], vid});
         } else {
           // This is an indicator of a bug in the algorithm and should be investigated.
           throw std::logic_error(
@@ -269,7 +272,7 @@ constexpr void dijkstra_shortest_paths(
           if constexpr (has_on_edge_relaxed<G, Visitor>) {
             visitor.on_edge_relaxed(g, uv);
           }
-          queue.push(vid); // re-enqueue vid to re-evaluate its neighbors with a shorter path
+          queue.push({distances[static_cast<size_t>(vid)], vid}); // re-enqueue vid to re-evaluate its neighbors with a shorter path
         } else {
           if constexpr (has_on_edge_not_relaxed<G, Visitor>) {
             visitor.on_edge_not_relaxed(g, uv);
-- 
2.43.0


From 70911fff6d7466aa7e69d4bbb72500c5f75dcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 10/58] fix: num_edges(g, uid) compiles for compressed_graph

---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..47a0a4e 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1307,7 +1307,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
   template <typename G, typename U>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && requires(const U& u) { u.vertex_id(); }
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
     if (vid >= g.size()) {
-- 
2.43.0


From 824f7b83fde75eb716622ea4b325d882a977fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 11/58] fix: source_id of an incoming edge of an undirected
 graph is the other end

---
 include/graph/container/undirected_adjacency_list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..e09d3a1 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1293,7 +1293,12 @@ template <typename EV,
 requires edge_descriptor_type<E>
 constexpr VId source_id([[maybe_unused]] const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g,
                         const E& e) noexcept {
-  return static_cast<VId>(e.source_id());
+  if constexpr (E::is_in_edge) {
+    // the descriptor holds the vertex the in-edges belong to; the edge comes from the other end
+    return e.value()->other_vertex_id(g, static_cast<VId>(e.source_id()));
+  } else {
+    return static_cast<VId>(e.source_id());
+  }
 }
 
 /// edge_value(g, edge_descriptor) - get edge value from edge descriptor
-- 
2.43.0


From 07263e62ec203420d018ed60371c8d5afb6ba0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 12/58] fix: edges and target_id of compressed_graph take
 descriptors only

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 47a0a4e..2e9b436 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1222,7 +1222,7 @@ public: // Friend functions
    * @note This is a lightweight view with minimal overhead
    * @note Returns empty view if vertex descriptor is out of bounds
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
@@ -1267,7 +1267,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note No bounds checking is performed; edge descriptor must be valid
   */
-  template <typename G, typename EdgeDesc>
+  template <typename G, edge_descriptor_type EdgeDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto target_id(G&& g, const EdgeDesc& uv) noexcept {
     // Edge descriptor's value() returns the edge index into col_index_
-- 
2.43.0


From e2f26649a1f0b6ec5dfce03f3cf91ffead2e67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 13/58] fix: kruskal terminates when the largest vertex id is
 the largest value of its type

---
 include/graph/algorithm/mst.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 2129c68..65f3faa 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -578,8 +578,8 @@ auto kruskal(IELR&&    e,      // graph
 
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
+  for (size_t uid = 0; uid < subsets.size(); ++uid) { // N may be the largest value of VId
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
     subsets[uid].count = 0;   // Initial rank is 0
   }
 
@@ -718,8 +718,8 @@ auto inplace_kruskal(IELR&&    e,      // graph
 
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
+  for (size_t uid = 0; uid < subsets.size(); ++uid) { // N may be the largest value of VId
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
     subsets[uid].count = 0;   // Initial rank is 0
   }
 
-- 
2.43.0


From cd9e60ecc46ae2311b2c6159e7f8454686a1a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 14/58] fix: a dynamic_graph from an empty initializer_list has
 no vertices

---
 include/graph/container/dynamic_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..9b1a749 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1085,7 +1085,7 @@ public: // Construction/Destruction/Assignment
       size_t last_id = 0;
       for (auto&& e : il)
         last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));
-      resize_vertices(last_id + 1);
+      resize_vertices(il.size() == 0 ? 0 : last_id + 1);
       // canonical order: supply vertex_count to avoid inference pass
       load_edges(il, {}, vertices_.size(), il.size());
     }
-- 
2.43.0


From de42482573e9fd5221e07e6e207325cc77ab3a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 15/58] fix: source(g, uv) of an incoming edge is the source,
 not the target

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..de7acb1 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3191,6 +3191,10 @@ namespace _cpo_impls {
       { uv.source() };
     };
 
+    // The vertex stored in the descriptor of an incoming edge is its target: the source is found by its id
+    template <typename E>
+    concept _is_in_edge = is_edge_descriptor_v<std::remove_cvref_t<E>> && std::remove_cvref_t<E>::is_in_edge;
+
     // Check if default implementation is available
     // Requires source_id(g, uv) and find_vertex(g, id) to work
     template <typename G, typename E>
@@ -3205,6 +3209,9 @@ namespace _cpo_impls {
         return {_St::_member, noexcept(std::declval<G&>().source(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
         return {_St::_adl, noexcept(source(std::declval<G&>(), std::declval<const E&>()))};
+      } else if constexpr (_is_in_edge<E> && _has_default<G, E>) {
+        return {_St::_default,
+                noexcept(find_vertex(std::declval<G&>(), source_id(std::declval<G&>(), std::declval<const E&>())))};
       } else if constexpr (_has_descriptor<E>) {
         return {_St::_descriptor, noexcept(std::declval<const E&>().source())};
       } else if constexpr (_has_default<G, E>) {
@@ -3245,6 +3252,7 @@ namespace _cpo_impls {
              *    - May return vertex_descriptor or vertex_iterator (auto-converted)
              * 3. uv.source() - Edge descriptor's source() member (medium priority)
              *    - Returns the stored source vertex descriptor directly
+             *    - Not used for incoming edges, whose descriptor stores the target vertex
              * 4. *find_vertex(g, source_id(g, uv)) - Default (lowest priority)
              *    - Uses source_id to get ID, then find_vertex to locate vertex
              * 
-- 
2.43.0


From fd1bbbeedca5f349b830571c7c736d966b52b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 16/58] fix: edge_value(g, uv) of compressed_graph does not
 narrow the edge index to the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 2e9b436..7ee7568 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1376,9 +1376,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 38fec5c53bf1565592d02340711333b2f66d1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 17/58] fix: the last partition of compressed_graph ends at the
 number of vertices

---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 7ee7568..7af4816 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -911,13 +911,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (!partition_.empty() && static_cast<size_type>(partition_.back()) > size()) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From 1b2b37dcf56a7af822b951de1b7fe56d4e2a1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 18/58] fix: compressed_graph can be built from an empty range
 of edges

---
 include/graph/container/compressed_graph.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 7af4816..ace0bcb 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -703,8 +703,7 @@ public: // Operations
     assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
-    if (begin(erng) == end(erng)) {
-      terminate_partitions();
+    if (begin(erng) == end(erng) && vertex_count == 0) {
       return;
     }
 
@@ -767,8 +766,7 @@ public: // Operations
     assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
-    if (begin(erng) == end(erng)) {
-      terminate_partitions();
+    if (begin(erng) == end(erng) && vertex_count == 0) {
       return;
     }
 
-- 
2.43.0


From c3171daeebf0af59a2d2a4418ae3563d41a00e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 19/58] fix: load_vertices of compressed_graph with no vertices
 adds no vertex

---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index ace0bcb..bc15ce4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -636,14 +636,14 @@ public: // Operations
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_vertices(const VRng& vrng, VProj vprojection = {}, size_type vertex_count = 0) {
     // Scan the vertex data to find the maximum vertex ID
-    vertex_id_type max_id = 0;
+    size_type id_count = 0; // max_id + 1, or 0 if there are no vertices
     for (auto&& vtx_data : vrng) {
       auto&& vtx = vprojection(vtx_data);
-      max_id     = max(max_id, static_cast<vertex_id_type>(vtx.id));
+      id_count   = max(id_count, static_cast<size_type>(vtx.id) + 1);
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    vertex_count = max({vertex_count, id_count, size()});
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
-- 
2.43.0


From 43d4df4b49c548d558dff27d1218773911c67e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 20/58] fix: vertices added by load_vertices after load_edges
 of compressed_graph have no edges

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index bc15ce4..85921b3 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -649,8 +649,8 @@ public: // Operations
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      // Expand existing structure if needed; added vertices have no edges
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From b4f386b98384da0248e65cb4d41f2d6c765e3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 21/58] fix: every vertex of compressed_graph has a vertex
 value, whether or not values were loaded

---
 include/graph/container/compressed_graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 85921b3..419a214 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -654,6 +654,8 @@ public: // Operations
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
+    if (row_values_base::size() < vertex_count)
+      row_values_base::resize(vertex_count);
   }
 
   /**
@@ -753,7 +755,7 @@ public: // Operations
     // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
     // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
     // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -834,7 +836,7 @@ public: // Operations
     // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
     // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
     // getting a value for a row.
-    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
-- 
2.43.0


From 52c9bd0b4e2068c052d93f8cabcbd7e8beade72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 22/58] fix: the last partition of compressed_graph includes
 vertices added after construction

---
 include/graph/container/compressed_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 419a214..a6987f6 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1147,7 +1147,10 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    // The last partition holds all remaining vertices, including those added after construction
+    const auto end_vid = static_cast<std::size_t>(pid) + 1 == num_parts
+                               ? static_cast<std::size_t>(g.size())
+                               : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid) + 1]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From d99bc7e6187133ae110465844916245b0e2ff55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 23/58] fix: source_id of an incoming edge is the source when
 vertices are stored in a map

---
 include/graph/detail/edge_cpo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..cf9d5ca 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -339,7 +339,7 @@ namespace _cpo_impls {
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From cbb84fa3e2597f5a441ca49af1a482c3a6271361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 24/58] fix: num_vertices(g, pid) of compressed_graph counts
 the vertices of the partition

---
 include/graph/container/compressed_graph.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a6987f6..525dcde 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1155,6 +1155,20 @@ public: // Friend functions
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
 
+  /**
+   * @brief Get the number of vertices in a specific partition.
+   * 
+   * @param g The graph (const reference)
+   * @param pid The partition ID (0-based index)
+   * @return Number of vertices in vertices(g, pid); 0 if pid is out of range
+   * @note This is the ADL customization point for the num_vertices(g, pid) CPO
+  */
+  template <typename G, std::integral PId>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  [[nodiscard]] friend constexpr auto num_vertices(const G& g, const PId& pid) noexcept -> size_type {
+    return static_cast<size_type>(std::ranges::size(vertices(g, pid)));
+  }
+
   /**
    * @brief Find a vertex by its ID
    * 
-- 
2.43.0


From f110297ade4fc85b687a7e3f717cd10b601f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 25/58] fix: a self-loop of undirected_adjacency_list is linked
 once

---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..363f4f0 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -588,7 +588,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in the list of its vertex once
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 template <typename EV,
           typename VV,
@@ -598,7 +600,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in the list of its vertex once
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 
 template <typename EV,
@@ -609,7 +613,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in the list of its vertex once
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 
 template <typename EV,
-- 
2.43.0


From d575a80efb1b79e9606625b995dbe68559b26b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 26/58] fix: edges() and erase_edge(edge_iterator) of
 undirected_adjacency_list visit and remove each edge once

---
 .../detail/undirected_adjacency_list_impl.hpp |  3 +-
 .../container/undirected_adjacency_list.hpp   | 30 +++++++++++++------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 363f4f0..3cb6a23 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1443,7 +1443,8 @@ typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edg
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
   edge_type* uv = &*pos;
   ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
   return pos;
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index e09d3a1..b232813 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -853,8 +853,8 @@ public: // Type Aliases
   protected:
     void advance_edge() {
       // next edge for current vertex
-      vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-      if (++uv_ != u_->edges_end(*g_, uid))
+      ++uv_;
+      if (advance_owned())
         return;
 
       // find next vertex with edge(s)
@@ -865,14 +865,23 @@ public: // Type Aliases
     void advance_vertex() {
       // at exit, if u_ != g.vertices().end() then uv_ will refer to a valid edge
       for (; u_ != g_->vertices().end(); ++u_) {
-        if (u_->num_edges() > 0) {
-          vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-          uv_                = u_->edges_begin(*g_, uid);
+        vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
+        uv_                = u_->edges_begin(*g_, uid);
+        if (advance_owned())
           return;
-        }
       }
     }
 
+    // An edge is in the lists of both of its vertices; it is visited in the list of its owner only.
+    bool advance_owned() {
+      vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
+      for (vertex_edge_iterator last = u_->edges_end(*g_, uid); uv_ != last; ++uv_) {
+        if (uv_->list_owner_id() == uid)
+          return true;
+      }
+      return false;
+    }
+
   protected:
     graph_type*          g_;
     vertex_iterator      u_;
@@ -1055,10 +1064,13 @@ public:
   /// @brief Get range of all edges.
   /// @note Each undirected edge appears twice in iteration (once from each endpoint).
   /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end()), this->edges_size_};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, begin()), const_edge_iterator(g, end()), this->edges_size_};
   }
 
 public: // Vertex Creation
-- 
2.43.0


From bf649688ae05cbc069496232e6cedd5e01c9f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 27/58] fix: erase_edge(g, uv) of undirected_adjacency_list
 compiles and unlinks the edge

---
 .../graph/container/detail/undirected_adjacency_list_api.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_api.hpp b/include/graph/container/detail/undirected_adjacency_list_api.hpp
index 0508748..3c6385d 100644
--- a/include/graph/container/detail/undirected_adjacency_list_api.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_api.hpp
@@ -626,10 +626,7 @@ template <typename EV,
 constexpr auto erase_edge(undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>&                        g,
                           vertex_edge_iterator_t<undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>> uv)
       -> vertex_edge_iterator_t<undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>> {
-  edge_t<undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>>* uv_ptr = &*uv;
-  ++uv;
-  delete uv_ptr;
-  return uv;
+  return g.vertices()[uv.source_id()].erase_edge(g, uv);
 }
 
 template <typename EV,
-- 
2.43.0


From 13a8714f7b28db445f4b12e04bbed0656865f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 28/58] fix: copies of undirected_adjacency_list include edges
 created with the larger id first

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 3cb6a23..308735c 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1116,8 +1116,8 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: in the list of its owner
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From c51d25748645bfe8eb356cfdb402651a95bfc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 29/58] fix: moves of undirected_adjacency_list free replaced
 edges and leave an empty graph

---
 .../container/undirected_adjacency_list.hpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index b232813..097c90e 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -942,7 +942,11 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {}
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -951,7 +955,16 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      static_cast<graph_type&>(*this).clear(); // edges are deleted using edge_alloc_
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From bb8c32633a0c4b983d71124dde1ce0d525e27dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 30/58] fix: edge_front of undirected_adjacency_list vertices
 compiles

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 308735c..7ee9f41 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -911,7 +911,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(graph_type& g) noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -922,7 +922,7 @@ template <typename EV,
           typename Alloc>
 const typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(const graph_type& g) const noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
-- 
2.43.0


From 97b2a54b31dad0c7267f1617a7e87ba7c5648815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 31/58] fix: resize_vertices of undirected_adjacency_list
 removes the edges of removed vertices

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 7ee9f41..5c5c39c 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1505,6 +1505,9 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type n) {
+  auto& derived = static_cast<graph_type&>(*this);
+  for (vertex_size_type uid = n; uid < this->vertices_.size(); ++uid)
+    this->vertices_[uid].clear_edges(derived); // edges of removed vertices are removed from both ends
   this->vertices_.resize(n);
 }
 
@@ -1516,7 +1519,8 @@ template <typename EV,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
                                                                                          const vertex_value_type& val) {
-  this->vertices_.resize(n, val);
+  resize_vertices((std::min)(n, this->vertices_.size()));
+  this->vertices_.resize(n, vertex_type(this->vertices_, static_cast<vertex_id_type>(n), val));
 }
 
 
-- 
2.43.0


From e79948a23296616f1bf798797ae825ee5e3866e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:55 +0000
Subject: [PATCH 32/58] fix: an undirected_adjacency_list from an empty
 initializer_list has no vertices

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 5c5c39c..27e6728 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1197,6 +1197,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0) {
+    return;
+  }
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1225,6 +1228,9 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0) {
+    return;
+  }
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From fcc001ca7f1409f49c84905447ad71fd1c3197f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 33/58] fix: neighbors_size of undirected_adjacency_list
 vertices compiles

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 27e6728..f85b5d9 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1053,7 +1053,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbor_size_type
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors_size(const graph_type& g) const {
-  return size(edges(g));
+  return edges_.size();
 }
 
 template <typename EV,
-- 
2.43.0


From 3ab75106ce2f6106e81ab6666a04af33dff3d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 34/58] fix: range constructors of undirected_adjacency_list
 without a graph value are defined

---
 include/graph/container/undirected_adjacency_list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 097c90e..6181a14 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -2011,11 +2011,14 @@ public:
                             const VRng&  vrng,
                             const EProj& eproj = {},
                             const VProj& vproj = {},
-                            const Alloc& alloc = Alloc());
+                            const Alloc& alloc = Alloc())
+        : base_type(erng, vrng, eproj, vproj, alloc) {}
 
   template <typename ERng, typename EProj = std::identity>
   requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
-  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc());
+  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc())
+        : undirected_adjacency_list(
+                erng, vector<int>(), eproj, [](auto) { return copyable_vertex_t<VId, VV>{VId()}; }, alloc) {}
 
   /// Constructor for easy creation of a graph that takes an initializer
   /// list with edge values.
-- 
2.43.0


From f0db4230d9fde6530f9f48041a2801a8bc206e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 35/58] fix: find_vertex of undirected_adjacency_list checks
 bounds for ids of type vertex_id_t

---
 include/graph/container/undirected_adjacency_list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 6181a14..042714a 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1251,7 +1251,8 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, VId id) noexcept {
+constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g,
+                           std::type_identity_t<VId> id) noexcept { // also called with vertex_id_t<G>, which is not VId
   using graph_type     = undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>;
   using vertex_set     = typename graph_type::vertex_set;
   using container_iter = typename vertex_set::iterator;
@@ -1271,7 +1272,8 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, VId id) noexcept {
+constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g,
+                           std::type_identity_t<VId> id) noexcept { // also called with vertex_id_t<G>, which is not VId
   using graph_type     = undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>;
   using vertex_set     = typename graph_type::vertex_set;
   using container_iter = typename vertex_set::const_iterator;
-- 
2.43.0


From 915757096a8d807ce446354e5660acfb166b4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 36/58] fix: edges(g, uid) works where vertices have their own
 edges()

---
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index de7acb1..04cc1d1 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -658,7 +658,8 @@ namespace _cpo_impls {
           requires(G& g, const VId& uid) {
             { find_vertex(g, uid) } -> std::input_iterator;
             requires vertex_descriptor_type<decltype(*find_vertex(g, uid))>;
-          } && (_has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+          } && (_has_vertex_member_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+                _has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
                 _has_edge_value_pattern<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))>);
 
     template <typename G, typename VId>
-- 
2.43.0


From f522013ffcdf5d2aef84e9071d56a65d8a06bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 37/58] fix: edgelist size() of undirected graphs counts the
 edges that are enumerated

---
 include/graph/views/edgelist.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..5a6875d 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -142,6 +142,27 @@ namespace edgelist_detail {
   /// When true, edgelist_view conditionally provides size().
   template <class G>
   concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+
+  /// @brief Number of edges an edgelist view of g enumerates.
+  /// An undirected edge counts once in num_edges(g) but is enumerated from both of its ends.
+  template <class G>
+  [[nodiscard]] constexpr std::size_t num_enumerated_edges(G& g) noexcept {
+    if constexpr (requires {
+                    typename adj_list::in_edge_t<G>::edge_iterator_type;
+                    typename adj_list::edge_t<G>::edge_iterator_type;
+                  }) {
+      // only then are incoming and outgoing edges the same objects
+      if constexpr (std::same_as<typename adj_list::in_edge_t<G>::edge_iterator_type,
+                                 typename adj_list::edge_t<G>::edge_iterator_type>) {
+        std::size_t n = 0;
+        for (auto u : adj_list::vertices(g)) {
+          n += static_cast<std::size_t>(adj_list::degree(g, u));
+        }
+        return n;
+      }
+    }
+    return static_cast<std::size_t>(adj_list::num_edges(g));
+  }
 } // namespace edgelist_detail
 
 // Forward declarations
@@ -287,7 +308,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::num_enumerated_edges(*g_);
   }
 
 private:
@@ -429,7 +450,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::num_enumerated_edges(*g_);
   }
 
 private:
@@ -603,7 +624,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::num_enumerated_edges(*g_);
   }
 
 private:
@@ -739,7 +760,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::num_enumerated_edges(*g_);
   }
 
 private:
-- 
2.43.0


From d2afe9f54e5aaa61e8b6803141ffc41c7066ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 38/58] fix: num_edges(transpose, u) counts the edges that the
 transposed view lists

---
 include/graph/views/transpose.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..c855aac 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -205,12 +205,12 @@ public:
   }
 
   // ===========================================================================
-  // num_edges — forwarded
+  // num_edges — per vertex swapped, in total forwarded
   // ===========================================================================
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From 73c215b253ce81e9f01a29aae200dd17485db4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 39/58] fix: the transposed view's edge functions apply to edge
 descriptors only, so that algorithms compile on it

---
 include/graph/views/transpose.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index c855aac..0dd81be 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -139,21 +139,21 @@ public:
   // ===========================================================================
 
   /// target_id(transpose, e) → source_id(underlying, e)
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr auto target_id(const transpose_view& tv, const E& e) {
     return adj_list::source_id(*tv.g_, e);
   }
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr auto target_id(transpose_view& tv, const E& e) {
     return adj_list::source_id(*tv.g_, e);
   }
 
   /// source_id(transpose, e) → target_id(underlying, e)
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr auto source_id(const transpose_view& tv, const E& e) {
     return adj_list::target_id(*tv.g_, e);
   }
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr auto source_id(transpose_view& tv, const E& e) {
     return adj_list::target_id(*tv.g_, e);
   }
@@ -179,11 +179,11 @@ public:
   }
 
   /// edge_value — forwarded unchanged
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr decltype(auto) edge_value(const transpose_view& tv, const E& e) {
     return adj_list::edge_value(*tv.g_, e);
   }
-  template <typename E>
+  template <adj_list::edge_descriptor_type E>
   friend constexpr decltype(auto) edge_value(transpose_view& tv, const E& e) {
     return adj_list::edge_value(*tv.g_, e);
   }
-- 
2.43.0


From dd22b0d202148011e4d3b3210a84420604402fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 40/58] fix: cancelling several sibling branches of edges_bfs
 cuts each of them

The view remembered one vertex to skip, so that cancelling the branch of a
second edge before the first branch was reached forgot the first one.
---
 include/graph/views/bfs.hpp | 47 +++++++++++++------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..ee57677 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,19 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest entry of the queue; skip its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        if (!state_->queue_.empty()) {
+          auto& last        = state_->queue_.back();
+          last.edge_current = last.edge_end;
+        }
+        state_->cancel_ = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +803,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +817,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +947,19 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest entry of the queue; skip its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        if (!state_->queue_.empty()) {
+          auto& last        = state_->queue_.back();
+          last.edge_current = last.edge_end;
+        }
+        state_->cancel_ = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +983,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +998,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From 69a8cb6daf15cce62ae0ed49a0c1f8b8fa6919d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 41/58] fix: the topological views do not overflow the call
 stack on long paths

The depth-first search was recursive, so that a path of some 50000 vertices
ended the program.
---
 include/graph/views/topological_sort.hpp | 79 ++++++++++++++----------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/topological_sort.hpp b/include/graph/views/topological_sort.hpp
index ff743de..1b2b6c5 100644
--- a/include/graph/views/topological_sort.hpp
+++ b/include/graph/views/topological_sort.hpp
@@ -75,8 +75,8 @@
  * | Metric | Bound                                                  |
  * |--------|--------------------------------------------------------|
  * | Time   | O(V + E) — DFS visits every vertex / edge once         |
- * | Space  | O(V) — post-order vector + visited tracker (+ O(V)     |
- * |        | recursion stack when cycle detection is enabled)        |
+ * | Space  | O(V) — post-order vector, visited tracker and search   |
+ * |        | stack (+ on-stack flags when cycle detection is enabled) |
  *
  * ---
  *
@@ -232,40 +232,57 @@ namespace topo_detail {
     [[nodiscard]] const std::optional<vertex_type>& cycle_vertex() const noexcept { return cycle_vertex_; }
 
   private:
-    // Recursive DFS visit for topological sort
-    void dfs_visit(G& g, vertex_type v, bool detect_cycles) {
-      auto vid = adj_list::vertex_id(g, v);
-      visited_.mark_visited(vid);
-
-      if (detect_cycles) {
-        rec_stack_[vid] = true;
-      }
-
-      // Visit all children
-      for (auto edge : Accessor{}.edges(g, v)) {
-        auto target_v   = Accessor{}.neighbor(g, edge);
-        auto target_vid = adj_list::vertex_id(g, target_v);
-
-        if (detect_cycles && rec_stack_[target_vid]) {
-          // Back edge detected - target_v closes the cycle
-          cycle_vertex_ = target_v;
-          return;
+    // Depth-first visit for topological sort. The stack is explicit, as in dfs.hpp, so that the length of a
+    // path in the graph is not limited by the size of the call stack.
+    void dfs_visit(G& g, vertex_type root, bool detect_cycles) {
+      using edge_iterator_type = std::ranges::iterator_t<typename Accessor::template edge_range_t<G>>;
+      struct stack_entry {
+        vertex_type        vertex;
+        edge_iterator_type edge_iter;
+        edge_iterator_type edge_end;
+      };
+      using stack_alloc = typename std::allocator_traits<Alloc>::template rebind_alloc<stack_entry>;
+      std::stack<stack_entry, std::vector<stack_entry, stack_alloc>> stack(
+            std::vector<stack_entry, stack_alloc>(stack_alloc(post_order_.get_allocator())));
+
+      auto discover = [&](vertex_type v) {
+        auto vid = adj_list::vertex_id(g, v);
+        visited_.mark_visited(vid);
+        if (detect_cycles) {
+          rec_stack_[vid] = true;
         }
+        auto edge_range = Accessor{}.edges(g, v);
+        stack.push({v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+      };
+
+      discover(root);
+      while (!stack.empty()) {
+        auto& top = stack.top();
+
+        if (top.edge_iter != top.edge_end) {
+          auto edge = *top.edge_iter;
+          ++top.edge_iter;
+          auto target_v   = Accessor{}.neighbor(g, edge);
+          auto target_vid = adj_list::vertex_id(g, target_v);
+
+          if (detect_cycles && rec_stack_[target_vid]) {
+            // Back edge detected - target_v closes the cycle
+            cycle_vertex_ = target_v;
+            return;
+          }
 
-        if (!visited_.is_visited(target_vid)) {
-          dfs_visit(g, target_v, detect_cycles);
-          if (cycle_vertex_) {
-            return; // Propagate early exit
+          if (!visited_.is_visited(target_vid)) {
+            discover(target_v); // invalidates top
+          }
+        } else {
+          // Add to post-order after all children visited
+          if (detect_cycles) {
+            rec_stack_[adj_list::vertex_id(g, top.vertex)] = false;
           }
+          post_order_.push_back(top.vertex);
+          stack.pop();
         }
       }
-
-      if (detect_cycles) {
-        rec_stack_[vid] = false;
-      }
-
-      // Add to post-order after all children visited
-      post_order_.push_back(v);
     }
   };
 
-- 
2.43.0


From c6a4fd38cddf02d8d43ca4872baa403f690f5231 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 42/58] fix: views::edgelist accepts edge lists that are not
 random access or give their elements by value

---
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 include/graph/views/edgelist.hpp            | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 04cc1d1..3223b6c 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -51,10 +51,11 @@ namespace _cpo_impls {
     };
 
     // Check if g is a range with iterators that follow inner value pattern
+    // (and a vertex_descriptor_view can be made of it, unlike e.g. std::list<edge>)
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && has_inner_value_pattern<std::ranges::iterator_t<G>>;
+    } && has_inner_value_pattern<std::ranges::iterator_t<G>> && requires(G& g) { vertex_descriptor_view(g); };
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index 5a6875d..50216f2 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -869,7 +869,7 @@ public:
     constexpr iterator(EL* el, base_iterator it) noexcept : el_(el), current_(it) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge};
     }
 
@@ -954,7 +954,7 @@ public:
     constexpr iterator(EL* el, base_iterator it, EVF* evf) noexcept : el_(el), current_(it), evf_(evf) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge,
                         std::invoke(*evf_, *el_, edge)};
     }
-- 
2.43.0


From c128ada1b8a35152742db69699fa937ce7508069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 43/58] fix: neighbors of a vertex of a const
 undirected_adjacency_list did not compile

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index f85b5d9..91d72be 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1074,7 +1074,9 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::const_neighbor_range
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors(const graph_type& g, vertex_id_type uid) const {
-  return {const_neighbor_iterator(edges_.begin(g, uid)), const_neighbor_iterator(edges_.end(g, uid)), edges_.size()};
+  vertex_edge_iterator first(g, uid, edges_.empty() ? nullptr : &edges_.front());
+  vertex_edge_iterator last(g, uid);
+  return {const_neighbor_iterator(first), const_neighbor_iterator(last), edges_.size()};
 }
 
 
-- 
2.43.0


From 5a0ca335c1845f37beb8237f167e1653e6a8b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 44/58] fix: swapping the edge iterators of
 undirected_adjacency_list did not compile and left out the graph

---
 include/graph/container/undirected_adjacency_list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 042714a..87f7206 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -434,8 +434,9 @@ public:
     bool operator!=(const const_iterator& rhs) const noexcept;
 
     friend void swap(const_iterator& lhs, const_iterator& rhs) noexcept {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
 
     graph_type&       graph() { return *graph_; }
@@ -489,8 +490,9 @@ public:
     iterator  operator--(int);
 
     friend void swap(iterator& lhs, iterator& rhs) {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
   }; // end iterator
 
-- 
2.43.0


From 1772c64a5d73b0e073af1db61ba6a7ad97a3230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 45/58] fix: an exception of the edge value ended the program
 in undirected_adjacency_list::create_edge

---
 .../detail/undirected_adjacency_list_impl.hpp |  8 ++--
 .../container/undirected_adjacency_list.hpp   | 41 +++++++++++--------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 91d72be..fecad54 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -488,7 +488,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -502,7 +502,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -527,7 +527,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -543,7 +543,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 87f7206..9cfeeb3 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -658,19 +658,19 @@ public:
 protected:
   // noexcept is only defined for move ctor & assignment b/c the user-defined value type could
   // throw an exception in other cases
-  ual_edge() noexcept                = default;
-  ual_edge(const ual_edge&) noexcept = default;
+  ual_edge()                         = default;
+  ual_edge(const ual_edge&)          = default;
   ual_edge(ual_edge&&) noexcept      = default;
   ~ual_edge() noexcept;
-  ual_edge& operator=(ual_edge&) noexcept  = default;
+  ual_edge& operator=(ual_edge&)           = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
   ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
   ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
 
   void link_front(vertex_type&, vertex_type&) noexcept;
@@ -1166,9 +1166,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v);
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
@@ -1180,9 +1178,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v, std::move(val));
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
@@ -1197,12 +1193,25 @@ public: // Edge Creation
   requires std::constructible_from<EV, const EV2&>
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
-    ++this->edges_size_;
+    edge_type*     uv  = new_edge(u, v, val);
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
+private:
+  // Allocates and links an edge. The graph is unchanged when the edge value can't be constructed.
+  template <class... Args>
+  edge_type* new_edge(vertex_iterator u, vertex_iterator v, Args&&... args) {
+    edge_type* uv = this->edge_alloc_.allocate(1);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::forward<Args>(args)...);
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
+    ++this->edges_size_;
+    return uv;
+  }
+
 public: // Edge Removal
   /// @brief Erase an edge from the graph.
   /// @param pos Iterator to the edge to erase.
-- 
2.43.0


From 1487409ea3f2af819c77f43a28bc5539a009aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 46/58] fix: constructors of undirected_adjacency_list that
 throw leaked the edges created before

---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index fecad54..eeaf983 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1092,7 +1092,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list() { // the destructor deletes the edges copied before an exception
   // Copy base class members
   edge_alloc_ = other.edge_alloc_;
 
@@ -1143,7 +1144,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor deletes the edges created before an exception
   // Handle empty case - no vertices or edges to create
   if (vrng.empty() && ranges::empty(erng)) {
     return;
@@ -1198,7 +1199,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor deletes the edges created before an exception
   if (ilist.size() == 0) {
     return;
   }
@@ -1229,7 +1230,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor deletes the edges created before an exception
   if (ilist.size() == 0) {
     return;
   }
-- 
2.43.0


From 7be7ef525de58ca088da9a480d8b44e5c45263a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 47/58] fix: dynamic_graph::load_vertices ignored vertex_count
 for ranges without a size

---
 include/graph/container/dynamic_graph.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 9b1a749..cf17163 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1131,9 +1131,11 @@ public: // Load operations
       }
     } else {
       // For sequential containers, pre-size and use index-based access
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
@@ -1202,9 +1204,11 @@ public: // Load operations
     } else {
       // For sequential containers, pre-size and use index-based access
       // Harmonize sizing logic with const& overload (ensure we never shrink and honor explicit vertex_count)
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
-- 
2.43.0


From e17d6e375953b85e659cfd3ac4667ca15a595b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 48/58] fix: load_edges of compressed_graph can be called after
 load_vertices, as documented

---
 include/graph/container/compressed_graph.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 525dcde..7cb5939 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -701,8 +701,8 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges (it may have vertices, see load_vertices)
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng) && vertex_count == 0) {
@@ -715,6 +715,10 @@ public: // Operations
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
 
+    // Keep the vertices added by load_vertices(vrng,vproj), but their (empty) rows are evaluated again
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
     row_values_base::reserve(vertex_count);
@@ -764,8 +768,8 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges (it may have vertices, see load_vertices)
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng) && vertex_count == 0) {
@@ -778,6 +782,10 @@ public: // Operations
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
 
+    // Keep the vertices added by load_vertices(vrng,vproj), but their (empty) rows are evaluated again
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
     row_values_base::reserve(vertex_count);
-- 
2.43.0


From 7c425f32f659610f55d28afc94497412d3159790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 49/58] fix: find_vertex of index-based graphs is O(1), as
 documented

---
 include/graph/adj_list/detail/graph_cpo.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 3223b6c..95657d0 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -557,8 +557,16 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          auto first          = std::ranges::begin(vertices(std::forward<G>(g)));
+          using view_iterator = decltype(first);
+          using diff_type     = std::iter_difference_t<view_iterator>;
+          using vertices_type = std::remove_cvref_t<decltype(vertices(std::forward<G>(g)))>;
+          if constexpr (is_vertex_descriptor_view_v<vertices_type> && requires { requires std::integral<decltype((*first).value())>; }) {
+            // The iterator only holds the index of the vertex: there is no need to count up to it
+            return view_iterator{(*first).value() + static_cast<decltype((*first).value())>(uid)};
+          } else {
+            return std::ranges::next(first, static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0


From fd372a9f5f9b2561ff19324f93dcf1a034e143ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 50/58] fix: articulation_points takes O(|V| + |E|) time, as
 documented

---
 .../graph/algorithm/articulation_points.hpp   | 45 +++++++++----------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..00f0c5a 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -144,18 +144,26 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
   size_t timer = 0;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
-  // edge_index tracks how far we've iterated through edges(g, uid)
+  using inc_range_t = decltype(views::incidence(g, std::declval<const vid_t&>()));
+
+  // Frame for iterative DFS: (vertex_id, next edge, end of edges, parent_edge_skipped)
+  // The iterator tracks how far we've iterated through edges(g, uid)
   // parent_edge_skipped ensures only the first reverse edge to the DFS parent
   // is treated as the tree edge; subsequent parallel edges update low-link.
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                uid;
+    std::ranges::iterator_t<inc_range_t> it;
+    std::ranges::sentinel_t<inc_range_t> it_end;
+    bool                                 parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](const vid_t& id) {
+    auto edge_range = views::incidence(g, id);
+    stk.push({id, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Outer loop: handle disconnected graphs
   for (auto [start] : views::basic_vertexlist(g)) {
     if (disc[start] != UNVISITED) {
@@ -163,35 +171,26 @@ void articulation_points(G&& g, Iter cut_vertices) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      // Collect edges into a temporary to allow indexed access
-      // We advance through edges one at a time using edge_idx
-      auto edge_range = views::incidence(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
+        const vid_t done_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          auto& [par_uid, par_it, par_it_end, par_skipped] = stk.top();
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[done_uid] < low[par_uid]) {
+            low[par_uid] = low[done_uid];
           }
 
           // Check articulation point condition for non-root
           if (parent[par_uid] != NO_PARENT) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[done_uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
@@ -201,7 +200,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -213,7 +212,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
         parent[vid] = uid;
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
-- 
2.43.0


From 3926f63e63069b01d087aa5be33e3ae39deaad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 51/58] fix: biconnected_components takes O(|V| + |E|) time, as
 documented

---
 .../algorithm/biconnected_components.hpp      | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index d5c01e9..4385a00 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -156,15 +156,23 @@ void biconnected_components(G&& g, OuterContainer& components) {
   using edge_pair = std::pair<vid_t, vid_t>;
   std::stack<edge_pair> edge_stk;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
+  using edge_range_t = decltype(edges(g, std::declval<const vid_t&>()));
+
+  // Frame for iterative DFS: (vertex_id, next edge, end of edges, parent_edge_skipped)
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                 uid;
+    std::ranges::iterator_t<edge_range_t> it;
+    std::ranges::sentinel_t<edge_range_t> it_end;
+    bool                                  parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](const vid_t& id) {
+    auto edge_range = edges(g, id);
+    stk.push({id, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Helper: pop edges from edge_stk until (u, v) is popped (inclusive).
   // Collect unique vertex IDs and push_back as a new component.
   auto flush_component = [&](vid_t u, vid_t v) {
@@ -199,25 +207,17 @@ void biconnected_components(G&& g, OuterContainer& components) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
         vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          auto& [par_uid, par_it, par_it_end, par_skipped] = stk.top();
           // Update low-link of parent
           if (low[backtrack_uid] < low[par_uid]) {
             low[par_uid] = low[backtrack_uid];
@@ -234,7 +234,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -246,7 +246,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
         parent[vid] = uid;
         disc[vid] = low[vid] = timer++;
         edge_stk.push({uid, vid});
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
-- 
2.43.0


From b39c60e5aa28cf45fd669ef25597beb02634e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 52/58] fix: find_vertex of undirected_adjacency_list works
 with as many vertices as its ids can number

---
 include/graph/container/undirected_adjacency_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 9cfeeb3..68049cf 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1271,7 +1271,7 @@ constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) { // (the number of vertices may not be a VId)
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
@@ -1292,7 +1292,7 @@ constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VCon
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) { // (the number of vertices may not be a VId)
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
-- 
2.43.0


From 940e258e0bfac4a20674dc74a6f777f77b02482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 53/58] fix: copies of undirected_adjacency_list include the
 edges with as many vertices as its ids can number

---
 .../container/detail/undirected_adjacency_list_impl.hpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index eeaf983..7892a37 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1113,8 +1113,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   auto& g = static_cast<graph_type&>(*this);
 
   // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
-  for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
-    const auto& src_vtx = other.vertices_[uid];
+  for (size_t i = 0; i < other.vertices_.size(); ++i) { // (the number of vertices may not be a vertex_id_type)
+    const vertex_id_type uid     = static_cast<vertex_id_type>(i);
+    const auto&          src_vtx = other.vertices_[i];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
-- 
2.43.0


From ec26f4c2d80345213f76c939ffb8d58b84d6a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 54/58] fix: edges(g, u) and degree(g, u) are O(1) for edge
 containers that know their size, as documented

---
 .../graph/adj_list/edge_descriptor_view.hpp   | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor_view.hpp b/include/graph/adj_list/edge_descriptor_view.hpp
index 07527fb..ca74e8e 100644
--- a/include/graph/adj_list/edge_descriptor_view.hpp
+++ b/include/graph/adj_list/edge_descriptor_view.hpp
@@ -90,7 +90,7 @@ public:
     if constexpr (std::random_access_iterator<EdgeIter>) {
       size_ = end_val - begin_val;
     } else {
-      size_ = static_cast<std::size_t>(std::distance(begin_val, end_val));
+      size_ = unknown_size;
     }
   }
 
@@ -112,7 +112,7 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      size_  = container_size(container);
     }
   }
 
@@ -137,7 +137,7 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      size_  = container_size(container);
     }
   }
 
@@ -149,13 +149,33 @@ public:
 
   [[nodiscard]] constexpr const_iterator cend() const noexcept { return end(); }
 
-  // Size - O(1) for all iterator types (cached during construction)
-  [[nodiscard]] constexpr std::size_t size() const noexcept { return size_; }
+  // Size - O(1) when the container knows its size, otherwise the edges are counted
+  [[nodiscard]] constexpr std::size_t size() const noexcept {
+    if constexpr (!std::random_access_iterator<EdgeIter>) {
+      if (size_ == unknown_size) {
+        return static_cast<std::size_t>(std::distance(begin_, end_));
+      }
+    }
+    return size_;
+  }
 
   // Get the source vertex for this view
   [[nodiscard]] constexpr vertex_desc source() const noexcept { return source_; }
 
 private:
+  static constexpr std::size_t unknown_size = static_cast<std::size_t>(-1);
+
+  template <typename Container>
+  [[nodiscard]] static constexpr std::size_t container_size(const Container& container) noexcept {
+    if constexpr (requires {
+                    { container.size() } -> std::convertible_to<std::size_t>;
+                  }) {
+      return static_cast<std::size_t>(container.size());
+    } else {
+      return unknown_size;
+    }
+  }
+
   edge_storage_type begin_{};
   edge_storage_type end_{};
   vertex_desc       source_{};
-- 
2.43.0


From 7ed55b7ace711f004130a68c0e634b272f65c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 55/58] fix: kosaraju takes O(V + E) time and O(V) storage, as
 documented

---
 .../graph/algorithm/connected_components.hpp  | 116 ++++++++++--------
 1 file changed, 63 insertions(+), 53 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index db693d5..2eb0e12 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -151,34 +151,36 @@ void kosaraju(G&&        g,        // graph
 
   // Helper: iterative DFS to compute finish times (post-order)
   // This creates reverse topological ordering for SCC discovery
-  auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
-    stack.push({start, false});
+  // A frame keeps the place in the edges of its vertex, so the stack holds every vertex once at most
+  using inc_range_t = decltype(views::incidence(g, *find_vertex(g, std::declval<const vertex_id_t<G>&>())));
+  struct dfs_frame {
+    vertex_id_t<G>                       uid;
+    std::ranges::iterator_t<inc_range_t> it;
+    std::ranges::sentinel_t<inc_range_t> it_end;
+  };
+  std::stack<dfs_frame> finish_stack;
 
-    while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
+  auto visit = [&](const vertex_id_t<G>& uid) {
+    visited[uid]    = true;
+    auto edge_range = views::incidence(g_ref, *find_vertex(g_ref, uid));
+    finish_stack.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+  };
 
-      if (children_visited) {
+  auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
+    visit(start);
+    while (!finish_stack.empty()) {
+      auto& [uid, it, it_end] = finish_stack.top();
+      if (it == it_end) {
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else if (!visited[uid]) {
-        // A vertex is visited when it is taken from the stack, not when it is pushed: only then is the
-        // finish order that of a depth-first search
-        visited[uid] = true;
-
-        // Mark that we'll process this vertex after its children
-        // Re-push with children_visited=true to record finish time later
-        stack.push({uid, true});
-
-        // Push all unvisited neighbors onto stack
-        // They will be processed (and finish) before this vertex
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            stack.push({vid, false});
-          }
+        finish_stack.pop();
+      } else {
+        auto&& [vid, e] = *it;
+        const vertex_id_t<G> next = vid;
+        ++it;
+        if (!visited[next]) {
+          visit(next); // invalidates uid, it and it_end
         }
       }
     }
@@ -195,21 +197,23 @@ void kosaraju(G&&        g,        // graph
 
   // Second pass: DFS on transpose graph in reverse finish order
   // Each DFS tree in this pass corresponds to exactly one SCC
-  size_t                    cid = 0;
-  std::ranges::reverse_view reverse{order};
+  size_t                       cid = 0;
+  std::stack<vertex_id_t<GT>>  scc_stack;
+  std::ranges::reverse_view    reverse{order};
   for (auto& uid : reverse) {
     if (component[uid] == std::numeric_limits<CT>::max()) {
-      // Use DFS view on transpose to find all vertices in this SCC
       // In transpose: if u->v in original, v->u in transpose
       // So we find all vertices that can reach this root in original graph
-      graph::views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);
-      for (auto&& [v] : dfs) {
-        auto vid = vertex_id(g_t, v);
-        if (component[vid] != std::numeric_limits<CT>::max()) {
-          // Already assigned to SCC, skip this branch
-          dfs.cancel(graph::views::cancel_search::cancel_branch);
-        } else {
-          component[vid] = cid; // Assign to current SCC
+      component[uid] = cid;
+      scc_stack.push(uid);
+      while (!scc_stack.empty()) {
+        const auto current = scc_stack.top();
+        scc_stack.pop();
+        for (auto&& [vid, e] : views::incidence(g_t, *find_vertex(g_t, current))) {
+          if (component[vid] == std::numeric_limits<CT>::max()) {
+            component[vid] = cid; // Assign to current SCC
+            scc_stack.push(vid);
+          }
         }
       }
       ++cid; // Move to next SCC
@@ -282,28 +286,34 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto& g_ref = g;
 
   // First pass: iterative DFS to compute finish times (same as two-graph version)
-  auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack;
-    stack.push({start, false});
+  // A frame keeps the place in the edges of its vertex, so the stack holds every vertex once at most
+  using inc_range_t = decltype(views::incidence(g, *find_vertex(g, std::declval<const vertex_id_t<G>&>())));
+  struct dfs_frame {
+    vertex_id_t<G>                       uid;
+    std::ranges::iterator_t<inc_range_t> it;
+    std::ranges::sentinel_t<inc_range_t> it_end;
+  };
+  std::stack<dfs_frame> finish_stack;
 
-    while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
+  auto visit = [&](const vertex_id_t<G>& uid) {
+    visited[uid]    = true;
+    auto edge_range = views::incidence(g_ref, *find_vertex(g_ref, uid));
+    finish_stack.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+  };
 
-      if (children_visited) {
+  auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
+    visit(start);
+    while (!finish_stack.empty()) {
+      auto& [uid, it, it_end] = finish_stack.top();
+      if (it == it_end) {
         order.push_back(uid);
-      } else if (!visited[uid]) {
-        // A vertex is visited when it is taken from the stack, not when it is pushed: only then is the
-        // finish order that of a depth-first search
-        visited[uid] = true;
-
-        stack.push({uid, true});
-
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            stack.push({vid, false});
-          }
+        finish_stack.pop();
+      } else {
+        auto&& [vid, e] = *it;
+        const vertex_id_t<G> next = vid;
+        ++it;
+        if (!visited[next]) {
+          visit(next); // invalidates uid, it and it_end
         }
       }
     }
-- 
2.43.0


From 751a8c8270831a4bf077912fddc34f97a83a3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 56/58] fix: find_vertex keeps working for vertex containers
 without random access

---
 include/graph/adj_list/detail/graph_cpo.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 95657d0..6f90314 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -561,9 +561,17 @@ namespace _cpo_impls {
           using view_iterator = decltype(first);
           using diff_type     = std::iter_difference_t<view_iterator>;
           using vertices_type = std::remove_cvref_t<decltype(vertices(std::forward<G>(g)))>;
-          if constexpr (is_vertex_descriptor_view_v<vertices_type> && requires { requires std::integral<decltype((*first).value())>; }) {
-            // The iterator only holds the index of the vertex: there is no need to count up to it
-            return view_iterator{(*first).value() + static_cast<decltype((*first).value())>(uid)};
+          // The iterator of a vertex_descriptor_view over random access storage only holds the index of the
+          // vertex: there is no need to count up to it
+          constexpr bool holds_index = []() {
+            if constexpr (is_vertex_descriptor_view_v<vertices_type>) {
+              return std::is_integral_v<typename vertices_type::storage_type>;
+            } else {
+              return false;
+            }
+          }();
+          if constexpr (holds_index) {
+            return view_iterator{(*first).value() + static_cast<typename vertices_type::storage_type>(uid)};
           } else {
             return std::ranges::next(first, static_cast<diff_type>(uid));
           }
-- 
2.43.0


From 05f8725da0ba9543b7b9bd00dafe386727e21de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 57/58] fix: edges(g, uid) and in_edges(g, uid) do not copy
 rows that a free function returns by reference

---
 include/graph/adj_list/detail/graph_cpo.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 6f90314..089a359 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -794,7 +794,8 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           // ADL: edges(g, uid)
-          auto result = [&g, &uid]() {
+          // keep references: a view of a copy of the edges would dangle
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -802,7 +803,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_if_needed(std::move(result), v);
+          return _wrap_if_needed(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call edges(g, u)
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
@@ -1009,7 +1010,7 @@ namespace _cpo_impls {
         using _VId = std::remove_cvref_t<VId>;
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
-          auto result = [&g, &uid]() {
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return in_edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -1017,7 +1018,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_in_edge(std::move(result), v);
+          return _wrap_in_edge(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
-- 
2.43.0


From 00158074df4f977f9406e9ed8051c57238cfb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 58/58] fix: source_id and edge_value accept free functions
 that take the graph by non-const reference

---
 include/graph/detail/edge_cpo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index cf9d5ca..8178cf2 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -267,9 +267,9 @@ namespace _cpo_impls {
       if constexpr (_has_native_edge_member<G, E>) {
         return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
       } else if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().source_id(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(source_id(std::declval<G&>(), std::declval<const E&>()))};
       } else if constexpr (_has_adj_list_descriptor<E>) {
         return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id())};
       } else if constexpr (_has_edge_list_descriptor<E>) {
@@ -442,9 +442,9 @@ namespace _cpo_impls {
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().edge_value(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().edge_value(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(edge_value(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(edge_value(std::declval<G&>(), std::declval<const E&>()))};
       } else if constexpr (_has_value_fn<G, E>) {
         return {_St::_value_fn, noexcept(std::declval<const E&>().value())};
       } else if constexpr (_has_adj_list_descriptor<G, E>) {
-- 
2.43.0

