---- MODULE Work ----
(* What one call may cost on a graph of n vertices and m edges: steps of work (basic blocks executed, and an eighth of the bytes asked for),  *)
(* bytes of storage held at the same time, and depth of the call stack.  Unit gives the documented order of growth of every call, the        *)
(* factors turn it into a bound with room for another way of writing the same thing, but not for another order of growth.                    *)
EXTENDS Naturals, Sequences
Top == 2000000000
Times(a, b) == IF b = 0 THEN 0 ELSE IF a > Top \div b THEN Top ELSE a * b
Plus(a, b) == IF a > Top - b THEN Top ELSE a + b
Least2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Lg(_)
Lg(x) == IF x <= 1 THEN 1 ELSE 1 + Lg(x \div 2)
\* r.n vertices, r.m edges, r.dmax greatest degree, r.smin sum over the edges of the smaller degree of their ends, r.nr and r.mr vertices and edges
\* reached from the last vertex, r.deg degree of the vertex in question, r.it rounds or calls, r.vk and r.ek containers of vertices and edges
All(r) == r.n + r.m
Sorted(r) == Times(r.n + r.m, Lg(r.n + r.m))
Look(r) == IF r.vk = "map" THEN Lg(r.n) ELSE 1     \* to get at a vertex by its id
Linear == {"bfs", "dfs", "cc", "scc", "art", "blocks", "mis", "af", "topo"}
Bys == Linear \union {"topofrom", "dijkstra", "prim", "kruskal", "inplace", "bf", "cycle", "lp", "jac", "tri"}
\* access that has to be immediate, whatever the size of the graph and the degree of the vertex
Direct == {"num_vertices", "num_edges", "has_edges", "vertices", "vertex_id", "vertex_value", "edges", "target_id", "edge_value", "source_id", "source", "in_edges", "num_partitions",
           "move", "swap", "erase_edge", "add_edge", "make"}
ById == {"find_vertex", "edges_by_id", "target"}
Degrees == {"degree", "degree_by_id", "in_degree"}
RowWise == {"row", "find_edge", "contains_edge", "find_in_edge", "contains_in_edge", "each_of_row"}
Whole == {"walk", "count_edges", "copy", "assign", "move_assign", "clear", "each_edge", "search_view", "make_order"}
Vertexwise == {"seek_edges", "each_vertex", "make_search"}
Calls == Bys \union Direct \union ById \union Degrees \union RowWise \union Whole \union Vertexwise \union {"load", "add_vertices", "add_edges", "find_keyed_edge"}
Unit(k, r) ==
  CASE k \in Linear \/ k \in Whole -> All(r)
    [] k = "topofrom" -> r.n + r.mr
    [] k \in {"dijkstra", "prim", "kruskal", "inplace", "load"} -> Sorted(r)
    [] k = "bf" -> r.n + Times(r.n, r.m)
    [] k = "cycle" \/ k \in Vertexwise -> r.n
    [] k = "lp" -> Times(All(r), r.it + 1)
    [] k = "jac" -> Plus(All(r), r.smin)
    [] k = "tri" -> Plus(All(r), Times(r.n, Times(r.dmax, r.dmax)))
    [] k \in Direct -> 1
    [] k \in ById -> Look(r)
    [] k \in Degrees -> Look(r) + (IF r.ek = "forward" THEN r.deg ELSE 0)
    [] k \in RowWise -> Look(r) + r.deg
    [] k \in {"add_vertices", "add_edges"} -> r.it
    [] k = "find_keyed_edge" -> IF r.ek = "set" THEN Lg(r.deg + 1) ELSE 1
Factor == [bfs |-> 80, dfs |-> 130, cc |-> 80, scc |-> 450, art |-> 200, blocks |-> 500, mis |-> 120, af |-> 220, topo |-> 500, topofrom |-> 20, dijkstra |-> 16, prim |-> 16,
           kruskal |-> 30, inplace |-> 30, bf |-> 50, cycle |-> 50, lp |-> 200, jac |-> 200, tri |-> 60]
FactorOf(k) == IF k \in Bys THEN Factor[k]
               ELSE IF k = "load" THEN 80
               ELSE IF k \in {"copy", "assign", "search_view", "make_order"} THEN 500
               ELSE IF k \in {"move_assign", "clear"} THEN 200
               ELSE IF k \in ById \union Degrees THEN 40
               ELSE 80
Steps(k, r) == Plus(Times(FactorOf(k), Unit(k, r)), IF k \in Bys \union Whole \union {"load", "make_search"} THEN 3000 ELSE 1200)
\* storage: in proportion to vertices and edges, to the vertices, or none
InAll == {"blocks", "jac", "kruskal", "load", "copy", "assign", "dijkstra", "prim"}
InVertices == {"bfs", "dfs", "cc", "scc", "art", "mis", "af", "topo", "topofrom", "inplace", "lp", "add_vertices", "search_view", "make_search", "make_order", "keyed_queue"}
Bytes(k, r) == IF k \in InAll THEN Plus(8192, Times(2000, All(r)))
               ELSE IF k = "add_edges" THEN Plus(8192, Times(400, r.it))
               ELSE IF k \in {"bfs", "cc", "mis", "af"} THEN Plus(4096, Times(100, r.n))
               ELSE IF k \in InVertices THEN Plus(8192, Times(300, r.n))
               ELSE 2048
Stack == 32768
Within(k, r, steps, bytes, stack) == steps <= Steps(k, r) /\ bytes <= Bytes(k, r) /\ stack <= Stack
====
