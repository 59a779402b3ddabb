---- MODULE BigTrace ----
(* One call, view or container on one large member of a family; every answer is the closed form. *)
EXTENDS Big, TraceBase
vars == <<ep, i>>
f == T.fam
n == T.n
Init == TBInit
Bool(x) == x = 1
Steps(s) == \A j \in DOMAIN s : s[j] = j - 1
Step(e) ==
  \/ e[1] = "bfs" /\ (BfsOK(f, n, e[2])) = TRUE
  \/ e[1] = "dfs" /\ (DfsOK(f, n, e[2], e[3])) = TRUE
  \/ e[1] = "topo" /\ (TopoOK(f, n, Bool(e[2]), e[3])) = TRUE
  \/ e[1] = "sp" /\ (PathOK(f, n, e[2], e[3])) = TRUE
  \/ e[1] = "bf" /\ (e[2] = -1 /\ PathOK(f, n, e[3], e[4])) = TRUE
  \/ e[1] = "scc" /\ (SccBig(f, n, e[2])) = TRUE
  \/ e[1] = "cc" /\ (CcBig(f, n, e[2], e[3])) = TRUE
  \/ e[1] = "af" /\ (AfBig(f, n, e[2])) = TRUE
  \/ e[1] = "art" /\ (ArtBig(f, n, e[2])) = TRUE
  \/ e[1] = "blocks" /\ (BlocksBig(f, n, e[2])) = TRUE
  \/ e[1] = "kruskal" /\ (e[2] = TreeW(f, n) /\ e[3] = NCc(f, n) /\ e[4] = NV_(f, n) - NCc(f, n)) = TRUE
  \/ e[1] = "prim" /\ (e[2] = TreeW0(f, n)) = TRUE
  \/ e[1] = "mis" /\ (MisBig(f, n, e[2], e[3])) = TRUE
  \/ e[1] = "tri" /\ (e[2] = NTri(f, n)) = TRUE
  \/ e[1] = "jac" /\ (JacBig(f, n, e[2])) = TRUE
  \/ e[1] = "lp" /\ (LpBig(f, n, e[2])) = TRUE
  \* storage: numbers, ids of vertices, all edges, degrees, the row of the first vertex, incoming edges of the last vertex
  \/ e[1] = "num" /\ (e[2] = NV_(f, n) /\ e[3] = NE_(f, n)) = TRUE
  \/ e[1] = "vl" /\ (Len(e[2]) = NV_(f, n) /\ IF T.sorted = 1 THEN Steps(e[2]) ELSE NoDup(e[2]) /\ Range(e[2]) \subseteq Vs(f, n)) = TRUE
  \/ e[1] = "el" /\ (Len(e[2]) = NE_(f, n) /\ IF T.sorted = 1 THEN ListOK(f, n, T.ord, e[2]) ELSE NoDup(e[2]) /\ Range(e[2]) \subseteq 0..(NE_(f, n) - 1)) = TRUE
  \/ e[1] = "deg" /\ (Len(e[2]) = NV_(f, n) /\ \A v \in Vs(f, n) : e[2][v + 1] = Deg(f, n, v)) = TRUE
  \/ e[1] = "indeg" /\ (Len(e[2]) = NV_(f, n) /\ \A v \in Vs(f, n) : e[2][v + 1] = InDeg(f, n, v)) = TRUE
  \/ e[1] = "ends" /\ (Len(e[2]) = NE_(f, n) /\ \A j \in DOMAIN e[2] : <<e[2][j][1], e[2][j][2]>> = A(f, n, e[2][j][3])) = TRUE
  \* an undirected graph shows every edge at both ends
  \/ e[1] = "udeg" /\ (Len(e[2]) = NV_(f, n) /\ \A v \in Vs(f, n) : e[2][v + 1] = Deg(f, n, v) + InDeg(f, n, v)) = TRUE
  \/ e[1] = "unum" /\ (e[2] = NV_(f, n) /\ e[3] = NE_(f, n)) = TRUE
  \* parts of a partition: every third of the vertices
  \/ e[1] = "parts" /\ (e[2] = [j \in 1..Len(e[2]) |-> IF j < Len(e[2]) THEN e[3] ELSE NV_(f, n) - (Len(e[2]) - 1) * e[3]]) = TRUE
  \* after a removal of all edges
  \/ e[1] = "cleared" /\ (e[2] = 0 /\ e[3] = 0) = TRUE
  \* counts of views: levels of a breadth-first search, greatest height of the stack, vertices after the first
  \/ e[1] = "bfssize" /\ (e[2] = MaxLev(f, n) /\ e[3] = NReached(f, n) - 1) = TRUE
  \/ e[1] = "dfssize" /\ (e[2] = MaxStack(f, n) /\ e[3] = NReached(f, n) - 1) = TRUE
  \* single edges: <<u, v, there is one, its value, id of the vertex found for v>>
  \/ e[1] = "has" /\ (\A j \in DOMAIN e[2] : HasOK(f, n, e[2][j], FALSE)) = TRUE
  \/ e[1] = "uhas" /\ (\A j \in DOMAIN e[2] : HasOK(f, n, e[2][j], TRUE)) = TRUE
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
