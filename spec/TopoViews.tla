---- MODULE TopoViews ----
(* The topological views of a graph.  A pass over the vertex view gives the vertices, each after all vertices with an  *)
(* arc to it; a pass over the edge view gives all edges leaving a vertex together, each such group after all edges     *)
(* that enter the vertex.  A pass that is cancelled is the beginning of such a sequence.  On a graph with a cycle the  *)
(* forms that do not look for cycles give everything once, in some order.                                              *)
(* As = sequence of arcs <<from, to, tag>> (equal ones possible).                                                      *)
EXTENDS Integers, Sequences, FiniteSets
Idx(q) == 1..Len(q)
Occ(q, x) == Cardinality({j \in Idx(q) : q[j] = x})
\* ---- declarative
IsVPass(ids, As, dag, q, all) ==
  /\ \A j \in Idx(q) : \E v \in Idx(ids) : ids[v] = q[j]
  /\ Cardinality({q[j] : j \in Idx(q)}) = Len(q)
  /\ all => Len(q) = Len(ids)
  /\ dag => \A k \in Idx(As) : \A j \in Idx(q) : q[j] = As[k][2] => \E l \in 1..(j - 1) : q[l] = As[k][1]
IsEPass(As, dag, q, all) ==
  /\ \A j \in Idx(q) : Occ(q, q[j]) <= Occ(As, q[j])
  /\ all => Len(q) = Len(As)
  \* in groups: what is given between two edges of a vertex are edges of it, and a group is finished before the next
  /\ \A j, k \in Idx(q) : j < k /\ q[j][1] = q[k][1] => \A l \in j..k : q[l][1] = q[j][1]
  /\ \A j \in Idx(q) : j < Len(q) /\ q[j][1] # q[j + 1][1] =>
        Cardinality({l \in Idx(q) : q[l][1] = q[j][1]}) = Cardinality({k \in Idx(As) : As[k][1] = q[j][1]})
  /\ dag => \A j \in Idx(q) : \A k \in Idx(As) : As[k][2] = q[j][1] => \E l \in 1..(j - 1) : q[l] = As[k]
\* ---- cycles: v is on one iff it is reachable from one of its successors
RECURSIVE Grow(_, _)
Grow(As, R) == LET S == R \cup {As[k][2] : k \in {j \in Idx(As) : As[j][1] \in R}} IN IF S = R THEN R ELSE Grow(As, S)
OnCycle(As, v) == v \in Grow(As, {As[k][2] : k \in {j \in Idx(As) : As[j][1] = v}})
\* acyclic: taking away the vertices into which no arc of what is left goes leaves nothing
RECURSIVE Core(_, _)
Core(As, P) == LET Q == {v \in P : \E k \in Idx(As) : As[k][2] = v /\ As[k][1] \in P} IN IF Q = P THEN P ELSE Core(As, Q)
Acyclic(ids, As) == Core(As, {ids[j] : j \in Idx(ids)}) = {}
====
