---- MODULE Blocks ----
(* Articulation points and blocks of an undirected graph (each edge stored as two arcs with one id). *)
EXTENDS Graphs
\* vertices reachable from R without entering v
RECURSIVE AvoidR(_, _, _, _)
AvoidR(g, v, fr, seen) ==
  IF fr = {} THEN seen
  ELSE LET nx == (UNION {Succ(g, u) : u \in fr} \ seen) \ {v} IN AvoidR(g, v, nx, seen \cup nx)
Nbrs(g, v) == Succ(g, v) \ {v}
\* the neighbours of v, grouped by the component of g - v they lie in
RECURSIVE GroupR(_, _, _)
GroupR(g, v, todo) ==
  IF todo = {} THEN {}
  ELSE LET u == Min(todo) c == AvoidR(g, v, {u}, {u}) IN {c \cap Nbrs(g, v)} \cup GroupR(g, v, todo \ c)
Groups(g, v) == GroupR(g, v, Nbrs(g, v))
CutVertices(g) == {v \in V(g) : Cardinality(Groups(g, v)) > 1}
ArtOK(g, out) == NoDup(out) /\ Range(out) = CutVertices(g)

\* sets: a sequence of vertex sequences
RECURSIVE InsideR(_, _, _, _)
InsideR(g, X, fr, seen) ==
  IF fr = {} THEN seen
  ELSE LET nx == (UNION {Succ(g, u) : u \in fr} \cap X) \ seen IN InsideR(g, X, nx, seen \cup nx)
\* blocks are determined by: at every vertex the sets group its neighbours as the components of g - v do, every set is
\* connected, every edge lies in exactly one set, vertices without neighbours form a set of their own
BlocksOK(g, sets) ==
  LET X == [j \in DOMAIN sets |-> Range(sets[j])]
      has == [v \in V(g) |-> {j \in DOMAIN sets : v \in X[j]}]
  IN /\ \A j \in DOMAIN sets : NoDup(sets[j]) /\ X[j] # {} /\ X[j] \subseteq V(g)
     /\ \A v \in V(g) : IF Nbrs(g, v) = {} THEN \E j \in DOMAIN sets : has[v] = {j} /\ X[j] = {v}
                         ELSE /\ {X[j] \cap Nbrs(g, v) : j \in has[v]} = Groups(g, v)
                              /\ Cardinality(has[v]) = Cardinality(Groups(g, v))
     /\ \A j \in DOMAIN sets : Len(sets[j]) > 1 => InsideR(g, X[j], {sets[j][1]}, {sets[j][1]}) = X[j]
====
