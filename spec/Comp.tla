---- MODULE Comp ----
(* Component labellings: comp[v+1] is the label of vertex v. *)
EXTENDS Graphs
Cv(c, v) == c[v + 1]
RevG(g) == [g EXCEPT !.E = [k \in DOMAIN g.E |-> <<g.E[k][2], g.E[k][1], g.E[k][3]>>],
                     !.adj = [u1 \in DOMAIN g.adj |-> SelectSeq([k \in 1..Len(g.E) |-> k], LAMBDA k : g.E[k][2] = u1 - 1)]]
\* every arc seen from both ends
BothG(g) == [g EXCEPT !.adj = [u1 \in DOMAIN g.adj |-> SelectSeq([k \in 1..Len(g.E) |-> k], LAMBDA k : g.E[k][2] = u1 - 1 \/ g.E[k][1] = u1 - 1)]]
Peer(g, k, u) == IF Src(g, k) = u THEN Dst(g, k) ELSE Src(g, k)
Labels(g, c) == {Cv(c, v) : v \in V(g)}
\* one representative (the least vertex) of each label
Rep(g, c, x) == Min({v \in V(g) : Cv(c, v) = x})
Dense(g, c) == Labels(g, c) = 0..(Cardinality(Labels(g, c)) - 1)
Class(g, c, x) == {v \in V(g) : Cv(c, v) = x}
\* same label <=> mutually reachable
SccClasses(g, c) == LET h == RevG(g) IN
  \A x \in Labels(g, c) : LET r == Rep(g, c, x) IN Class(g, c, x) = Reach(g, {r}) \cap Reach(h, {r})
SccOK(g, c) == Dense(g, c) /\ SccClasses(g, c)
\* same label <=> joined by a path of edges in whatever direction
UClasses(g, c) == LET rev == RevAdj(g) IN
  \A x \in Labels(g, c) : LET r == Rep(g, c, x) IN Class(g, c, x) = UReachR(g, rev, {r}, {r})
CcOK(g, c, count) == Dense(g, c) /\ count = Cardinality(Labels(g, c)) /\ UClasses(g, c)
AfOK(g, c) == UClasses(g, c) /\ \A x \in Labels(g, c) : x \in V(g) /\ Cv(c, x) = x
NumCC(g, c) == Cardinality(Labels(g, c))
====
