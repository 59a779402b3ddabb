---- MODULE Nbr ----
(* Neighbourhood algorithms: maximal independent set, triangles, Jaccard coefficients. *)
EXTENDS Graphs
Loop(g, v) == v \in Succ(g, v)
Others(g, v) == Succ(g, v) \ {v}
\* ------- maximal independent set
MisOK(g, seed, out, count) ==
  LET M == Range(out) IN
  /\ NoDup(out) /\ count = Len(out) /\ M \subseteq V(g)
  /\ \A v \in M : ~Loop(g, v) /\ Succ(g, v) \cap M = {}
  /\ \A v \in V(g) \ M : Loop(g, v) \/ Succ(g, v) \cap M # {}
  /\ g.n > 0 => (seed \in M <=> ~Loop(g, seed))
\* ------- triangles
Triangles(g) == LET nb == [v \in V(g) |-> Others(g, v)] IN
  SumSeq([v1 \in 1..g.n |-> Cardinality({e \in {y \in nb[v1 - 1] : y > v1 - 1} \X {y \in nb[v1 - 1] : y > v1 - 1} : e[1] < e[2] /\ e[2] \in nb[e[1]]})])
\* ------- Jaccard: the callback (u, v, edge id, value scaled by Scale)
Scale == 100000
JVal(g, u, v, x) == LET a == Others(g, u) b == Others(g, v) un == Cardinality(a \cup b) IN
  IF un = 0 THEN x = 0 ELSE LET d == x * un - Scale * Cardinality(a \cap b) IN 2 * d <= 2 * un /\ -2 * d <= 2 * un
====
