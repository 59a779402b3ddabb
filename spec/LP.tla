---- MODULE LP ----
(* Asynchronous label propagation: sweeps over all vertices in any order, ties broken in any way.                       *)
(* A sweep state is a record: done = vertices given a new label in this sweep, ok = vertices whose visit may have left    *)
(* the label alone at some moment of this sweep, n = complete sweeps, quiet = the last complete sweep changed nothing.     *)
EXTENDS Graphs
Lv(l, v) == l[v + 1]
NbrLabels(l, g, v, empty) == {Lv(l, t) : t \in Succ(g, v)} \ {empty}
Votes(l, g, v, x) == Cardinality({k \in Out(g, v) : Lv(l, Dst(g, k)) = x})
Modes(l, g, v, empty) == LET L == NbrLabels(l, g, v, empty) c == [x \in L |-> Votes(l, g, v, x)]
                         IN {x \in L : \A y \in L : c[y] <= c[x]}
MayKeep(l, g, v, empty) == LET m == Modes(l, g, v, empty) IN m = {} \/ Lv(l, v) \in m
Keepers(l, g, empty) == {v \in V(g) : MayKeep(l, g, v, empty)}
Start(l0, g, empty) == [done |-> {}, ok |-> Keepers(l0, g, empty), n |-> 0, quiet |-> FALSE]
\* v gets label x: allowed in sweep state s?
MaySet(s, l, g, v, x, empty) == v \notin s.done /\ ~s.quiet /\ x \in Modes(l, g, v, empty)
SetLab(l, v, x) == [l EXCEPT ![v + 1] = x]
\* l2: labels after the assignment; only vertices with an edge to v (or v itself) can become content with their label
AfterSet(s, l2, g, v, empty) ==
  [s EXCEPT !.done = @ \cup {v}, !.ok = @ \cup {u \in V(g) : (u = v \/ v \in Succ(g, u)) /\ MayKeep(l2, g, u, empty)}]
Complete(s, g) == V(g) \ s.done \subseteq s.ok
EndSweep(s, l, g, empty) == [done |-> {}, ok |-> Keepers(l, g, empty), n |-> s.n + 1, quiet |-> s.done = {}]
\* may the run return in state s, under iteration limit k?
MayReturn(s, g, k) ==
  \/ g.n = 0
  \/ s.n = k /\ s.done = {}
  \/ s.quiet
  \/ s.n + 1 = k /\ Complete(s, g)
  \/ s.n + 1 <= k /\ Complete(s, g) /\ s.done = {}
Stable(l, g, empty) == \A v \in V(g) : MayKeep(l, g, v, empty)
====
