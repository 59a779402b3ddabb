---- MODULE Paths ----
(* What shortest-path results mean.  d and p are sequences indexed by vertex id + 1; Inf stands for "unreached". *)
EXTENDS Graphs
Inf == -1000000007
Dv(d, v) == d[v + 1]
\* vertices whose predecessor chain reaches a root over tight arcs
TightArc(g, d, p, v) == \E k \in Out(g, Dv(p, v)) : Dst(g, k) = v /\ Dv(d, v) = Dv(d, Dv(p, v)) + Wt(g, k)
RECURSIVE Rooted(_, _, _)
Rooted(ch, fr, ok) == IF fr = {} THEN ok
                      ELSE LET nx == UNION {ch[u] : u \in fr} \ ok IN Rooted(ch, nx, ok \cup nx)
ShortestOK(g, S, d, p) ==
  LET R     == Reach(g, S)
      roots == {s \in S : Dv(p, s) = s /\ Dv(d, s) = 0}
      ch    == [u \in V(g) |-> {v \in R : Dv(p, v) = u /\ v # u}]
  IN /\ \A v \in V(g) : Dv(p, v) \in V(g)
     /\ \A v \in V(g) : (Dv(d, v) = Inf) = (v \notin R)
     /\ \A v \in V(g) \ R : Dv(p, v) = v
     /\ \A s \in S : Dv(d, s) <= 0
     /\ \A k \in Arcs(g) : Src(g, k) \in R => Dv(d, Dst(g, k)) <= Dv(d, Src(g, k)) + Wt(g, k)
     /\ \A v \in R \ roots : Dv(p, v) # v /\ Dv(p, v) \in R /\ TightArc(g, d, p, v)
     /\ Rooted(ch, roots, roots) = R
\* independent definition by relaxation: after k rounds, the least weight of a path with at most k arcs
RECURSIVE RelaxArcs(_, _, _)
RelaxArcs(g, k, f) ==
  IF k > Len(g.E) THEN f
  ELSE LET u == Src(g, k) v == Dst(g, k) IN
       RelaxArcs(g, k + 1, IF f[u] # Inf /\ (f[v] = Inf \/ f[u] + Wt(g, k) < f[v]) THEN [f EXCEPT ![v] = f[u] + Wt(g, k)] ELSE f)
RECURSIVE RelaxN(_, _, _)
RelaxN(g, n, f) == IF n = 0 THEN f ELSE LET h == RelaxArcs(g, 1, f) IN IF h = f THEN f ELSE RelaxN(g, n - 1, h)
Start(g, S) == [v \in V(g) |-> IF v \in S THEN 0 ELSE Inf]
DistN(g, S) == RelaxN(g, g.n, Start(g, S))
NegCycleReachable(g, S) == LET f == RelaxN(g, g.n, Start(g, S)) IN RelaxArcs(g, 1, f) # f
====
