---- MODULE PathsTrace ----
(* Results of the shortest-path algorithms: one call per episode. *)
EXTENDS Paths, TraceBase
vars == <<ep, i>>
g == T.g
Init == TBInit
S == Range(T.S)
SameDist(d) == \A v \in V(g) : Dv(d, v) = Dv(T.d, v)
\* a closed walk through distinct vertices c: least total weight over the choice of parallel arcs
ArcsFromTo(u, v) == {k \in Out(g, u) : Dst(g, k) = v}
CycleWeight(c) == LET n == Len(c) best(j) == LET A == ArcsFromTo(c[j], c[IF j = n THEN 1 ELSE j + 1]) IN
                      IF A = {} THEN 1000000 ELSE Min({Wt(g, k) : k \in A})
                  IN SumSeq([j \in 1..n |-> best(j)])
Step(e) ==
  \/ /\ e[1] = "dijkstra"
     /\ ShortestOK(g, S, T.d, T.p)
     /\ \A s \in S : Dv(T.p, s) = s /\ Dv(T.d, s) = 0
     /\ \A j \in DOMAIN T.ds : SameDist(T.ds[j])
  \/ /\ e[1] = "bf"
     /\ IF T.res = -1 THEN ShortestOK(g, S, T.d, T.p) /\ \A j \in DOMAIN T.ds : SameDist(T.ds[j])
        ELSE T.res \in V(g) /\ NegCycleReachable(g, S)
     /\ \A j \in DOMAIN T.rs : (T.rs[j] = -1) = (T.res = -1)    \* the other forms agree
  \/ /\ e[1] = "cycle"
     /\ IF T.res = -1 THEN T.c = << >>
        ELSE LET c == T.c IN   \* listed along or against the direction of its arcs
             c # << >> /\ Range(c) \subseteq V(g) /\ NoDup(c) /\ (CycleWeight(Rev(c)) < 0 \/ CycleWeight(c) < 0)
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
