---- MODULE BFTrace ----
(* Callbacks of one run, each an enabled action of BF, and its answer. *)
EXTENDS BF, TraceBase
vars == <<fvars, ep, i>>
g == T.g
Init == TBInit /\ BFInit(g, T.S)
IsArc(k, e) == g.E[k] = <<e[2], e[3], e[4]>>
Step(e) ==
  \/ e[1] = "d" /\ DiscoverSource(g, e[2])
  \/ e[1] = "e" /\ \E k \in Arcs(g) : IsArc(k, e) /\ ExamineEdge(g, k)
  \/ e[1] = "r" /\ pend # 0 /\ IsArc(pend, e) /\ Relaxed(g, pend)
  \/ e[1] = "nr" /\ pend # 0 /\ IsArc(pend, e) /\ NotRelaxed(g, pend)
  \/ e[1] = "m" /\ \E k \in Arcs(g) : IsArc(k, e) /\ Minimized(g, k)
  \/ e[1] = "nm" /\ \E k \in Arcs(g) : IsArc(k, e) /\ NotMinimized(g, k)
  \/ /\ e[1] = "end" /\ UNCHANGED fvars
     /\ IF T.res = -1 THEN Settled(g) /\ \A v \in V(g) : Dv(T.d, v) = dist[v] ELSE T.res = res
     /\ \A j \in DOMAIN T.subs : ProjectionOK(SubSeq(Evs, 1, Len(Evs) - 1), T.subs[j])
     /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
