---- MODULE DijkstraTrace ----
(* Callbacks of one run, each an enabled action of Dijkstra, and the final distances. *)
EXTENDS Dijkstra, TraceBase
vars == <<jvars, ep, i>>
g == T.g
Init == TBInit /\ DjInit(g, T.S)
IsArc(k, e) == g.E[k] = <<e[2], e[3], e[4]>>
Step(e) ==
  \/ e[1] = "i" /\ InitializeV(g, e[2])
  \/ e[1] = "d" /\ Discover(g, e[2])
  \/ e[1] = "x" /\ Examine(g, e[2])
  \/ e[1] = "e" /\ \E k \in rem : IsArc(k, e) /\ ExamineEdge(g, k)
  \/ e[1] = "r" /\ pend # 0 /\ IsArc(pend, e) /\ Relaxed(g, pend)
  \/ e[1] = "nr" /\ pend # 0 /\ IsArc(pend, e) /\ NotRelaxed(g, pend)
  \/ e[1] = "f" /\ Finish(e[2])
  \/ /\ e[1] = "end" /\ Ended(g) /\ UNCHANGED jvars
     /\ \A v \in V(g) : Dv(T.d, v) = dist[v]
     /\ \A j \in DOMAIN T.subs : ProjectionOK(SubSeq(Evs, 1, Len(Evs) - 1), T.subs[j])
     /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
