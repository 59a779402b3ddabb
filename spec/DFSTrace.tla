---- MODULE DFSTrace ----
(* Callbacks of one run, each an enabled action of DFS. *)
EXTENDS DFS, TraceBase
vars == <<dvars, ep, i>>
g == T.g
Init == TBInit /\ DInit
IsArc(k, e) == g.E[k] = <<e[2], e[3], e[4]>>
Step(e) ==
  \/ e[1] = "i" /\ Initialize(T.s, e[2])
  \/ e[1] = "s" /\ Start(T.s, e[2])
  \/ e[1] = "d" /\ Discover(g, T.s, e[2])
  \/ e[1] = "e" /\ ph = "top" /\ stk # << >> /\ \E k \in TopRem : IsArc(k, e) /\ ExamineEdge(k)
  \/ e[1] \in {"tree", "back", "fwd"} /\ pend # 0 /\ IsArc(pend, e) /\ Classify(g, pend, e[1])
  \/ e[1] = "fe" /\ pend # 0 /\ IsArc(pend, e) /\ FinishEdge(g, pend)
  \/ e[1] = "f" /\ FinishVertex(e[2])
  \/ /\ e[1] = "end" /\ Ended /\ UNCHANGED dvars
     /\ \A j \in DOMAIN T.subs : ProjectionOK(SubSeq(Evs, 1, Len(Evs) - 1), T.subs[j])
     /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
