---- MODULE BFSTrace ----
(* Callbacks of one run, each an enabled action of BFS. *)
EXTENDS BFS, TraceBase
vars == <<bvars, ep, i>>
g == T.g
Init == TBInit /\ BInit(g, T.S)
Step(e) ==
  \/ e[1] = "i" /\ Initialize(g, e[2])
  \/ e[1] = "d" /\ Discover(g, e[2])
  \/ e[1] = "x" /\ Examine(g, e[2])
  \/ e[1] = "e" /\ \E k \in rem : g.E[k] = <<e[2], e[3], e[4]>> /\ ExamineEdge(g, k)
  \/ e[1] = "f" /\ Finish(g, e[2])
  \/ /\ e[1] = "end" /\ Ended /\ UNCHANGED bvars
     /\ \A j \in DOMAIN T.subs : ProjectionOK(SubSeq(Evs, 1, Len(Evs) - 1), T.subs[j])
     /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
