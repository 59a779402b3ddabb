---- MODULE CompTrace ----
(* Labels and count of one call, judged by the definitions of Comp. *)
EXTENDS Comp, TraceBase
vars == <<ep, i>>
g == T.g
Init == TBInit
Step(e) ==
  \/ e[1] = "scc" /\ SccOK(g, T.c)
  \/ e[1] = "cc" /\ CcOK(g, T.c, T.count)
  \/ e[1] = "af" /\ AfOK(g, T.c)
  \/ e[1] = "same" /\ T.pre = T.post      \* the graph is as before
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
