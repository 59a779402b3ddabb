---- MODULE TopoTrace ----
(* Answers of one call, judged by the definition of Topo. *)
EXTENDS Topo, TraceBase
vars == <<tvars, ep, i>>
g == T.g
Init == TBInit /\ TInit(g, T.all = 1, T.S)
Step(e) ==
  \/ e[1] = "o" /\ Output(g, e[2])
  \/ e[1] = "ok" /\ Complete /\ T.pre = T.post /\ UNCHANGED tvars
  \/ e[1] = "cycle" /\ Cyclic(g, part) /\ T.pre = T.post /\ UNCHANGED tvars
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
