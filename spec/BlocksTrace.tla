---- MODULE BlocksTrace ----
(* Answers of one call, judged by the definitions of Blocks. *)
EXTENDS Blocks, TraceBase
vars == <<ep, i>>
g == T.g
Init == TBInit
Step(e) ==
  \/ e[1] = "art" /\ ArtOK(g, T.out)
  \/ e[1] = "blocks" /\ BlocksOK(g, T.sets)
  \/ e[1] = "same" /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
