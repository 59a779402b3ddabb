---- MODULE NbrTrace ----
(* Answers and callbacks of one call, judged by the definitions of Nbr. *)
EXTENDS Nbr, TraceBase
VARIABLE left    \* arcs whose Jaccard callback is still due
vars == <<left, ep, i>>
g == T.g
Init == TBInit /\ left = IF T.k = "jaccard" THEN {k \in Arcs(g) : Src(g, k) # Dst(g, k)} ELSE {}
Step(e) ==
  \/ e[1] = "mis" /\ MisOK(g, T.seed, T.out, T.count) /\ UNCHANGED left
  \/ e[1] = "tri" /\ T.count = Triangles(g) /\ UNCHANGED left
  \* <<"j", u, v, source of the edge, target of the edge, edge id, value>>
  \/ /\ e[1] = "j" /\ e[2] = e[4] /\ e[3] = e[5] /\ JVal(g, e[2], e[3], e[7])
     /\ \E k \in left : g.E[k] = <<e[4], e[5], e[6]>> /\ left' = left \ {k}
  \/ e[1] = "end" /\ left = {} /\ UNCHANGED left
  \/ e[1] = "same" /\ T.pre = T.post /\ UNCHANGED left
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
