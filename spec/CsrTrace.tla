---- MODULE CsrTrace ----
(* Histories of compressed graphs (registers 1..T.nreg), observed after each step.                             *)
EXTENDS Csr, TraceBase
VARIABLES reg            \* register -> <<graph>>, or << >>: not to be observed
vars == <<ep, i, reg>>
Init == TBInit /\ reg = [r \in 1..T.nreg |-> << >>]
Live(r) == reg[r] # << >>
Gr(r) == reg[r][1]
Put1(r, x) == reg' = [reg EXCEPT ![r] = <<x>>]
Drop(r) == reg' = [reg EXCEPT ![r] = << >>]
Build(e, S) == IF PartsOK(S, e[5]) THEN e[7] = "ok" /\ Put1(e[2], WithParts(SetGV(S, e[6]), e[5])) ELSE e[7] = "throw" /\ Drop(e[2])
Step(e) ==
  \/ e[1] = "new" /\ Put1(e[2], SetGV(C0, e[3]))
  \* <<"build", r, edges, vertices (sequence in a sequence, if given), partition starts, graph value, outcome>>
  \/ e[1] = "build" /\ Sorted(e[3]) /\
       LET S1 == CsrLoadEdges(C0, e[3], 0) IN Build(e, IF e[4] = << >> THEN S1 ELSE CsrLoadVertices(S1, e[4][1], 0))
  \/ e[1] = "le" /\ Live(e[2]) /\ Gr(e[2]).ne = 0 /\ Sorted(e[3]) /\ Put1(e[2], CsrLoadEdges(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "lv" /\ Live(e[2]) /\ Put1(e[2], CsrLoadVertices(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "clear" /\ Live(e[2]) /\ Put1(e[2], CsrClear(Gr(e[2])))
  \/ e[1] = "copy" /\ Live(e[2]) /\ Put1(e[3], Gr(e[2]))
  \/ e[1] = "move" /\ Live(e[2]) /\ e[2] # e[3] /\ reg' = [reg EXCEPT ![e[3]] = reg[e[2]], ![e[2]] = << >>]
  \/ e[1] = "swap" /\ reg' = [reg EXCEPT ![e[2]] = reg[e[3]], ![e[3]] = reg[e[2]]]
  \/ e[1] = "setv" /\ Live(e[2]) /\ Put1(e[2], SetVal(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "sete" /\ Live(e[2]) /\ Put1(e[2], SetEdgeVal(Gr(e[2]), e[3], e[4], e[5]))
  \/ e[1] = "setgv" /\ Live(e[2]) /\ Put1(e[2], SetGV(Gr(e[2]), e[3]))
  \/ e[1] = "obs" /\ Live(e[2]) /\ (\A k \in DOMAIN e[3] : CsrObsOK(Gr(e[2]), e[3][k])) = TRUE /\ UNCHANGED reg
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
