---- MODULE StoreTrace ----
(* Histories of operations on several graphs of one type (registers 1..T.nreg), observed after each step.     *)
EXTENDS Store, TraceBase
VARIABLES reg            \* register -> graph, <<graph>>, or << >>: not to be observed
vars == <<ep, i, reg>>
E0 == EmptyGraph(T.kind, T.ord, T.bid)
Init == TBInit /\ reg = [r \in 1..T.nreg |-> << >>]
Live(r) == reg[r] # << >>
Gr(r) == reg[r][1]
Put1(r, x) == reg' = [reg EXCEPT ![r] = <<x>>]
Drop(r) == reg' = [reg EXCEPT ![r] = << >>]
Outcome(e, r, x) == /\ e[Len(e)] = x.res
                    /\ IF x.res = "ok" THEN Put1(r, x.S) ELSE Drop(r)
Step(e) ==
  \/ e[1] = "new" /\ Put1(e[2], E0)
  \/ e[1] = "newgv" /\ Put1(e[2], SetGV(E0, e[3]))
  \* from an initializer list
  \/ e[1] = "newil" /\ Put1(e[2], SetGV(LoadEdges(E0, e[3], 0, TRUE).S, e[4]))
  \* from a range of edges and a range of vertices: the vertices come first
  \/ e[1] = "newev" /\ LET a == LoadVertices(E0, e[4], 0) IN
       IF a.res = "throw" THEN e[5] = "throw" /\ Drop(e[2]) ELSE Outcome(e, e[2], LoadEdges(a.S, e[3], N(a.S), TRUE))
  \* from a largest vertex id and a range of edges
  \/ e[1] = "newmx" /\ Outcome(e, e[2], LoadEdges(E0, e[4], e[3] + 1, TRUE))
  \/ e[1] = "le" /\ Live(e[2]) /\ Outcome(e, e[2], LoadEdges(Gr(e[2]), e[3], e[4], e[5]))
  \/ e[1] = "lv" /\ Live(e[2]) /\ Outcome(e, e[2], LoadVertices(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "resize" /\ Live(e[2]) /\ Put1(e[2], ResizeVertices(Gr(e[2]), e[3]))
  \/ e[1] = "clear" /\ Put1(e[2], IF Live(e[2]) THEN Clear(Gr(e[2])) ELSE [E0 EXCEPT !.gv = e[3]])
  \/ e[1] = "copy" /\ Live(e[2]) /\ Put1(e[3], Gr(e[2]))
  \/ e[1] = "move" /\ Live(e[2]) /\ e[2] # e[3] /\ reg' = [reg EXCEPT ![e[3]] = reg[e[2]], ![e[2]] = << >>]
  \/ e[1] = "swap" /\ reg' = [reg EXCEPT ![e[2]] = reg[e[3]], ![e[3]] = reg[e[2]]]
  \/ e[1] = "setv" /\ Live(e[2]) /\ Put1(e[2], SetVal(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "sete" /\ Live(e[2]) /\ Put1(e[2], SetEdgeVal(Gr(e[2]), e[3], e[4], e[5]))
  \/ e[1] = "setek" /\ Live(e[2]) /\ Put1(e[2], SetEdgeVal(Gr(e[2]), e[3], PosOf(Gr(e[2]), e[3], e[4]), e[5]))
  \/ e[1] = "setgv" /\ Live(e[2]) /\ Put1(e[2], SetGV(Gr(e[2]), e[3]))
  \/ e[1] = "obs" /\ Live(e[2]) /\ (\A k \in DOMAIN e[3] : ObsOK(Gr(e[2]), e[3][k])) = TRUE /\ UNCHANGED reg
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
