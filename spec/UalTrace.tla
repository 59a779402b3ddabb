---- MODULE UalTrace ----
(* Histories of operations on several undirected graphs (registers 1..T.nreg), observed after each step.       *)
EXTENDS Ual, TraceBase
VARIABLES reg            \* register -> graph, <<graph>>, or << >>: not to be observed
vars == <<ep, i, reg>>
Init == TBInit /\ reg = [r \in 1..T.nreg |-> << >>]
Live(r) == reg[r] # << >>
Gr(r) == reg[r][1]
Put(r, S) == reg' = [reg EXCEPT ![r] = <<S>>]
Take(r, S, L, ordered) == (Adopts(S, L, ordered)) = TRUE /\ Put(r, TLCEval(Adopt(S, L)))
Step(e) ==
  \* edges, number of vertices, their values, graph value; the resulting lists
  \/ e[1] = "new" /\ Take(e[2], New(e[3], e[4], e[5], e[6]), e[7], TRUE)
  \/ e[1] = "del" /\ reg' = [reg EXCEPT ![e[2]] = << >>]
  \/ e[1] = "addv" /\ Live(e[2]) /\ e[4] = Gr(e[2]).n /\ Put(e[2], AddVertex(Gr(e[2]), e[3]))
  \* from, to, key, value; what the returned iterator refers to: other end, value
  \/ e[1] = "adde" /\ Live(e[2]) /\ e[7] = e[4] /\ e[8] = e[6] /\ e[9] = 1 /\ e[10] = <<e[3], e[4], e[3], e[4], e[3], e[4], e[3], e[4], e[3]>> /\ Put(e[2], AddEdge(Gr(e[2]), e[3], e[4], e[5], e[6]))
  \* positions e[4]..e[5] of the list of e[3]; the returned iterator is at position e[6] afterwards (0: the end)
  \/ e[1] = "erase" /\ Live(e[2]) /\
       LET S == Gr(e[2])
           S2 == Erase(S, {Lst(S, e[3])[j] : j \in e[4]..e[5]})
       IN e[6] = (IF e[4] <= Deg(S2, e[3]) THEN e[4] ELSE 0) /\ Put(e[2], S2)
  \* the whole-graph order before, the position erased, the order after, the position returned
  \/ e[1] = "gerase" /\ Live(e[2]) /\
       LET S == Gr(e[2]) IN
       /\ Range(e[3]) = Keys(S) /\ NoDup(e[3])
       /\ e[5] = SubSeq(e[3], 1, e[4] - 1) \o SubSeq(e[3], e[4] + 1, Len(e[3]))
       /\ e[6] = (IF e[4] <= Len(e[5]) THEN e[4] ELSE 0)
       /\ Put(e[2], Erase(S, {e[3][e[4]]}))
  \/ e[1] = "cleare" /\ Live(e[2]) /\ Put(e[2], ClearEdges(Gr(e[2]), e[3]))
  \/ e[1] = "clear" /\ Live(e[2]) /\ Put(e[2], Clear(Gr(e[2])))
  \/ e[1] = "resize" /\ Live(e[2]) /\ Put(e[2], Resize(Gr(e[2]), e[3], e[4]))
  \/ e[1] = "setv" /\ Live(e[2]) /\ Put(e[2], [Gr(e[2]) EXCEPT !.val[e[3] + 1] = e[4]])
  \/ e[1] = "sete" /\ Live(e[2]) /\ Put(e[2], [Gr(e[2]) EXCEPT !.W[Lst(Gr(e[2]), e[3])[e[4]]] = e[5]])
  \/ e[1] = "setgv" /\ Live(e[2]) /\ Put(e[2], [Gr(e[2]) EXCEPT !.gv = e[3]])
  \* a copy may order the edges of a vertex differently
  \/ e[1] = "copy" /\ Live(e[2]) /\ Take(e[3], Gr(e[2]), e[4], FALSE)
  \/ e[1] = "move" /\ Live(e[2]) /\ (Adopts(Gr(e[2]), e[4], TRUE)) = TRUE
       /\ reg' = [reg EXCEPT ![e[3]] = <<TLCEval(Adopt(Gr(e[2]), e[4]))>>, ![e[2]] = << >>]
  \/ e[1] = "swap" /\ Live(e[2]) /\ Live(e[3]) /\ (Adopts(Gr(e[3]), e[4], TRUE)) = TRUE /\ (Adopts(Gr(e[2]), e[5], TRUE)) = TRUE
       /\ reg' = [reg EXCEPT ![e[2]] = <<TLCEval(Adopt(Gr(e[3]), e[4]))>>, ![e[3]] = <<TLCEval(Adopt(Gr(e[2]), e[5]))>>]
  \/ e[1] = "obs" /\ Live(e[2]) /\ (\A k \in DOMAIN e[3] : ObsOK(Gr(e[2]), e[3][k])) = TRUE /\ UNCHANGED reg
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
