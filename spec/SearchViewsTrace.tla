---- MODULE SearchViewsTrace ----
(* Iterations of the real breadth-first and depth-first views, with the decisions taken on the way.                   *)
EXTENDS SearchViews, TraceBase
VARIABLES s, dec, seed, G, what
vars == <<ep, i, s, dec, seed, G, what>>
Turned(A) == {<<a[2], a[1], a[3]>> : a \in A}
Init == TBInit /\ s = BV0 /\ dec = "continue" /\ seed = -1 /\ G = {} /\ what = "none"
VVal(v, e) == e[3] = IF e[4] = 0 THEN 0 ELSE v * 10 + e[4]
EVal(e) == e[5] = IF e[6] = 0 THEN 0 ELSE e[2] * 10 + e[4] * 100 + e[6]
\* ["start", what, seed, incoming]  what: bv be dv de
Start == /\ E[1] = "start"
         /\ what' = E[2] /\ seed' = E[3]
         /\ G' = LET A == Range(T.arcs) IN IF E[4] THEN Turned(A) ELSE A
         /\ s' = CASE E[2] = "bv" -> BV0 [] E[2] = "be" -> BE0(E[3]) [] E[2] = "dv" -> D0 [] E[2] = "de" -> DStart(E[3])
         /\ dec' = "continue"
\* ["v", id, value, k, depth, visited]
GiveV == /\ E[1] = "v" /\ T.k = "search"
         /\ IF what = "bv" THEN E[2] \in BVCan(G, s, dec, seed) /\ s' = BVGive(G, s, dec, seed, E[2])
                                /\ E[5] = s'.maxd /\ E[6] = Cardinality(s'.disc) - 1
            ELSE /\ what = "dv"
                 /\ IF ~s.on THEN E[2] = seed /\ s' = DStart(seed)
                    ELSE (\E a \in DCan(G, s, dec) : a[2] = E[2]) /\ s' = DGive(G, s, dec, E[2])
                 /\ E[5] = Len(s'.path) /\ E[6] = Cardinality(s'.disc) - 1
         /\ VVal(E[2], E)
         /\ dec' = "continue" /\ UNCHANGED <<seed, G, what>>
\* ["e", source, target, tag, value, k, depth, visited]
GiveE == /\ E[1] = "e" /\ T.k = "search"
         /\ LET a == <<E[2], E[3], E[4]>> IN
            IF what = "be" THEN a \in BECan(G, s, dec) /\ s' = BEGive(G, s, dec, a) /\ E[7] = s'.maxd
            ELSE what = "de" /\ a \in DCan(G, s, dec) /\ s' = DGive(G, s, dec, E[3]) /\ E[7] = Len(s'.path)
         /\ E[8] = Cardinality(s'.disc) - 1
         /\ EVal(E)
         /\ dec' = "continue" /\ UNCHANGED <<seed, G, what>>
Decide == E[1] = "cancel" /\ dec' = E[2] /\ UNCHANGED <<s, seed, G, what>>
\* ["end", depth, visited]
End == /\ E[1] = "end"
       /\ CASE what = "bv" -> LET t == BVEnd(G, s, dec) IN BVCan(G, s, dec, seed) = {} /\ E[2] = t.maxd /\ E[3] = Cardinality(t.disc) - 1
            [] what = "be" -> BECan(G, s, dec) = {} /\ E[2] = s.maxd /\ E[3] = Cardinality(s.disc) - 1
            [] what \in {"dv", "de"} -> DCan(G, s, dec) = {} /\ E[2] = 0 /\ E[3] = Cardinality(s.disc) - 1
       /\ UNCHANGED <<s, dec, seed, G, what>>
\* on a long path: the ids given, as runs <<first, length>>
Deep == /\ T.k = "deep" /\ E[2] = (IF E[1] = "v" THEN <<<<0, T.n>>>> ELSE <<<<0, T.n - 1>>>>) /\ UNCHANGED <<s, dec, seed, G, what>>
Step == More /\ TBNext /\
  \/ Start
  \/ GiveV
  \/ GiveE
  \/ Decide
  \/ Deep
  \/ End
Done == ~More /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
====
