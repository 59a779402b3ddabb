---- MODULE LPMC ----
(* The algorithm itself, visit by visit; what can be observed of it (the assignments) is always accepted by the sweep       *)
(* states of LP, and it stops only in stable labellings unless the limit is reached.                                        *)
EXTENDS LP, AllGraphs
CONSTANTS N, LIMIT
VARIABLES G, lab, left, chg, sw, stop, s, empty
vars == <<G, lab, left, chg, sw, stop, s, empty>>
Init == /\ G \in UNION {Digraphs(n, TRUE) : n \in 1..2} \cup Digraphs(N, FALSE) \cup Doubled(2, FALSE)
        /\ lab \in [1..G.n -> 0..2] /\ empty \in {-99, 0}
        /\ left = V(G) /\ chg = FALSE /\ sw = 0 /\ stop = FALSE /\ s = Start(lab, G, empty)
Visit(v) == /\ ~stop /\ v \in left /\ left' = left \ {v}
            /\ LET m == Modes(lab, G, v, empty) IN
               \/ m = {} /\ UNCHANGED <<lab, chg, s>>
               \/ \E x \in m : IF x = Lv(lab, v) THEN UNCHANGED <<lab, chg, s>>
                               ELSE /\ lab' = SetLab(lab, v, x) /\ chg' = TRUE /\ Assert(MaySet(s, lab, G, v, x, empty), "assignment refused")
                                    /\ s' = AfterSet(s, lab', G, v, empty)
            /\ UNCHANGED <<G, sw, stop, empty>>
EndOfSweep == /\ ~stop /\ left = {} /\ sw' = sw + 1 /\ Assert(Complete(s, G), "sweep not complete")
              /\ s' = EndSweep(s, lab, G, empty) /\ stop' = (~chg \/ sw' = LIMIT) /\ left' = V(G) /\ chg' = FALSE /\ UNCHANGED <<G, lab, empty>>
Next == \/ \E v \in V(G) : Visit(v)
        \/ EndOfSweep
        \/ stop /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Correct == /\ stop => MayReturn(s, G, LIMIT)
           /\ s.quiet => Stable(lab, G, empty)
           /\ s.n = sw
====
