---- MODULE LPTrace ----
(* The visits that leave a label alone and the ends of sweeps are not observable: poss holds every sweep state that is     *)
(* compatible with the assignments seen so far.                                                                            *)
EXTENDS LP, TraceBase
VARIABLES lab, poss
vars == <<lab, poss, ep, i>>
g == T.g
Close(P, l) == P \cup {EndSweep(s, l, g, T.empty) : s \in {x \in P : x.done # {} /\ Complete(x, g) /\ x.n + 1 < T.limit}}
Init == TBInit /\ lab = T.l0 /\ poss = {Start(T.l0, g, T.empty)}
Step(e) ==
  \/ /\ e[1] = "set"                       \* <<"set", vertex, label>>: an assignment to the label range
     /\ IF e[3] = Lv(lab, e[2])            \* the same label written again is no change
        THEN MayKeep(lab, g, e[2], T.empty) /\ UNCHANGED <<lab, poss>>
        ELSE LET P == {s \in Close(poss, lab) : s.n < T.limit /\ MaySet(s, lab, g, e[2], e[3], T.empty)}
                 l2 == SetLab(lab, e[2], e[3])
             IN P # {} /\ lab' = l2 /\ poss' = {AfterSet(s, l2, g, e[2], T.empty) : s \in P}
  \/ e[1] = "end" /\ lab = T.l1 /\ (\E s \in Close(poss, lab) : MayReturn(s, g, T.limit)) /\ T.pre = T.post /\ UNCHANGED <<lab, poss>>
  \/ e[1] = "stable" /\ Stable(lab, g, T.empty) /\ UNCHANGED <<lab, poss>>   \* the run was not limited
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
