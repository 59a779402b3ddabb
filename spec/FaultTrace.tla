---- MODULE FaultTrace ----
(* Calls with a failure at each point, and calls with arguments to refuse, judged by Fault. *)
EXTENDS Fault, TraceBase
vars == <<ep, i>>
g == T.g
Init == TBInit
Ref == Evs[1]     \* ["ref", allocations, calls, outcome, left, same]
Step(e) ==
  \/ e[1] = "ref" /\ i = 1 /\ PlainCallOK(e[4], e[5], e[6] = 1)
  \/ e[1] = "f" /\ Ref[1] = "ref" /\ FailedCallOK(e[2], e[3], Ref[2], Ref[3], e[4], e[5], e[6] = 1, e[7] = 1)
  \/ e[1] = "again" /\ PlainCallOK(e[2], e[3], TRUE) /\ e[4] = 1   \* after all these failures a call gives what it gave at first
  \/ e[1] = "sp" /\ PathsArgsOK(g, e[2], e[3], e[4], e[5], T.srcs[e[6] + 1], e[7] = 1)
  \/ e[1] = "prim" /\ PrimArgsOK(g, e[2], e[3], e[4], e[5], e[6] = 1)
  \/ e[1] = "same" /\ T.pre = T.post
Next == \/ More /\ (Step(E)) = TRUE /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
