---- MODULE WorkTrace ----
(* One call of the real code on a graph of a few thousand vertices, with what it cost. *)
EXTENDS Work, TraceBase
vars == <<ep, i>>
Init == TBInit
Step(e) ==
  \/ e[1] = "work" /\ T.k # "queue" /\ (T.k \in Calls /\ Within(T.k, T, e[2], e[3], e[4])) = TRUE
  \* the storage of the queue of a shortest-path or tree search
  \/ e[1] = "work" /\ T.k = "queue" /\ (e[3] <= Bytes("topo", T)) = TRUE
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
