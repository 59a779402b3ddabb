---- MODULE TopoViewsTrace ----
(* Passes over the real topological views, and what the forms that look for cycles report.                            *)
EXTENDS TopoViews, TraceBase
VARIABLES cur, dag, As
vars == <<ep, i, cur, dag, As>>
Turn(q) == [j \in Idx(q) |-> <<q[j][2], q[j][1], q[j][3]>>]
IsDeep == T.k = "deep"
Ids == T.ids
Init == /\ TBInit /\ cur = <<>> /\ As = <<>>
        /\ dag = IF IsDeep THEN TRUE ELSE Acyclic(Ids, T.arcs)
\* ["view", v|e, k, incoming, size]
View == /\ E[1] = "view" /\ cur' = E /\ UNCHANGED dag
        /\ As' = IF E[4] THEN Turn(T.arcs) ELSE T.arcs
        /\ E[2] = "v" => E[5] = Len(Ids)
Vs(rows) == [j \in Idx(rows) |-> rows[j][1]]
Es(rows) == [j \in Idx(rows) |-> <<rows[j][1], rows[j][2], rows[j][3]>>]
VValue(k, r) == Len(r) = 2 /\ r[2] = IF k = 0 THEN 0 ELSE r[1] * 10 + k
EValue(k, r) == Len(r) = 4 /\ r[4] = IF k = 0 THEN 0 ELSE r[1] * 10 + r[3] * 100 + k
\* ["pass", rows, how many if cancelled else -1, increments counted beyond those made]
Pass == /\ E[1] = "pass" /\ UNCHANGED <<cur, dag, As>>
        /\ LET rows == E[2] IN
           /\ E[3] # -1 => Len(rows) = E[3]
           /\ E[4] = 0
           /\ (IF cur[2] = "v" THEN (\A j \in Idx(rows) : VValue(cur[3], rows[j])) /\ IsVPass(Ids, As, dag, Vs(rows), E[3] = -1)
               ELSE (\A j \in Idx(rows) : EValue(cur[3], rows[j])) /\ IsEPass(As, dag, Es(rows), E[3] = -1)) = TRUE
\* what a form that looks for cycles answers: ["safe", incoming, found, vertex]
Safe == /\ E[1] = "safe" /\ UNCHANGED <<cur, dag, As>>
        /\ (E[2] = dag)
        /\ E[2] \/ OnCycle(T.arcs, E[3])
\* on a long path: the ids given, as runs <<first, length>>
Deep == /\ IsDeep /\ UNCHANGED <<cur, dag, As>>
        /\ CASE E[1] = "v" -> E[2] = <<<<0, T.n>>>>
             [] E[1] = "e" -> E[2] = <<<<0, T.n - 1>>>>
             [] E[1] = "on" -> \A j \in Idx(E[2]) : E[2][j][1] >= E[2][j][2]
             [] OTHER -> FALSE
Step == More /\ TBNext /\
  \/ View
  \/ Pass
  \/ Safe
  \/ Deep
Next == \/ Step
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
