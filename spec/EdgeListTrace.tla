---- MODULE EdgeListTrace ----
(* Readings of edge lists, graphs built from them and lists read back, against the list last given. *)
EXTENDS EdgeList, TraceBase
VARIABLES L, cur
vars == <<ep, i, L, cur>>
Init == TBInit /\ L = <<>> /\ cur = <<>>
\* ["list", rows]: what the list holds from now on (value -1: elements have none)
New == E[1] = "list" /\ L' = E[2] /\ UNCHANGED cur
\* ["rows", how, rows]: the elements, read with the access functions
Read == E[1] = "rows" /\ E[3] = L /\ UNCHANGED <<L, cur>>
\* ["view", k, size, rows]: rows <<source, target, and source, target, value of the edge given, function value>>
Val(e, k) == IF k = 0 THEN 0 ELSE (e[1] * 100 + e[2]) * 10 + k
View == /\ E[1] = "view" /\ UNCHANGED <<L, cur>>
        /\ E[3] \in {-1, Len(L)}
        /\ E[4] = [j \in 1..Len(L) |-> <<L[j][1], L[j][2], L[j][1], L[j][2], L[j][3], Val(L[j], E[2])>>]
\* ["graph", number of vertices asked for or -1 (those mentioned), <<vertex, edges>> for each vertex]
Graph == /\ E[1] = "graph" /\ UNCHANGED L
         /\ LET g == E[3]
                vs == [j \in 1..Len(g) |-> g[j][1]]
            IN /\ Cardinality({vs[j] : j \in 1..Len(vs)}) = Len(vs)
               /\ Heads(L) \subseteq {vs[j] : j \in 1..Len(vs)}
               /\ (E[2] = -1 \/ T.rep = "none") => {vs[j] : j \in 1..Len(vs)} = Heads(L)
               /\ g = Built(L, vs)
               /\ cur' = g
\* ["flat", rows]: the graph last built, flattened
Flattened == E[1] = "flat" /\ E[2] = Flat(cur) /\ UNCHANGED <<L, cur>>
\* ["cmp", rows]: rows <<i, j, equal, order>>
Compared == /\ E[1] = "cmp" /\ UNCHANGED <<L, cur>>
            /\ \A k \in 1..Len(E[2]) : LET c == E[2][k] o == Order(L[c[1] + 1], L[c[2] + 1]) IN
                 /\ (c[3] = 1) = (o = 0)
                 /\ T.rep = "descriptor-str" \/ c[4] = o       \* texts are ordered as texts
Step == More /\ TBNext /\
  \/ New
  \/ Read
  \/ View
  \/ Graph
  \/ Flattened
  \/ Compared
Next == \/ Step
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
