---- MODULE EdgeListMC ----
(* Building a graph from an edge list one element at a time, and flattening it with a vertex and an edge position.      *)
EXTENDS EdgeList, TLC
CONSTANTS N, MaxLen, Vals
V == 0..N-1
VSeq == [j \in 1..N |-> j - 1]
Edge == V \X V \X Vals
Lists == UNION {[1..k -> Edge] : k \in 0..MaxLen}
VARIABLES L, todo, g, phase, u, p, out
vars == <<L, todo, g, phase, u, p, out>>
Init == /\ L \in Lists /\ todo = L /\ g = [v \in V |-> <<>>]
        /\ phase = "build" /\ u = 0 /\ p = 1 /\ out = <<>>
Put == /\ phase = "build" /\ todo # <<>>
       /\ g' = [g EXCEPT ![todo[1][1]] = Append(@, <<todo[1][2], todo[1][3]>>)]
       /\ todo' = Tail(todo) /\ UNCHANGED <<L, phase, u, p, out>>
Done == phase = "build" /\ todo = <<>> /\ phase' = "flatten" /\ UNCHANGED <<L, todo, g, u, p, out>>
\* the walk: give the edge at (u, p), or go to the next vertex when there is none
Give == /\ phase = "flatten" /\ u < N /\ p <= Len(g[u])
        /\ out' = Append(out, <<u, g[u][p][1], g[u][p][2]>>) /\ p' = p + 1
        /\ UNCHANGED <<L, todo, g, phase, u>>
Hop == /\ phase = "flatten" /\ u < N /\ p > Len(g[u])
       /\ u' = u + 1 /\ p' = 1 /\ UNCHANGED <<L, todo, g, phase, out>>
Next == Put \/ Done \/ Give \/ Hop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AsSeq == [j \in 1..N |-> <<j - 1, g[j - 1]>>]
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
BuiltOk == phase # "build" => AsSeq = Built(L, VSeq)
WalkOk == phase = "flatten" => IsPrefix(out, Flat(Built(L, VSeq)))
\* at the end: the stable sort of the list by source, and building from it again gives the same graph
EndOk == (phase = "flatten" /\ u = N) =>
           /\ out = Flat(AsSeq) /\ Len(out) = Len(L)
           /\ \A j \in 1..Len(out) - 1 : out[j][1] <= out[j + 1][1]
           /\ \A v \in V : Sub(out, v) = Sub(L, v)
           /\ Built(out, VSeq) = Built(L, VSeq)
\* comparison is a total order, agreeing with equality
OrderOk == \A a, b \in Edge :
             /\ (Order(a, b) = 0) = (a = b) /\ Order(a, b) = -Order(b, a)
             /\ \A c \in Edge : Order(a, b) <= 0 /\ Order(b, c) <= 0 => Order(a, c) <= 0
ASSUME OrderOk
Ends == <>(phase = "flatten" /\ u = N)
====
