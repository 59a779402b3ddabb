---- MODULE EdgeList ----
(* Edge lists: sequences of <<source, target, value>>.  A graph built from one has, for every vertex, the edges with    *)
(* that source in the order of the list; flattening a graph goes through the vertices in order.                         *)
EXTENDS Integers, Sequences, FiniteSets
Sub(L, u) == SelectSeq(L, LAMBDA e : e[1] = u)
Heads(L) == {L[j][1] : j \in 1..Len(L)} \cup {L[j][2] : j \in 1..Len(L)}
\* what building gives: <<vertex, <<<<target, value>>, ...>>>> for each vertex, in order of vs
Built(L, vs) == [j \in 1..Len(vs) |-> <<vs[j], LET s == Sub(L, vs[j]) IN [k \in 1..Len(s) |-> <<s[k][2], s[k][3]>>]>>]
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>>
           ELSE [k \in 1..Len(g[1][2]) |-> <<g[1][1], g[1][2][k][1], g[1][2][k][2]>>] \o Flat(Tail(g))
\* comparison of two edges: source, then target, then value
Order(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
               ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
               ELSE IF a[3] < b[3] THEN -1 ELSE IF a[3] > b[3] THEN 1 ELSE 0
====
