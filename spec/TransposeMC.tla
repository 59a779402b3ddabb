---- MODULE TransposeMC ----
(* A graph that stores every edge twice - with its source's outgoing edges and with its target's incoming edges - and *)
(* the transposed view, which answers each question about edges with the opposite one of the graph.  Whatever edges   *)
(* are added and removed, and however often the view is stacked, the view describes the reversed graph.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NV, MaxE, MaxT
VARIABLES out, inc, next, depth
vars == <<out, inc, next, depth>>
V == 1..NV
Init == out = [v \in V |-> << >>] /\ inc = [v \in V |-> << >>] /\ next = 1 /\ depth = 0
Without(s, k) == SelectSeq(s, LAMBDA x : x[2] # k)
Add == /\ next <= MaxE
       /\ \E s, t \in V : out' = [out EXCEPT ![s] = Append(@, <<t, next>>)] /\ inc' = [inc EXCEPT ![t] = Append(@, <<s, next>>)]
       /\ next' = next + 1 /\ UNCHANGED depth
Remove == /\ \E k \in 1..(next - 1) : out' = [v \in V |-> Without(out[v], k)] /\ inc' = [v \in V |-> Without(inc[v], k)]
          /\ UNCHANGED <<next, depth>>
Stack == depth < MaxT /\ depth' = depth + 1 /\ UNCHANGED <<out, inc, next>>
Next == Add \/ Remove \/ Stack
Spec == Init /\ [][Next]_vars
\* a descriptor: the list it was found in, its owner, its place
Desc(dir, v) == {<<dir, v, j>> : j \in DOMAIN (IF dir = "out" THEN out[v] ELSE inc[v])}
Flip(dir) == IF dir = "out" THEN "in" ELSE "out"
RECURSIVE Dir(_, _)
Dir(dir, d) == IF d = 0 THEN dir ELSE Dir(Flip(dir), d - 1)
Edges(d, v)   == Desc(Dir("out", d), v)
InEdges(d, v) == Desc(Dir("in", d), v)
At(x) == IF x[1] = "out" THEN out[x[2]][x[3]] ELSE inc[x[2]][x[3]]
\* at level 0: the source of an outgoing edge is its owner, the target of an incoming edge is its owner
Source0(x) == IF x[1] = "out" THEN x[2] ELSE At(x)[1]
Target0(x) == IF x[1] = "out" THEN At(x)[1] ELSE x[2]
Source(d, x) == IF d % 2 = 0 THEN Source0(x) ELSE Target0(x)
Target(d, x) == IF d % 2 = 0 THEN Target0(x) ELSE Source0(x)
Val(x) == At(x)[2]
ArcSet == UNION {{<<v, out[v][j][1], out[v][j][2]>> : j \in DOMAIN out[v]} : v \in V}
Rev(a) == <<a[2], a[1], a[3]>>
Want(d) == IF d % 2 = 0 THEN ArcSet ELSE {Rev(a) : a \in ArcSet}
Shown(d)   == UNION {{<<Source(d, x), Target(d, x), Val(x)>> : x \in Edges(d, v)} : v \in V}
ShownIn(d) == UNION {{<<Source(d, x), Target(d, x), Val(x)>> : x \in InEdges(d, v)} : v \in V}
OnePlace == \A v \in V : Cardinality(Edges(depth, v)) = Cardinality({a \in Want(depth) : a[1] = v}) /\ Cardinality(InEdges(depth, v)) = Cardinality({a \in Want(depth) : a[2] = v})
Shows  == Shown(depth) = Want(depth) /\ ShownIn(depth) = Want(depth)
Owners == \A v \in V : (\A x \in Edges(depth, v) : Source(depth, x) = v) /\ (\A x \in InEdges(depth, v) : Target(depth, x) = v)
====
