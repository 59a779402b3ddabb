---- MODULE Graphs ----
(* Abstract graphs, as recorded by the drivers: n vertices 0..n-1, arcs E[k] = <<source, target, edge id>>,    *)
(* weights w[id+1], adj[u+1] = sequence of the arc indices leaving u.  An undirected edge is a pair of arcs     *)
(* with the same id (an undirected self-loop is one arc).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(g)      == 0..(g.n - 1)
Arcs(g)   == DOMAIN g.E
Src(g, k) == g.E[k][1]
Dst(g, k) == g.E[k][2]
Eid(g, k) == g.E[k][3]
Wt(g, k)  == g.w[g.E[k][3] + 1]
Range(s)  == {s[j] : j \in DOMAIN s}
Out(g, u) == Range(g.adj[u + 1])
Succ(g, u) == {Dst(g, k) : k \in Out(g, u)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE ReachR(_, _, _)
ReachR(g, fr, seen) ==
  IF fr = {} THEN seen
  ELSE LET nx == UNION {Succ(g, u) : u \in fr} \ seen IN ReachR(g, nx, seen \cup nx)
Reach(g, S) == ReachR(g, S, S)                 \* vertices reachable from the set S (S included)

RECURSIVE LevR(_, _, _, _, _)
LevR(g, fr, seen, d, f) ==
  IF fr = {} THEN f
  ELSE LET nx == UNION {Succ(g, u) : u \in fr} \ seen
       IN  LevR(g, nx, seen \cup nx, d + 1, [v \in nx |-> d + 1] @@ f)
Level(g, S) == LevR(g, S, S, 0, [v \in S |-> 0])   \* number of edges from the nearest vertex of S; domain = Reach

\* the same graph with every arc reversed
RevAdj(g) == [u \in V(g) |-> {k \in Arcs(g) : Dst(g, k) = u}]
\* undirected reachability: arcs used both ways
RECURSIVE UReachR(_, _, _, _)
UReachR(g, rev, fr, seen) ==
  IF fr = {} THEN seen
  ELSE LET nx == (UNION {Succ(g, u) \cup {Src(g, k) : k \in rev[u]} : u \in fr}) \ seen
       IN  UReachR(g, rev, nx, seen \cup nx)
UReach(g, S) == UReachR(g, RevAdj(g), S, S)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN << >> ELSE Append(Rev(Tail(s)), Head(s))
NoDup(s) == Cardinality(Range(s)) = Len(s)
\* number of occurrences of x in s
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
====
