---- MODULE BFSMC ----
(* Breadth-first search with every order among the vertices of a level: vertices are examined by distance, once each (a source once per mention), all their arcs once. *)
EXTENDS BFS, AllGraphs
CONSTANTS N, Loops
VARIABLES G, S, xe, xd    \* input graph and sources; vertices examined, in order; per arc: times examined
vars == <<bvars, G, S, xe, xd>>
SourceSeqs(n) == {<< >>} \cup {<<a>> : a \in 0..(n-1)} \cup {<<a, b>> : a, b \in 0..(n-1)} \cup {<<0, 0, n - 1>>}
Init == /\ G \in UNION {Digraphs(n, Loops) : n \in 1..N} \cup Doubled(2, Loops)
        /\ S \in SourceSeqs(G.n)
        /\ BInit(G, S) /\ xe = << >> /\ xd = [k \in Arcs(G) |-> 0]
Next == \/ \E v \in V(G) : (Initialize(G, v) \/ Discover(G, v) \/ Finish(G, v)) /\ UNCHANGED <<G, S, xe, xd>>
        \/ \E v \in V(G) : Examine(G, v) /\ xe' = Append(xe, v) /\ UNCHANGED <<G, S, xd>>
        \/ \E k \in Arcs(G) : ExamineEdge(G, k) /\ xd' = [xd EXCEPT ![k] = @ + 1] /\ UNCHANGED <<G, S, xe>>
        \/ Ended /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Lv == Level(G, Range(S))
Times(v) == IF Count(S, v) > 0 THEN Count(S, v) ELSE 1
Correct ==
  /\ \A v \in Disc : v \in DOMAIN Lv /\ lev[v] = Lv[v]                  \* only reachable vertices, at their distance
  /\ \A a, b \in DOMAIN xe : a < b => Lv[xe[a]] <= Lv[xe[b]]
  /\ \A v \in V(G) : Count(xe, v) <= Times(v)
  /\ Ended => /\ Disc = Reach(G, Range(S)) /\ Range(xe) = Disc /\ nd = Len(xe)
              /\ \A v \in Disc : Count(xe, v) = Times(v)
              /\ \A k \in Arcs(G) : xd[k] = IF Src(G, k) \in Disc THEN Times(Src(G, k)) ELSE 0
====
