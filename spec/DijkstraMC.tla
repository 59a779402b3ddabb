---- MODULE DijkstraMC ----
(* Dijkstra with every choice among equal distances: vertices are examined at their final distance, in order of distance, each arc out of them once. *)
EXTENDS Dijkstra, AllGraphs
CONSTANTS N, W
VARIABLES G, S, ex
vars == <<jvars, G, S, ex>>
Init == /\ G \in UNION {WDigraphs(n, FALSE, W) : n \in 1..N} /\ S \in {<<0>>} \cup {<<0, v>> : v \in V(G)}
        /\ DjInit(G, S) /\ ex = << >>
Next == \/ \E v \in V(G) : (Discover(G, v) \/ Finish(v)) /\ UNCHANGED <<G, S, ex>>
        \/ InitializeV(G, Cardinality(ini)) /\ UNCHANGED <<G, S, ex>>
        \/ \E v \in V(G) : Examine(G, v) /\ ex' = Append(ex, <<v, dist[v]>>) /\ UNCHANGED <<G, S>>
        \/ \E k \in Arcs(G) : (ExamineEdge(G, k) \/ Relaxed(G, k) \/ NotRelaxed(G, k)) /\ UNCHANGED <<G, S, ex>>
        \/ Ended(G) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Correct == /\ \A a, b \in DOMAIN ex : a < b => ex[a][2] <= ex[b][2] /\ (ex[a][1] # ex[b][1] \/ ex[a][1] \in Range(S))
           /\ Ended(G) => dist = DistN(G, Range(S)) /\ \A a \in DOMAIN ex : ex[a][2] = dist[ex[a][1]]
           /\ Ended(G) => {ex[a][1] : a \in DOMAIN ex} = Reach(G, Range(S))
====
