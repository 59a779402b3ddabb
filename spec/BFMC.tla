---- MODULE BFMC ----
(* Bellman-Ford with every order of relaxations in a round: at the end distances are the least path weights, or a reachable cycle is reported exactly if there is one. *)
EXTENDS BF, AllGraphs
CONSTANTS N, W
W1 == {-1, 2}
W2 == {-2, 1}
W3 == {-1, 0, 2}
VARIABLES G, S
vars == <<fvars, G, S>>
Init == G \in UNION {WDigraphs(n, TRUE, W) : n \in 1..N} /\ S \in {<<0>>} \cup {<<0, v>> : v \in V(G)} /\ BFInit(G, S)
Next == /\ UNCHANGED <<G, S>>
        /\ \/ \E v \in V(G) : DiscoverSource(G, v)
           \/ \E k \in Arcs(G) : ExamineEdge(G, k) \/ Relaxed(G, k) \/ NotRelaxed(G, k) \/ Minimized(G, k) \/ NotMinimized(G, k)
           \/ (Settled(G) \/ res # -2) /\ UNCHANGED fvars
Spec == Init /\ [][Next]_vars
Correct == /\ Settled(G) => ~NegCycleReachable(G, Range(S)) /\ dist = DistN(G, Range(S))
           /\ res # -2 => NegCycleReachable(G, Range(S)) /\ res \in Reach(G, Range(S))
====
