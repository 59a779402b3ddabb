---- MODULE DFSMC ----
(* Depth-first search with every order of arcs: visits nest like parentheses, each arc is labelled as its definition says, exactly the reachable vertices are visited. *)
EXTENDS DFS, AllGraphs
CONSTANTS N, Loops
VARIABLES G, S, cls, log      \* input; classification of the examined arcs; sequence of <<"d"|"f", v>>
vars == <<dvars, G, S, cls, log>>
Init == /\ G \in UNION {Digraphs(n, Loops) : n \in 1..N} \cup Doubled(2, Loops)
        /\ S \in V(G) /\ DInit /\ cls = << >> /\ log = << >>
Same == UNCHANGED <<G, S>>
Next == \/ \E v \in V(G) : Same /\ (Initialize(S, v) \/ Start(S, v)) /\ UNCHANGED <<cls, log>>
        \/ \E v \in V(G) : Same /\ Discover(G, S, v) /\ log' = Append(log, <<"d", v>>) /\ UNCHANGED cls
        \/ \E v \in V(G) : Same /\ FinishVertex(v) /\ log' = Append(log, <<"f", v>>) /\ UNCHANGED cls
        \/ \E k \in Arcs(G) : Same /\ (ExamineEdge(k) \/ FinishEdge(G, k)) /\ UNCHANGED <<cls, log>>
        \/ \E k \in Arcs(G), c \in {"tree", "back", "fwd"} :
             Same /\ Classify(G, k, c) /\ k \notin DOMAIN cls /\ cls' = (k :> c) @@ cls /\ UNCHANGED log
        \/ Ended /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
At(x, v) == CHOOSE j \in DOMAIN log : log[j] = <<x, v>>
Reached == Reach(G, {S})
ReachedArcs == {k \in Arcs(G) : Src(G, k) \in Reached}
OnCycle == \E k \in ReachedArcs : Src(G, k) \in Reach(G, {Dst(G, k)})
Correct ==
  /\ disc \subseteq Reached
  /\ Ended =>
     /\ disc = Reached /\ DOMAIN cls = ReachedArcs /\ Len(log) = 2 * Cardinality(Reached)
     /\ \A v \in Reached : At("d", v) < At("f", v)
     \* intervals are nested or disjoint
     /\ \A u, v \in Reached : ~(At("d", u) < At("d", v) /\ At("d", v) < At("f", u) /\ At("f", u) < At("f", v))
     \* what the classification means in terms of the intervals
     /\ \A k \in ReachedArcs :
          LET u == Src(G, k) v == Dst(G, k) IN
          CASE cls[k] = "tree" -> At("d", u) < At("d", v) /\ At("f", v) < At("f", u)
            [] cls[k] = "back" -> At("d", v) <= At("d", u) /\ At("f", u) <= At("f", v)
            [] cls[k] = "fwd"  -> At("f", v) < At("f", u)
     /\ \A v \in Reached \ {S} : Cardinality({k \in ReachedArcs : cls[k] = "tree" /\ Dst(G, k) = v}) = 1
     /\ (\E k \in ReachedArcs : cls[k] = "back") <=> OnCycle
====
