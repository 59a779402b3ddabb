---- MODULE TopoMC ----
(* A colouring search over every digraph: an order is answered exactly if no cycle is reachable, and it has every arc forward. *)
EXTENDS Topo, AllGraphs
CONSTANTS N
VARIABLES G, all, S, out
vars == <<tvars, G, all, S, out>>
Init == /\ G \in UNION {Digraphs(n, TRUE) : n \in 1..N} \cup Doubled(2, TRUE)
        /\ all \in BOOLEAN /\ S \in (IF all THEN {<< >>} ELSE {<< >>} \cup {<<a>> : a \in V(G)} \cup {<<a, b>> : a, b \in V(G)})
        /\ TInit(G, all, S) /\ out = << >>
Next == \/ \E v \in V(G) : Output(G, v) /\ out' = Append(out, v) /\ UNCHANGED <<G, all, S>>
        \/ (\A v \in part : indeg[v] > 0) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
P0 == Part(G, all, S)
Stuck == \A v \in part : indeg[v] > 0
OnCycle(v) == \E k \in Out(G, v) : v \in Reach(G, {Dst(G, k)})
Correct ==
  /\ Range(out) \cup part = P0 /\ Range(out) \cap part = {} /\ Len(out) = Cardinality(Range(out))
  /\ \A k \in Arcs(G) : Src(G, k) \in P0 /\ Dst(G, k) \in Range(out) => Src(G, k) \in Range(out)
  /\ \A a, b \in DOMAIN out : (\E k \in Arcs(G) : Src(G, k) = out[a] /\ Dst(G, k) = out[b]) => a < b
  /\ Stuck => (Complete <=> ~Cyclic(G, P0)) /\ (Complete <=> ~\E v \in P0 : OnCycle(v))
====
