---- MODULE Topo ----
(* Topological sorting: any vertex of the part to be sorted all of whose predecessors there are out may come next. *)
EXTENDS Graphs
VARIABLES part,  \* vertices still to be output
          indeg  \* for each vertex of the part: number of arcs from vertices still to be output
tvars == <<part, indeg>>
InDegs(g, P) == [v \in P |-> Cardinality({k \in Arcs(g) : Dst(g, k) = v /\ Src(g, k) \in P})]
\* S = <<>> with all=TRUE means the whole graph
Part(g, all, S) == IF all THEN V(g) ELSE Reach(g, Range(S))
TInit(g, all, S) == part = Part(g, all, S) /\ indeg = InDegs(g, Part(g, all, S))
RECURSIVE Lower(_, _, _)
Lower(g, ks, f) == IF ks = << >> THEN f
                   ELSE LET v == Dst(g, Head(ks)) IN Lower(g, Tail(ks), IF v \in DOMAIN f THEN [f EXCEPT ![v] = @ - 1] ELSE f)
Output(g, v) == /\ v \in part /\ indeg[v] = 0
                /\ part' = part \ {v}
                /\ indeg' = Lower(g, g.adj[v + 1], indeg)
Complete == part = {}
\* removing vertices without incoming arcs until none is left: what remains is not empty iff there is a cycle
RECURSIVE Core(_, _)
Core(g, P) == LET d == InDegs(g, P) Q == {v \in P : d[v] > 0} IN IF Q = P THEN P ELSE Core(g, Q)
Cyclic(g, P) == Core(g, P) # {}
====
