---- MODULE AllGraphs ----
(* Every small graph, for exhaustive model checking *)
EXTENDS Graphs, SequencesExt
\* a graph record from a sequence of <<source, target, id>> and weights
Mk(n, E, w) == [n |-> n, E |-> E, w |-> w,
                adj |-> [u1 \in 1..n |-> SelectSeq([k \in 1..Len(E) |-> k], LAMBDA k : E[k][1] = u1 - 1)]]
Numbered(ps) == [k \in 1..Len(ps) |-> <<ps[k][1], ps[k][2], k - 1>>]
FromPairs(n, P) == LET s == SetToSeq(P) IN Mk(n, Numbered(s), [k \in 1..Len(s) |-> 1])
Pairs(n, loops) == {p \in (0..(n-1)) \X (0..(n-1)) : loops \/ p[1] # p[2]}
\* all digraphs without parallel edges
Digraphs(n, loops) == {FromPairs(n, P) : P \in SUBSET Pairs(n, loops)}
\* ... with one arc doubled
Doubled(n, loops) ==
  UNION {LET s == SetToSeq(P) IN {LET t == Append(s, p) IN Mk(n, Numbered(t), [k \in 1..Len(t) |-> 1]) : p \in P} : P \in SUBSET Pairs(n, loops)}
\* all weightings of all digraphs, weights from W
WDigraphs(n, loops, W) ==
  UNION {LET s == SetToSeq(P) IN {Mk(n, Numbered(s), w) : w \in [1..Len(s) -> W]} : P \in SUBSET Pairs(n, loops)}
\* undirected graphs: arcs of edge k are at 2k-1 and 2k (a loop is stored as a single arc)
UPairs(n, loops) == {p \in (0..(n-1)) \X (0..(n-1)) : p[1] < p[2] \/ (loops /\ p[1] = p[2])}
RECURSIVE UArcs(_, _)
UArcs(s, k) == IF k > Len(s) THEN << >>
               ELSE (IF s[k][1] = s[k][2] THEN << <<s[k][1], s[k][2], k - 1>> >>
                     ELSE << <<s[k][1], s[k][2], k - 1>>, <<s[k][2], s[k][1], k - 1>> >>) \o UArcs(s, k + 1)
UGraphs(n, loops) == {LET s == SetToSeq(P) IN Mk(n, UArcs(s, 1), [k \in 1..Len(s) |-> 1]) : P \in SUBSET UPairs(n, loops)}
WUGraphs(n, loops, W) ==
  UNION {LET s == SetToSeq(P) IN {Mk(n, UArcs(s, 1), w) : w \in [1..Len(s) -> W]} : P \in SUBSET UPairs(n, loops)}
\* ... with one edge doubled
UDoubled(n, loops) ==
  UNION {LET s == SetToSeq(P) IN {LET t == Append(s, p) IN Mk(n, UArcs(t, 1), [k \in 1..Len(t) |-> 1]) : p \in P} : P \in SUBSET UPairs(n, loops)}
====
