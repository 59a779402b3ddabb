---- MODULE MstMC ----
(* Kruskal's and Prim's algorithms with every choice among ties; the result predicates accept exactly optimal forests. *)
EXTENDS Mst, AllGraphs
CONSTANTS N, W
W1 == {-1, 2}
W3 == {-1, 0, 2}
VARIABLES G, alg, seed, lab, rest, t, tree, p, w
vars == <<G, alg, seed, lab, rest, t, tree, p, w>>
Base == UNION {WUGraphs(n, FALSE, W) : n \in 1..N} \cup UNION {WUGraphs(n, TRUE, {1}) : n \in 1..(N - 1)}
   \cup {Mk(2, <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 2>>>>, ww) : ww \in [1..3 -> W]}
Keyed(g) == g @@ ("key" :> g.w)
Init == /\ \E g \in Base : G = Keyed(g)
        /\ alg \in {"kruskal", "prim"} /\ seed \in (IF alg = "prim" THEN V(G) ELSE {0})
        /\ lab = Start(G.n) /\ rest = {k \in Arcs(G) : Src(G, k) <= Dst(G, k)} /\ t = {} /\ tree = {seed}
        /\ p = [v1 \in 1..G.n |-> v1 - 1] /\ w = [v1 \in 1..G.n |-> 0]
EdgeT(k) == <<Src(G, k), Dst(G, k), Wt(G, k), KeyOf(G, k)>>
Consider(k) == /\ alg = "kruskal" /\ k \in rest /\ \A x \in rest : KeyOf(G, k) <= KeyOf(G, x)
               /\ rest' = rest \ {k}
               /\ IF lab[Src(G, k)] = lab[Dst(G, k)] THEN UNCHANGED <<lab, t>> ELSE lab' = Join(lab, EdgeT(k)) /\ t' = t \cup {k}
               /\ UNCHANGED <<G, alg, seed, tree, p, w>>
Border == {k \in Arcs(G) : Src(G, k) \in tree /\ Dst(G, k) \notin tree}
Grow(k) == /\ alg = "prim" /\ k \in Border /\ \A x \in Border : KeyOf(G, k) <= KeyOf(G, x)
           /\ tree' = tree \cup {Dst(G, k)} /\ p' = [p EXCEPT ![Dst(G, k) + 1] = Src(G, k)] /\ w' = [w EXCEPT ![Dst(G, k) + 1] = Wt(G, k)]
           /\ UNCHANGED <<G, alg, seed, lab, rest, t>>
Done == IF alg = "kruskal" THEN rest = {} ELSE Border = {}
Next == \/ \E k \in Arcs(G) : Consider(k) \/ Grow(k)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Und == {k \in Arcs(G) : Src(G, k) <= Dst(G, k)}
EdgesOf(ks) == LET s == SetToSeq(ks) IN [j \in DOMAIN s |-> EdgeT(s[j])]
Comp0 == NumComp(JoinAll(Start(G.n), EdgesOf(Und), 1))
Forests == {F \in SUBSET Und : Cardinality(F) = G.n - Comp0 /\ NumComp(JoinAll(Start(G.n), EdgesOf(F), 1)) = Comp0}
Best == Min({SumK(EdgesOf(F)) : F \in Forests})
TreeW == SumSeq([v1 \in 1..G.n |-> w[v1]])
Correct == Done =>
  IF alg = "kruskal"
  THEN /\ t \in Forests /\ SumK(EdgesOf(t)) = Best
       /\ \A F \in SUBSET Und : ForestOK(G.n, EdgesOf(Und), EdgesOf(F)) <=> (F \in Forests /\ SumK(EdgesOf(F)) = Best)
  ELSE /\ tree = Reach(G, {seed}) /\ PrimOK(G, seed, p, w, TreeW, [v1 \in 1..G.n |-> v1 - 1])
       /\ ~PrimOK(G, seed, p, w, TreeW + 1, [v1 \in 1..G.n |-> v1 - 1])
       /\ NumComp(JoinAll(Start(G.n), EdgesOf(Und), 1)) = 1 => TreeW = Best
       /\ \A v \in tree \ {seed}, x \in tree : (\E k \in Arcs(G) : Src(G, k) = x /\ Dst(G, k) = v /\ KeyOf(G, k) > w[v + 1])
            => LET k == CHOOSE y \in Arcs(G) : Src(G, y) = x /\ Dst(G, y) = v /\ KeyOf(G, y) > w[v + 1]
                   w2 == [w EXCEPT ![v + 1] = Wt(G, k)]
               IN ~PrimOK(G, seed, [p EXCEPT ![v + 1] = x], w2, SumSeq(w2), [v1 \in 1..G.n |-> v1 - 1])
====
