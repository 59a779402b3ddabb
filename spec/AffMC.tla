---- MODULE AffMC ----
(* Components by merging labels edge by edge, in any order, with the sampling shortcut: after some rounds over single   *)
(* neighbours, the remaining out-edges of the vertices of one arbitrarily chosen label class are skipped.               *)
EXTENDS Comp, AllGraphs
CONSTANTS N
VARIABLES G, form, comp, rest, skip, in
\* form "one": edges visible from both ends; "two": out-edges, plus in-edges in the last phase
vars == <<G, form, comp, rest, skip, in>>
Init == /\ \/ form = "one" /\ G \in UNION {UGraphs(n, TRUE) : n \in 1..N} \cup UDoubled(2, TRUE)
           \/ form = "two" /\ G \in UNION {Digraphs(n, FALSE) : n \in 1..(N - 1)} \cup Doubled(2, TRUE)
        /\ comp = [v1 \in 1..G.n |-> v1 - 1] /\ rest = Arcs(G) /\ skip = -1 /\ in = {}
Merge(c, k) == LET a == Cv(c, Src(G, k)) b == Cv(c, Dst(G, k)) lo == Min({a, b})
               IN [v1 \in DOMAIN c |-> IF c[v1] \in {a, b} THEN lo ELSE c[v1]]
\* sampling rounds: the r-th out-edge of every vertex for r = 1, 2, ... (here: complete rounds)
Round(r) == /\ skip = -1 /\ rest = {k \in Arcs(G) : \E p \in DOMAIN G.adj[Src(G, k) + 1] : G.adj[Src(G, k) + 1][p] = k /\ p >= r}
            /\ \E k \in rest : TRUE
            /\ LET now == {k \in rest : \E p \in DOMAIN G.adj[Src(G, k) + 1] : G.adj[Src(G, k) + 1][p] = k /\ p = r}
                   RECURSIVE All(_, _)
                   All(c, ks) == IF ks = {} THEN c ELSE LET k == CHOOSE x \in ks : TRUE IN All(Merge(c, k), ks \ {k})
               IN comp' = All(comp, now) /\ rest' = rest \ now
            /\ UNCHANGED <<G, form, skip, in>>
Skip(c) == /\ skip = -1 /\ c \in Labels(G, comp) /\ skip' = c
           /\ rest' = {k \in rest : Cv(comp, Src(G, k)) # c}
           /\ in' = IF form = "two" THEN {k \in Arcs(G) : Cv(comp, Dst(G, k)) # c} ELSE {}
           /\ UNCHANGED <<G, form, comp>>
Link(k) == /\ skip # -1 /\ k \in rest \cup in
           /\ comp' = Merge(comp, k) /\ rest' = rest \ {k} /\ in' = in \ {k} /\ UNCHANGED <<G, form, skip>>
Done == skip # -1 /\ rest = {} /\ in = {}
Next == \/ \E r \in 1..4 : Round(r)
        \/ \E c \in V(G) : Skip(c)
        \/ \E k \in Arcs(G) : Link(k) /\ \A x \in rest \cup in : k <= x   \* the order of links does not matter (Merge is commutative)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Refines == \A k \in V(G) : Cv(comp, k) \in UReach(G, {k})
Correct == Refines /\ (Done => AfOK(G, comp))
====
