---- MODULE NbrMC ----
(* Greedy maximal independent set in every vertex order; merge-counting of triangles; both against the definitions. *)
EXTENDS Nbr, AllGraphs
CONSTANTS N
VARIABLES G, seed, free, out, todo, cnt, a, b
vars == <<G, seed, free, out, todo, cnt, a, b>>
UpPairs(h) == {p \in V(h) \X V(h) : p[1] < p[2] /\ p[2] \in Succ(h, p[1])}
Init == /\ G \in UNION {UGraphs(n, TRUE) : n \in 1..N} \cup UDoubled(3, FALSE)
        /\ seed \in V(G) /\ free = V(G) /\ out = << >> /\ todo = (IF seed = 0 THEN UpPairs(G) ELSE {}) /\ cnt = 0 /\ a = {} /\ b = {}
Take(v) == /\ v \in free /\ (out = << >> /\ free = V(G) => v = seed)
           /\ IF Loop(G, v) THEN free' = free \ {v} /\ UNCHANGED out
              ELSE free' = (free \ {v}) \ Succ(G, v) /\ out' = Append(out, v)
           /\ UNCHANGED <<G, seed, todo, cnt, a, b>>
\* triangles: for an edge u < v walk both ascending neighbour lists above v in step
Pick == /\ free = {} /\ a = {} /\ b = {} /\ todo # {}
        /\ LET p == CHOOSE x \in todo : TRUE IN
             /\ a' = {y \in Succ(G, p[1]) : y > p[2]} \cup {-1} /\ b' = {y \in Succ(G, p[2]) : y > p[2]} \cup {-1} /\ todo' = todo \ {p}
        /\ UNCHANGED <<G, seed, free, out, cnt>>
Walk == /\ a # {} \/ b # {}
        /\ IF a = {} \/ b = {} THEN a' = {} /\ b' = {} /\ UNCHANGED cnt
           ELSE IF Min(a) < Min(b) THEN a' = a \ {Min(a)} /\ UNCHANGED <<b, cnt>>
           ELSE IF Min(b) < Min(a) THEN b' = b \ {Min(b)} /\ UNCHANGED <<a, cnt>>
           ELSE a' = a \ {Min(a)} /\ b' = b \ {Min(b)} /\ cnt' = cnt + (IF Min(a) = -1 THEN 0 ELSE 1)
        /\ UNCHANGED <<G, seed, free, out, todo>>
Done == free = {} /\ todo = {} /\ a = {} /\ b = {}
Next == \/ \E v \in V(G) : Take(v)
        \/ Pick
        \/ Walk
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Indep(M) == \A u, v \in M : u \notin Succ(G, v)
Correct == /\ free = {} => MisOK(G, seed, out, Len(out)) /\ Indep(Range(out)) /\ \A v \in V(G) \ Range(out) : ~Indep(Range(out) \cup {v})
           /\ Done /\ seed = 0 => cnt = Triangles(G) /\ cnt = Cardinality({X \in SUBSET V(G) : Cardinality(X) = 3 /\ \A u, v \in X : u # v => u \in Succ(G, v)})
====
