---- MODULE LowMC ----
(* Low-link depth-first search over an undirected graph, arcs of a vertex taken in any order; the arc back along the tree *)
(* edge is the one with the same edge id.  Emits articulation points and blocks.                                         *)
EXTENDS Blocks, AllGraphs
CONSTANTS N
VARIABLES G, stack, rem, disc, low, est, art, blk, kids
\* stack: vertices on the current path with the id of the edge that led there; est: stack of arcs
vars == <<G, stack, rem, disc, low, est, art, blk, kids>>
Init == /\ G \in UNION {UGraphs(n, TRUE) : n \in 1..(N - 1)} \cup UGraphs(N, FALSE) \cup UNION {UDoubled(n, FALSE) : n \in 1..(N - 1)}
        /\ stack = << >> /\ rem = [v \in V(G) |-> Out(G, v)] /\ disc = [v \in V(G) |-> 0] /\ low = [v \in V(G) |-> 0]
        /\ est = << >> /\ art = {} /\ blk = {} /\ kids = 0
Timer == 1 + Cardinality({v \in V(G) : disc[v] # 0})
Top == stack[Len(stack)]
u == Top[1]
Root == /\ stack = << >> /\ \E v \in V(G) : disc[v] = 0
        /\ LET v == Min({x \in V(G) : disc[x] = 0}) IN
             /\ stack' = << <<v, -1>> >> /\ disc' = [disc EXCEPT ![v] = Timer] /\ low' = [low EXCEPT ![v] = Timer]
             /\ blk' = IF Nbrs(G, v) = {} THEN blk \cup {{v}} ELSE blk
        /\ kids' = 0 /\ UNCHANGED <<G, rem, est, art>>
Take(k) == /\ stack # << >> /\ k \in rem[u] /\ rem' = [rem EXCEPT ![u] = @ \ {k}]
           /\ LET v == Dst(G, k) IN
              IF v = u \/ Eid(G, k) = Top[2] THEN UNCHANGED <<stack, disc, low, est, kids>>
              ELSE IF disc[v] = 0 THEN /\ stack' = Append(stack, <<v, Eid(G, k)>>) /\ disc' = [disc EXCEPT ![v] = Timer]
                                       /\ low' = [low EXCEPT ![v] = Timer] /\ est' = Append(est, k)
                                       /\ kids' = IF Len(stack) = 1 THEN kids + 1 ELSE kids
              ELSE /\ low' = [low EXCEPT ![u] = Min({@, disc[v]})] /\ UNCHANGED <<stack, disc, kids>>
                   /\ est' = IF disc[v] < disc[u] THEN Append(est, k) ELSE est
           /\ UNCHANGED <<G, art, blk>>
Pop == /\ stack # << >> /\ rem[u] = {}
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ IF Len(stack) = 1 THEN /\ art' = IF kids >= 2 THEN art \cup {u} ELSE art
                                 /\ UNCHANGED <<low, est, blk>>
          ELSE LET p == stack[Len(stack) - 1][1]
                   j == CHOOSE x \in DOMAIN est : Src(G, est[x]) = p /\ Dst(G, est[x]) = u /\ Eid(G, est[x]) = Top[2]
               IN /\ low' = [low EXCEPT ![p] = Min({@, low[u]})]
                  /\ IF low[u] >= disc[p]
                     THEN /\ art' = IF Len(stack) > 2 THEN art \cup {p} ELSE art
                          /\ blk' = blk \cup {UNION {{Src(G, est[x]), Dst(G, est[x])} : x \in j..Len(est)}}
                          /\ est' = SubSeq(est, 1, j - 1)
                     ELSE UNCHANGED <<art, blk, est>>
       /\ UNCHANGED <<G, rem, disc, kids>>
Done == stack = << >> /\ \A v \in V(G) : disc[v] # 0
Next == \/ Root
        \/ \E k \in Arcs(G) : Take(k)
        \/ Pop
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* independent definitions
CutByCount == {v \in V(G) : LET X == V(G) \ {v} IN Cardinality({InsideR(G, X, {x}, {x}) : x \in X}) > Cardinality({InsideR(G, V(G), {x}, {x}) : x \in V(G)})}
Conn(X) == \A x \in X : InsideR(G, X, {x}, {x}) = X
BiConn(X) == X # {} /\ Conn(X) /\ \A v \in X : Conn(X \ {v})
MaxBi == {X \in SUBSET V(G) : BiConn(X) /\ ~\E Y \in SUBSET V(G) : BiConn(Y) /\ X \subseteq Y /\ X # Y}
Correct == Done =>
   /\ art = CutVertices(G) /\ art = CutByCount
   /\ blk = MaxBi
   /\ BlocksOK(G, SetToSeq({SetToSeq(X) : X \in blk}))
   /\ art = {v \in V(G) : Cardinality({X \in blk : v \in X}) > 1}
   \* merging two blocks or dropping one is rejected
   /\ \A X \in blk : ~BlocksOK(G, SetToSeq({SetToSeq(Y) : Y \in blk \ {X}}))
   /\ \A X, Y \in blk : X # Y => ~BlocksOK(G, SetToSeq({SetToSeq(Z) : Z \in (blk \ {X, Y}) \cup {X \cup Y}}))
====
