---- MODULE PathsMC ----
(* The result predicate accepts exactly the least path weights (all weighted digraphs with up to N vertices). *)
EXTENDS Paths, AllGraphs
CONSTANTS N, W
W1 == {-1, 2}
W2 == {-2, 1}
W3 == {-1, 0, 2}
VARIABLES G, S, chk   \* chk: the checks are evaluated in a second step, so that TLC's workers share them
Init == G \in UNION {WDigraphs(n, FALSE, W) : n \in 1..N} /\ S \in {{0}, {0, G.n - 1}} /\ chk = FALSE
Next == chk' = TRUE /\ UNCHANGED <<G, S>>
Spec == Init /\ [][Next]_<<G, S, chk>>
\* least weight over simple paths (no negative cycles reachable: simple paths suffice)
RECURSIVE PathWs(_, _, _, _)
PathWs(u, v, seen, w) == (IF u = v THEN {w} ELSE {}) \cup
  UNION {PathWs(Dst(G, k), v, seen \cup {Dst(G, k)}, w + Wt(G, k)) : k \in {x \in Out(G, u) : Dst(G, x) \notin seen}}
Least(v) == LET ws == UNION {PathWs(s, v, {s}, 0) : s \in S} IN IF ws = {} THEN Inf ELSE Min(ws)
RECURSIVE CycleWs(_, _, _, _)
CycleWs(s, u, seen, w) == UNION {IF Dst(G, k) = s THEN {w + Wt(G, k)}
  ELSE IF Dst(G, k) \in seen THEN {} ELSE CycleWs(s, Dst(G, k), seen \cup {Dst(G, k)}, w + Wt(G, k)) : k \in Out(G, u)}
Neg == \E v \in Reach(G, S) : \E w \in CycleWs(v, v, {v}, 0) : w < 0
TrueD == [v1 \in 1..G.n |-> Least(v1 - 1)]
\* some predecessor assignment, and any wrong distance is rejected
PredsOK == \E p \in [1..G.n -> V(G)] : ShortestOK(G, S, TrueD, p)
WrongRejected == \A v \in 1..G.n, x \in {-1, 1} : TrueD[v] # Inf =>
                    \A p \in [1..G.n -> V(G)] : ~ShortestOK(G, S, [TrueD EXCEPT ![v] = @ + x], p)
Correct == chk =>
           /\ NegCycleReachable(G, S) = Neg
           /\ ~Neg => DistN(G, S) = [v \in V(G) |-> Least(v)] /\ PredsOK /\ WrongRejected
           /\ Neg => \A p \in [1..G.n -> V(G)] : ~ShortestOK(G, S, TrueD, p)
====
