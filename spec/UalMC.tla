---- MODULE UalMC ----
(* The intrusive lists of undirected_adjacency_list: each edge carries two links (its ends), each with the previous and the next    *)
(* edge of the vertex it belongs to; a self-loop uses only the first.  Whatever is created, erased (through either end or by the    *)
(* whole-graph edge range), cleared, or cut by a resize, the links represent the abstract lists, which in turn are the edges that   *)
(* are alive, in the order of creation.                                                                                             *)
EXTENDS Ual, SequencesExt
CONSTANTS NV, ME, STEPS
VARIABLES S, made, link, head, tail, size, steps
vars == <<S, made, link, head, tail, size, steps>>
Nil == 0
Init == /\ S = Resize(Empty, NV, 0) /\ made = << >> /\ link = << >> /\ steps = 0
        /\ head = [u \in 0..(NV - 1) |-> Nil] /\ tail = head /\ size = [u \in 0..(NV - 1) |-> 0]
\* the pointer structure
Ptr == [link |-> link, head |-> head, tail |-> tail, size |-> size]
SideOf(P, k, u) == IF P.link[k][1].v = u THEN 1 ELSE 2
LinkBack(P, k, side) ==
  LET u == P.link[k][side].v
      t == P.tail[u]
      L1 == [P.link EXCEPT ![k][side].prev = t, ![k][side].next = Nil]
      L2 == IF t = Nil THEN L1 ELSE [L1 EXCEPT ![t][SideOf(P, t, u)].next = k]
  IN [P EXCEPT !.link = L2, !.head[u] = IF t = Nil THEN k ELSE @, !.tail[u] = k, !.size[u] = @ + 1]
Unlink(P, k, side) ==
  LET u == P.link[k][side].v
      p == P.link[k][side].prev
      x == P.link[k][side].next
      L1 == IF p = Nil THEN P.link ELSE [P.link EXCEPT ![p][SideOf(P, p, u)].next = x]
      L2 == IF x = Nil THEN L1 ELSE [L1 EXCEPT ![x][SideOf(P, x, u)].prev = p]
  IN [P EXCEPT !.link = L2, !.head[u] = IF p = Nil THEN x ELSE @, !.tail[u] = IF x = Nil THEN p ELSE @, !.size[u] = @ - 1]
PCreate(P, k, u, v) ==
  LET P0 == [P EXCEPT !.link = (k :> <<[v |-> u, prev |-> Nil, next |-> Nil], [v |-> v, prev |-> Nil, next |-> Nil]>>) @@ @]
      P1 == LinkBack(P0, k, 1)
  IN IF u = v THEN P1 ELSE LinkBack(P1, k, 2)
PErase(P, k) ==
  LET P1 == Unlink(P, k, 1)
      P2 == IF P.link[k][1].v = P.link[k][2].v THEN P1 ELSE Unlink(P1, k, 2)
  IN [P2 EXCEPT !.link = [j \in DOMAIN @ \ {k} |-> @[j]]]
RECURSIVE PEraseAll(_, _)
PEraseAll(P, K) == IF K = {} THEN P ELSE LET k == CHOOSE k \in K : \A j \in K : k <= j IN PEraseAll(TLCEval(PErase(P, k)), K \ {k})
Becomes(P) == link' = P.link /\ head' = P.head /\ tail' = P.tail /\ size' = P.size
Tick == steps < STEPS /\ steps' = steps + 1
Create(u, v) == /\ Tick /\ Len(made) < ME
                /\ LET k == Len(made) + 1 IN
                     /\ made' = Append(made, <<u, v>>) /\ S' = AddEdge(S, u, v, k, 0) /\ Becomes(PCreate(Ptr, k, u, v))
EraseAt(u, a, b) == /\ Tick /\ a <= b /\ b <= Deg(S, u)
                    /\ LET K == {Lst(S, u)[j] : j \in a..b} IN S' = Erase(S, K) /\ Becomes(PEraseAll(Ptr, K))
                    /\ UNCHANGED made
Cut(m) == /\ Tick /\ m < S.n /\ S' = Resize(S, m, 0) /\ UNCHANGED made
          /\ LET P == PEraseAll(Ptr, {k \in Keys(S) : S.A[k][1] >= m \/ S.A[k][2] >= m})
             IN Becomes(P)
Grow == Tick /\ S.n < NV /\ S' = AddVertex(S, 0) /\ UNCHANGED <<made, link, head, tail, size>>
Next == \/ \E u, v \in Ids(S) : Create(u, v)
        \/ \E u \in Ids(S) : \E a, b \in 1..Deg(S, u) : EraseAt(u, a, b)
        \/ \E m \in 0..NV : Cut(m)
        \/ Grow
        \/ steps = STEPS /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* what following the pointers gives
RECURSIVE Follow(_, _, _, _)
Follow(u, k, dir, fuel) ==
  IF k = Nil \/ fuel = 0 THEN << >>
  ELSE LET l == link[k][SideOf(Ptr, k, u)] IN <<k>> \o Follow(u, IF dir = 1 THEN l.next ELSE l.prev, dir, fuel - 1)
Linked == \A u \in Ids(S) : /\ Follow(u, head[u], 1, ME + 1) = Lst(S, u)
                            /\ Follow(u, tail[u], 2, ME + 1) = Reverse(Lst(S, u))
                            /\ size[u] = Deg(S, u)
NoDangling == DOMAIN link = Keys(S) /\ \A u \in (0..(NV - 1)) \ Ids(S) : head[u] = Nil /\ tail[u] = Nil /\ size[u] = 0
Creation == \A u \in Ids(S) : Lst(S, u) = SelectSeq([k \in 1..Len(made) |-> k], LAMBDA k : k \in Keys(S) /\ u \in {made[k][1], made[k][2]})
Ends == \A k \in Keys(S) : S.A[k] = made[k]
\* the whole-graph order: edges grouped by the vertex they are listed at, each once
RECURSIVE Walk(_, _, _)
Walk(u, seen, o) == IF u = S.n THEN o ELSE LET new == SelectSeq(Lst(S, u), LAMBDA k : k \notin seen) IN Walk(u + 1, seen \cup Range(Lst(S, u)), o \o new)
WholeOnce == LET o == Walk(0, {}, << >>) IN Range(o) = Keys(S) /\ Len(o) = Cardinality(Keys(S))
Seen == [u \in 1..S.n |-> [j \in DOMAIN Lst(S, u - 1) |-> <<Pairs(S, u - 1)[j][1], Pairs(S, u - 1)[j][2], Lst(S, u - 1)[j]>>]]
\* what a copy is compared by: a graph adopts its own lists, and adopting them changes nothing but which end of an edge is first
Copies == (Adopts(S, Seen, TRUE)) = TRUE /\ LET C == Adopt(S, Seen) IN C.lst = S.lst /\ C.W = S.W /\ \A k \in Keys(S) : Range(C.A[k]) = Range(S.A[k])
\* a copy made by creating each edge of the whole-graph order once has the same edges at every vertex, whatever the order of creation
Whole == Walk(0, {}, << >>)
CopyOf(o) == LET S0 == Resize(Empty, S.n, 0)
                 es == [j \in DOMAIN o |-> <<S.A[o[j]][1], S.A[o[j]][2], S.W[o[j]]>>]
             IN AddEdges(S0, es, 1)
SeenOf(X) == [u \in 1..X.n |-> [j \in DOMAIN Lst(X, u - 1) |-> <<Pairs(X, u - 1)[j][1], Pairs(X, u - 1)[j][2], Lst(X, u - 1)[j]>>]]
CopyAnyOrder == LET o == Whole IN (Adopts(S, SeenOf(CopyOf(o)), FALSE)) = TRUE /\ (Adopts(S, SeenOf(CopyOf(Reverse(o))), FALSE)) = TRUE
\* an empty or partial copy is not mistaken for a copy
NoLess == S.A # << >> => ~Adopts(S, SeenOf(CopyOf(Tail(Whole))), FALSE)
====
