---- MODULE ViewsMC ----
(* The edge-list view as it walks: a vertex position, an edge position within the edges of that vertex and the end of *)
(* those edges, moving over vertices without edges; two iterators of one traversal are equal exactly when as many     *)
(* edges remain.  For every graph shape, any number of traversals started and copies taken at any time.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxV, MaxD, NIt
VARIABLES len, its
vars == <<len, its>>
NV == Len(len)
\* an iterator: v = vertex position (NV + 1 = end), e = edge position in its edges, eend = end of them, seen = elements passed
Adv(it) == \* to the next vertex with edges, from it.v on
  LET W == {w \in it.v..NV : len[w] > 0} IN
  IF W = {} THEN [it EXCEPT !.v = NV + 1]
  ELSE LET w == CHOOSE x \in W : \A y \in W : x <= y IN [it EXCEPT !.v = w, !.e = 1, !.eend = len[w] + 1]
Begin == Adv([v |-> 1, e |-> 0, eend |-> 0, seen |-> << >>])
End   == [v |-> NV + 1, e |-> 0, eend |-> 0, seen |-> << >>]
AtEnd(it) == it.v = NV + 1
Equal(a, b) == IF AtEnd(a) /\ AtEnd(b) THEN TRUE ELSE IF AtEnd(a) \/ AtEnd(b) THEN FALSE ELSE a.v = b.v /\ a.e = b.e
Inc(it) == LET t == [it EXCEPT !.seen = Append(@, <<it.v, it.e>>), !.e = @ + 1]
           IN IF t.e = t.eend THEN Adv([t EXCEPT !.v = @ + 1]) ELSE t
RECURSIVE FlatTo(_)
FlatTo(v) == IF v = 0 THEN << >> ELSE FlatTo(v - 1) \o [j \in 1..len[v] |-> <<v, j>>]
Flat == FlatTo(NV)
Init == /\ \E n \in 0..MaxV : len \in [1..n -> 0..MaxD]
        /\ its = << >>
Next == \/ Len(its) < NIt /\ its' = Append(its, Begin) /\ UNCHANGED len
        \/ Len(its) < NIt /\ \E j \in DOMAIN its : its' = Append(its, its[j]) /\ UNCHANGED len
        \/ \E j \in DOMAIN its : ~AtEnd(its[j]) /\ its' = [its EXCEPT ![j] = Inc(@)] /\ UNCHANGED len
Spec == Init /\ [][Next]_vars
\* what an iterator has passed is a prefix of all edges, and it stands on the next one
Exact == \A j \in DOMAIN its : LET it == its[j] IN
  /\ Len(it.seen) <= Len(Flat) /\ it.seen = SubSeq(Flat, 1, Len(it.seen))
  /\ IF AtEnd(it) THEN it.seen = Flat ELSE Len(it.seen) < Len(Flat) /\ Flat[Len(it.seen) + 1] = <<it.v, it.e>>
EqualOK == \A a, b \in DOMAIN its : Equal(its[a], its[b]) = (Len(its[a].seen) = Len(its[b].seen))
EndOK == \A a \in DOMAIN its : Equal(its[a], End) = AtEnd(its[a])
====
