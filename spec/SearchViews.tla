---- MODULE SearchViews ----
(* What iterating a breadth-first or depth-first view does, step by step, given the decisions taken after each        *)
(* element: continue, cut the branch of the element just given, or cancel everything.  Declarative: any order that a  *)
(* breadth-first (depth-first) search could have is admitted.                                                         *)
(* G is a set of arcs <<from, to, tag>>.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Nbrs(G, u) == {a[2] : a \in {x \in G : x[1] = u}}
Max2(a, b) == IF a >= b THEN a ELSE b
\* ---- vertices, breadth first.  disc: discovered, cur: of the level being given out, nxt: discovered one level further
BV0 == [on |-> FALSE, disc |-> {}, cur |-> {}, nxt |-> {}, front |-> -1, lev |-> 0, maxd |-> 0]
\* what happens on leaving the element last given
BVLeave(G, s, dec) ==
  IF ~s.on \/ dec # "continue" THEN s
  ELSE LET N == Nbrs(G, s.front) \ s.disc
       IN [s EXCEPT !.disc = @ \cup N, !.nxt = @ \cup N, !.maxd = IF N = {} THEN @ ELSE Max2(@, s.lev + 1)]
BVNext(s) == IF s.cur = {} THEN [s EXCEPT !.cur = s.nxt, !.nxt = {}, !.lev = @ + 1] ELSE s
BVCan(G, s, dec, seed) ==
  IF ~s.on THEN {seed} ELSE IF dec = "all" THEN {} ELSE BVNext(BVLeave(G, s, dec)).cur
BVGive(G, s, dec, seed, v) ==
  IF ~s.on THEN [on |-> TRUE, disc |-> {seed}, cur |-> {}, nxt |-> {}, front |-> seed, lev |-> 0, maxd |-> 0]
  ELSE LET t == BVNext(BVLeave(G, s, dec)) IN [t EXCEPT !.cur = @ \ {v}, !.front = v]
BVEnd(G, s, dec) == IF dec = "all" THEN s ELSE BVLeave(G, s, dec)
\* ---- edges, breadth first.  cur: the level from which edges are given out, nxt: the targets given, without those cut
BE0(seed) == [disc |-> {seed}, cur |-> {seed}, nxt |-> {}, last |-> -1, lev |-> 0, maxd |-> 0]
BELeave(s, dec) == IF dec = "branch" /\ s.last # -1 THEN [s EXCEPT !.nxt = @ \ {s.last}] ELSE s
Fresh(G, s) == {a \in G : a[1] \in s.cur /\ a[2] \notin s.disc}
BENext(G, s) == IF Fresh(G, s) = {} THEN [s EXCEPT !.cur = s.nxt, !.nxt = {}, !.lev = @ + 1] ELSE s
BECan(G, s, dec) == IF dec = "all" THEN {} ELSE Fresh(G, BENext(G, BELeave(s, dec)))
BEGive(G, s, dec, a) ==
  LET t == BENext(G, BELeave(s, dec))
  IN [t EXCEPT !.disc = @ \cup {a[2]}, !.nxt = @ \cup {a[2]}, !.last = a[2], !.maxd = Max2(@, t.lev + 1)]
\* ---- depth first.  path: from the seed to the element last given
D0 == [on |-> FALSE, disc |-> {}, path |-> << >>]
RECURSIVE Back(_, _)
Back(G, s) == IF s.path = << >> \/ Nbrs(G, s.path[Len(s.path)]) \ s.disc # {} THEN s
              ELSE Back(G, [s EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)])
DLeave(G, s, dec) == Back(G, IF dec = "branch" THEN [s EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)] ELSE s)
DStart(seed) == [on |-> TRUE, disc |-> {seed}, path |-> <<seed>>]
\* the arcs that may be taken next
DCan(G, s, dec) ==
  IF dec = "all" THEN {}
  ELSE LET t == DLeave(G, s, dec) IN IF t.path = << >> THEN {} ELSE {a \in G : a[1] = t.path[Len(t.path)] /\ a[2] \notin t.disc}
DGive(G, s, dec, v) ==
  LET t == DLeave(G, s, dec) IN [t EXCEPT !.disc = @ \cup {v}, !.path = Append(@, v)]
====
