---- MODULE DFS ----
(* Depth-first search from one source as seen through its callbacks; the order of the edges of a vertex is open. *)
EXTENDS Graphs
VARIABLES ph,    \* "init" -> "start" -> "disc" -> "top" <-> "class" -> "fe" -> ...
          stk,   \* vertices being visited, outermost first
          rem,   \* for each of them the set of out-arcs not yet examined
          disc,  \* discovered vertices
          pend   \* arc being reported, or 0
dvars == <<ph, stk, rem, disc, pend>>
DInit == ph = "init" /\ stk = << >> /\ rem = << >> /\ disc = {} /\ pend = 0
Top == stk[Len(stk)]
TopRem == rem[Len(rem)]
OnStack(v) == \E j \in DOMAIN stk : stk[j] = v

Initialize(s, v) == ph = "init" /\ v = s /\ ph' = "start" /\ UNCHANGED <<stk, rem, disc, pend>>
Start(s, v)      == ph = "start" /\ v = s /\ ph' = "disc" /\ UNCHANGED <<stk, rem, disc, pend>>
Discover(g, s, v) ==
  /\ ph = "disc" /\ v = (IF stk = << >> THEN s ELSE Dst(g, pend)) /\ v \notin disc
  /\ disc' = disc \cup {v} /\ stk' = Append(stk, v) /\ rem' = Append(rem, Out(g, v))
  /\ pend' = 0 /\ ph' = "top"
ExamineEdge(k) ==
  /\ ph = "top" /\ stk # << >> /\ k \in TopRem
  /\ rem' = [rem EXCEPT ![Len(rem)] = @ \ {k}] /\ pend' = k /\ ph' = "class"
  /\ UNCHANGED <<stk, disc>>
Class(g, k) == IF Dst(g, k) \notin disc THEN "tree" ELSE IF OnStack(Dst(g, k)) THEN "back" ELSE "fwd"
Classify(g, k, c) == /\ ph = "class" /\ k = pend /\ c = Class(g, k) /\ ph' = "fe" /\ UNCHANGED <<stk, rem, disc, pend>>
FinishEdge(g, k) ==
  /\ ph = "fe" /\ k = pend
  /\ IF Dst(g, k) \in disc THEN ph' = "top" /\ pend' = 0 ELSE ph' = "disc" /\ pend' = pend
  /\ UNCHANGED <<stk, rem, disc>>
FinishVertex(v) ==
  /\ ph = "top" /\ stk # << >> /\ v = Top /\ TopRem = {}
  /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ rem' = SubSeq(rem, 1, Len(rem) - 1)
  /\ UNCHANGED <<ph, disc, pend>>
Ended == ph = "top" /\ stk = << >>
====
