---- MODULE ViewsTrace ----
(* What every basic view of a graph enumerates: the graph's vertices, edges and neighbours, in the order in which    *)
(* the access functions give them, with the ids, descriptors and computed values of that element.                    *)
EXTENDS Store, TraceBase
VARIABLES S
vars == <<ep, i, S>>
E0 == EmptyGraph(T.kind, T.ord, FALSE)
Init == TBInit /\ S = E0
Lookup(tab, id) == (CHOOSE x \in Range(tab) : x[1] = id)[2]
\* the graph's own order of vertices and of the edges of each, which must be those stored
OwnOK(S_, o) ==
  /\ ObsOK(S_, <<"vs", o[2]>>)
  /\ Len(o[3]) = Len(o[2]) /\ Len(o[4]) = Len(o[2])
  /\ \A j \in DOMAIN o[2] : o[3][j][1] = o[2][j] /\ ObsOK(S_, <<"out", o[2][j], o[3][j][2]>>)
  /\ \A j \in DOMAIN o[2] : o[4][j][1] = o[2][j] /\ (o[4][j][2] = << >> \/ ObsOK(S_, <<"in", o[2][j], o[4][j][2]>>))
RECURSIVE Flat(_)
Flat(rows) == IF rows = << >> THEN << >> ELSE Head(rows)[2] \o Flat(Tail(rows))
\* one field of one element; k = what the value functions add
VField(id, f, k) == CASE f = "id" -> id [] f = "desc" -> id [] f = "vval" -> id * 10 + k
EField(e, f, k) == CASE f = "src" -> e[1] [] f = "tgt" -> e[2] [] f = "w" -> e[3]
                     [] f = "eval" -> e[2] * 10000 + e[3] + k [] f = "tval" -> e[2] * 10 + k
                     [] f = "seval" -> e[1] * 10000 + e[3] + k [] f = "sval" -> e[1] * 10 + k
Only(os, what) == CHOOSE o \in Range(os) : o[1] = what
Elements(os, what, uid) ==
  LET own == os[1] IN
  CASE what = "vl"    -> own[2]
    [] what = "vsub"  -> LET o == Only(os, "sub") IN SubSeq(own[2], o[2] + 1, o[3])
    [] what = "vpart" -> Only(os, "part")[2]
    [] what = "inc"   -> Lookup(own[3], uid)
    [] what = "in"    -> Lookup(own[4], uid)
    [] what = "el"    -> Flat(own[3])
OfVertices(what) == what \in {"vl", "vsub", "vpart"}
\* <<"V", what, fields, vertex, k, rows, size, how many were dropped in front>>
ViewOK(os, o) ==
  LET all == Elements(os, o[2], o[4])
      b   == SubSeq(all, o[8] + 1, Len(all))
  IN /\ o[7] \in {-1, Len(all)}
     /\ o[6] = [j \in DOMAIN b |-> [c \in DOMAIN o[3] |-> IF OfVertices(o[2]) THEN VField(b[j], o[3][c], o[5]) ELSE EField(b[j], o[3][c], o[5])]]
ItemOK(S_, os, o) ==
  CASE o[1] = "own" -> OwnOK(S_, o)
    [] o[1] = "V" -> ViewOK(os, o)
    [] o[1] = "Vempty" -> o[4] = (Elements(os, o[2], o[3]) = << >>)
    [] o[1] = "sub" -> o[2] <= o[3] /\ o[3] <= N(S_)
    [] o[1] = "part" -> Range(o[2]) \subseteq S_.ids
    [] OTHER -> ObsOK(S_, o)
AllOK(S_, os) == \A j \in DOMAIN os : ItemOK(S_, os, os[j]) \/ (PrintT(<<"NOT", T.rep, E[1], os[j]>>) /\ FALSE)
\* the graph with every edge reversed; in which order is not said
Reversed(S_) == [S_ EXCEPT !.ord = "uset", !.out = [v \in S_.ids |-> LET r == InRows(S_, v) IN [j \in DOMAIN r |-> <<r[j][1], r[j][3]>>]]]
Step(e) ==
  \/ e[1] = "build" /\ LET S1 == TLCEval(AddEdges(AddIds(E0, Range(e[2])), e[3])) IN S' = [S1 EXCEPT !.ne = IF e[4] = -1 THEN @ ELSE e[4]]
  \/ e[1] \in {"obs", "same"} /\ AllOK(S, e[2]) = TRUE /\ UNCHANGED S
  \/ e[1] = "reversed" /\ AllOK(TLCEval(Reversed(S)), e[2]) = TRUE /\ UNCHANGED S
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
