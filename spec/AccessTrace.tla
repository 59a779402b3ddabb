---- MODULE AccessTrace ----
(* A graph is stored in some representation; everything the access functions say about it is what was stored.        *)
EXTENDS Store, TraceBase
VARIABLES S, parts
vars == <<ep, i, S, parts>>
E0 == EmptyGraph(T.kind, T.ord, FALSE)
Init == TBInit /\ S = E0 /\ parts = << >>
Less(a, b) == a < b
AccOK(o) ==
  CASE o[1] = "same"  -> o[4] = (o[2] = o[3]) /\ o[5] = o[4] /\ o[6]
    [] o[1] = "less"  -> o[4] = (o[2] < o[3])
    [] o[1] = "esame" -> o[6] = (o[2] = o[4] /\ o[3] = o[5]) /\ o[7] = o[6] /\ o[8]
    [] o[1] = "empty" -> o[2] = (S.ids = {})
    [] o[1] = "np"    -> o[2] = Len(parts)
    [] o[1] = "pid"   -> o[3] + 1 \in DOMAIN parts /\ o[2] \in Range(parts[o[3] + 1])
    [] o[1] = "pv"    -> IF o[2] + 1 \in DOMAIN parts
                         THEN IF S.kind = "umap" THEN SameBag(o[3], parts[o[2] + 1]) ELSE o[3] = parts[o[2] + 1]
                         ELSE o[3] = << >>
    [] o[1] = "pn"    -> o[3] = IF o[2] + 1 \in DOMAIN parts THEN Len(parts[o[2] + 1]) ELSE 0
    [] o[1] = "vvid"  -> o[3] = S.val[o[2]] /\ o[4] = o[3]
    [] OTHER -> ObsOK(S, o)
Step(e) ==
  \* ids, edges in order, number of edges, incoming edges?, partitions
  \/ e[1] = "build" /\ LET S1 == TLCEval(AddEdges(AddIds(E0, Range(e[2])), e[3])) IN S' = [S1 EXCEPT !.ne = IF e[4] = -1 THEN SumDeg(S1) ELSE e[4]] /\ parts' = e[6]
  \/ e[1] = "setv" /\ S' = SetVal(S, e[2], e[3]) /\ UNCHANGED parts
  \/ e[1] = "sete" /\ S' = SetEdgeVal(S, e[2], e[3], e[4]) /\ UNCHANGED parts
  \/ e[1] = "obs" /\ (\A k \in DOMAIN e[2] : AccOK(e[2][k]) \/ (PrintT(<<"NOT", T.rep, e[2][k]>>) /\ FALSE)) = TRUE /\ UNCHANGED <<S, parts>>
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
