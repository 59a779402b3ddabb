---- MODULE AccessMC ----
(* The default access functions as programs over the primitive ones (vertices, edges of a vertex, target id): lookup and test of an  *)
(* edge by scanning the row, counting edges row by row, searching the first non-empty row, target and source through vertex lookup,   *)
(* incoming edges by scanning all rows.  On every stored graph up to the bound each gives what the stored graph says.                  *)
EXTENDS Store
CONSTANTS K, M
VARIABLES S, q, pc, u, j, acc, hit
vars == <<S, q, pc, u, j, acc, hit>>
Ids == 0..(K - 1)
Sets == {[kind |-> "idx", ids |-> Ids], [kind |-> "map", ids |-> {0, 2, 3}]}
Init == /\ \E w \in Sets : \E o \in {"seq", "rev", "set"} : \E m \in 0..M : \E es \in [1..m -> w.ids \X w.ids] :
             S = AddEdges(AddIds(EmptyGraph(w.kind, o, FALSE), w.ids), [x \in DOMAIN es |-> <<es[x][1], es[x][2], x>>])
        /\ q \in {"find", "count", "any", "in"} \X S.ids \X S.ids
        /\ (q[1] \in {"count", "any"} => q[2] = Min(S.ids) /\ q[3] = Min(S.ids))
        /\ pc = "run" /\ j = 1 /\ acc = 0 /\ hit = 0
        /\ u = IF q[1] = "find" THEN q[2] ELSE Min(S.ids)
Later == {x \in S.ids : x > u}
NextRow == IF Later = {} THEN pc' = "done" /\ UNCHANGED <<u, j>> ELSE u' = Min(Later) /\ j' = 1 /\ UNCHANGED pc
FindEdge == /\ q[1] = "find"
            /\ IF j > Len(S.out[u]) THEN pc' = "done" /\ UNCHANGED <<hit, j>>
               ELSE IF S.out[u][j][1] = q[3] THEN hit' = j /\ pc' = "done" /\ UNCHANGED j
               ELSE j' = j + 1 /\ UNCHANGED <<hit, pc>>
            /\ UNCHANGED <<S, q, u, acc>>
CountAll == /\ q[1] = "count" /\ acc' = acc + Len(S.out[u]) /\ NextRow /\ UNCHANGED <<S, q, hit>>
AnyRow == /\ q[1] = "any"
          /\ IF S.out[u] # << >> THEN hit' = 1 /\ pc' = "done" /\ UNCHANGED <<u, j>> ELSE NextRow /\ UNCHANGED hit
          /\ UNCHANGED <<S, q, acc>>
InScan == /\ q[1] = "in"
          /\ IF j > Len(S.out[u]) THEN NextRow /\ UNCHANGED acc
             ELSE j' = j + 1 /\ acc' = acc + (IF S.out[u][j][1] = q[2] THEN 1 ELSE 0) /\ UNCHANGED <<u, pc>>
          /\ UNCHANGED <<S, q, hit>>
Next == \/ pc = "run" /\ (FindEdge \/ CountAll \/ AnyRow \/ InScan)
        \/ pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Found == pc = "done" /\ q[1] = "find" =>
  /\ ObsOK(S, <<"fe", q[2], q[3], hit, IF hit = 0 THEN -1 ELSE q[3]>>) /\ ObsOK(S, <<"ce", q[2], q[3], hit # 0>>)
  /\ (hit # 0 => \A k \in 1..(hit - 1) : S.out[q[2]][k][1] # q[3])
Counted == pc = "done" /\ q[1] = "count" => acc = SumDeg(S)
AnyOK == pc = "done" /\ q[1] = "any" => ObsOK(S, <<"he", hit = 1>>)
InOK == pc = "done" /\ q[1] = "in" => acc = Len(InRows(S, q[2])) /\ ObsOK(S, <<"indeg", q[2], acc>>)
====
