---- MODULE CsrMC ----
(* The row/column arrays of a compressed graph, filled edge by edge as load_edges does, closed by the terminating row, extended by  *)
(* load_vertices, cut by partition starts: they represent exactly the abstract graph.                                               *)
EXTENDS Csr, SequencesExt
CONSTANTS K, M
VARIABLES pre, es, vs, ps, row, col, todo, stage, nv, last
vars == <<pre, es, vs, ps, row, col, todo, stage, nv, last>>
Ids == 0..(K - 1)
EdgeSeqs == UNION {{s \in [1..m -> Ids \X Ids] : \A j \in 1..(m - 1) : s[j][1] <= s[j + 1][1]} : m \in 0..M}
Init == /\ pre \in {0, 1, K + 2}       \* vertices loaded before the edges
        /\ es \in EdgeSeqs /\ vs \in {<< >>, <<<<0, 7>>>>, <<<<K, 8>>, <<0, 9>>>>}
        /\ ps \in {<< >>, <<0>>, <<0, 1>>, <<0, 1, 2>>, <<0, K>>, <<1>>, <<0, 2, 1>>}
        /\ row = << >> /\ col = << >> /\ todo = es /\ stage = "edges" /\ nv = 0 /\ last = 0
Resize(s, n, x) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE x]
Add == /\ stage = "edges" /\ todo # << >>
       /\ LET e == Head(todo) IN
            /\ row' = IF e[1] # last \/ row = << >> THEN Resize(row, e[1] + 1, Len(col)) ELSE row
            /\ last' = e[1] /\ col' = Append(col, e[2])
       /\ todo' = Tail(todo) /\ UNCHANGED <<pre, es, vs, ps, stage, nv>>
CloseRows == /\ stage = "edges" /\ todo = << >> /\ stage' = "vertices"
             /\ nv' = IF es = << >> THEN pre ELSE Max({Len(row), pre} \cup {c + 1 : c \in Range(col)})
             /\ row' = IF es = << >> /\ pre = 0 THEN << >> ELSE Resize(row, nv' + 1, Len(col))
             /\ UNCHANGED <<pre, es, vs, ps, col, todo, last>>
Verts == /\ stage = "vertices" /\ stage' = "done"
         /\ nv' = Max({nv} \cup {v[1] + 1 : v \in Range(vs)})
         /\ row' = IF nv' > nv THEN Resize(row, nv' + 1, Len(col)) ELSE row
         /\ UNCHANGED <<pre, es, vs, ps, col, todo, last>>
Next == \/ Add
        \/ CloseRows
        \/ Verts
        \/ stage = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Numb(s) == [k \in DOMAIN s |-> <<s[k][1], s[k][2], k>>]
Model == CsrLoadVertices(CsrLoadEdges(Grow(C0, pre), Numb(es), 0), vs, 0)
Correct == stage = "done" =>
  /\ N(Model) = nv /\ (nv > 0 => Len(row) = nv + 1 /\ row[nv + 1] = Len(col))
  /\ \A u \in Model.ids : Rows(Model, u) = [k \in 1..(row[u + 2] - row[u + 1]) |-> <<u, col[row[u + 1] + k], row[u + 1] + k>>]
  /\ \A u \in Model.ids : Rows(Model, u) = SelectSeq(Numb(es), LAMBDA e : e[1] = u)
  /\ PartsOK(Model, ps) => LET P == WithParts(Model, ps) IN
       /\ UNION {PartIds(P, p) : p \in 0..(NumParts(P) - 1)} = P.ids
       /\ \A p, q \in 0..(NumParts(P) - 1) : p < q => \A x \in PartIds(P, p), y \in PartIds(P, q) : x < y
       /\ \A v \in P.ids : \E p \in 0..(NumParts(P) - 1) : CsrObsOK(P, <<"pid", v, p>>)
====
