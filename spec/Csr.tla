---- MODULE Csr ----
(* compressed_graph: built once from edges grouped by source, vertex values before or after, partitions.      *)
EXTENDS Store
C0 == [parts |-> <<0>>] @@ EmptyGraph("idx", "seq", FALSE)
Grow(S, n) == AddIds(S, Upto(Max({N(S), n})))
\* load_edges is called on a graph without edges, but it may have vertices
CsrLoadEdges(S, es, vc) == AddEdges(Grow(S, Max({vc, IF es = << >> THEN 0 ELSE MaxId(es) + 1})), es)
CsrLoadVertices(S, vs, vc) ==
  LET S2 == Grow(S, Max({vc} \cup {v[1] + 1 : v \in Range(vs)})) IN [S2 EXCEPT !.val = SetVals(@, vs)]
Sorted(es) == \A j \in 1..(Len(es) - 1) : es[j][1] <= es[j + 1][1]
PartsOK(S, ps) == ps = << >> \/ (ps[1] = 0 /\ Ascending(ps) /\ ps[Len(ps)] <= N(S))
WithParts(S, ps) == [S EXCEPT !.parts = IF ps = << >> THEN <<0>> ELSE ps]
CsrClear(S) == [C0 EXCEPT !.gv = S.gv]
\* partition p (from 0): consecutive ids
NumParts(S) == Len(S.parts)
PartIds(S, p) == IF p \notin 0..(NumParts(S) - 1) THEN {}
                 ELSE S.parts[p + 1]..((IF p + 2 <= NumParts(S) THEN S.parts[p + 2] ELSE N(S)) - 1)
\* all edges in storage order, as rows
RECURSIVE AllRows(_, _)
AllRows(S, u) == IF u = N(S) THEN << >> ELSE Rows(S, u) \o AllRows(S, u + 1)
IdsSeq(n) == [k \in 1..n |-> k - 1]
CsrObsOK(S, o) ==
  CASE o[1] = "np"  -> o[2] = NumParts(S)
    [] o[1] = "pv"  -> Range(o[3]) = PartIds(S, o[2]) /\ Ascending(o[3])
    [] o[1] = "pn"  -> o[3] = Cardinality(PartIds(S, o[2]))
    [] o[1] = "pid" -> o[3] \in 0..(NumParts(S) - 1) /\ o[2] \in PartIds(S, o[3])
    \* access by raw ids: all vertex ids, all edge ids, edge ids of a vertex, then target and value of every edge id
    [] o[1] = "vids" -> o[2] = IdsSeq(N(S))
    [] o[1] = "eids" -> o[2] = IdsSeq(S.ne)
    [] o[1] = "veids" -> o[3] = IF o[2] \in S.ids
                                THEN LET b == Len(AllRows([S EXCEPT !.ids = Upto(o[2])], 0)) IN [k \in 1..Len(S.out[o[2]]) |-> b + k - 1]
                                ELSE << >>
    [] o[1] = "etv" -> LET a == AllRows(S, 0) IN Len(o[2]) = Len(a) /\ \A k \in DOMAIN a : o[2][k] = <<a[k][2], a[k][3]>>
    [] OTHER -> ObsOK(S, o)
====
