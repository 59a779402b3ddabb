---- MODULE Store ----
(* The contents of a graph container, and what every operation of dynamic_graph does to them.               *)
(* A graph S is a record: kind "idx" (vertices 0..n-1), "map" (any ids, ascending) or "umap" (any ids, any  *)
(* order); ord = order of the edges of one vertex: "seq" insertion order, "rev" reverse insertion order,     *)
(* "set" one edge per target, ascending, the first one stays, "uset" the same in any order;                  *)
(* ids = vertex ids, val = id -> value, out = id -> sequence of <<target, value>>, in = id -> sequence of    *)
(* <<source, value>> (only if bid), ne = reported number of edges, gv = graph value.                         *)
EXTENDS Graphs
EmptyGraph(kind, ord, bid) == [kind |-> kind, ord |-> ord, bid |-> bid, ids |-> {}, val |-> << >>, out |-> << >>, in |-> << >>, ne |-> 0, gv |-> 0]
N(S) == Cardinality(S.ids)
Assoc(S) == S.kind # "idx"
AddIds(S, X) ==
  LET new == X \ S.ids IN
  IF new = {} THEN S
  ELSE [S EXCEPT !.ids = @ \cup new, !.val = @ @@ [x \in new |-> 0], !.out = @ @@ [x \in new |-> << >>],
                 !.in = IF S.bid THEN @ @@ [x \in new |-> << >>] ELSE @]
Put(ord, s, x) ==
  CASE ord = "seq" -> Append(s, x)
    [] ord = "rev" -> <<x>> \o s
    [] OTHER -> IF \E j \in DOMAIN s : s[j][1] = x[1] THEN s
                ELSE SelectSeq(s, LAMBDA y : y[1] < x[1]) \o <<x>> \o SelectSeq(s, LAMBDA y : y[1] > x[1])
AddEdge(S, e) == [S EXCEPT !.out[e[1]] = Put(S.ord, @, <<e[2], e[3]>>),
                           !.in = IF S.bid THEN [@ EXCEPT ![e[2]] = Put(S.ord, @, <<e[1], e[3]>>)] ELSE @,
                           !.ne = @ + 1]
RECURSIVE AddEdges(_, _)
AddEdges(S, es) == IF es = << >> THEN S ELSE AddEdges(TLCEval(AddEdge(S, Head(es))), Tail(es))
MaxId(es) == Max({e[1] : e \in Range(es)} \cup {e[2] : e \in Range(es)})
Upto(n) == 0..(n - 1)
\* --- load_edges(es, vertex count vc, multi-pass range?) : [res, S]; a failed load leaves the graph unspecified
Ends(es) == {e[1] : e \in Range(es)} \cup {e[2] : e \in Range(es)}
LoadEdges(S, es, vc, multipass) ==
  IF Assoc(S) THEN [res |-> "ok", S |-> AddEdges(AddIds(S, Ends(es)), es)]
  ELSE LET infer == vc = 0 /\ multipass /\ es # << >>
           n2 == Max({N(S), vc, IF infer THEN MaxId(es) + 1 ELSE 0})
           S2 == AddIds(S, Upto(n2))
       IN IF Ends(es) \subseteq S2.ids THEN [res |-> "ok", S |-> AddEdges(S2, es)] ELSE [res |-> "throw", S |-> S]
\* --- load_vertices(vs = sequence of <<id, value>>, vc)
RECURSIVE SetVals(_, _)
SetVals(val, vs) == IF vs = << >> THEN val ELSE SetVals(TLCEval([val EXCEPT ![Head(vs)[1]] = Head(vs)[2]]), Tail(vs))
LoadVertices(S, vs, vc) ==
  LET X == {v[1] : v \in Range(vs)}
      S2 == IF Assoc(S) THEN AddIds(S, X) ELSE AddIds(S, Upto(Max({N(S), vc, Len(vs)})))
  IN IF X \subseteq S2.ids THEN [res |-> "ok", S |-> [S2 EXCEPT !.val = SetVals(@, vs)]] ELSE [res |-> "throw", S |-> S]
ResizeVertices(S, n) == IF Assoc(S) THEN S ELSE AddIds(S, Upto(Max({N(S), n})))
Clear(S) == [EmptyGraph(S.kind, S.ord, S.bid) EXCEPT !.gv = S.gv]
SetVal(S, id, x) == [S EXCEPT !.val[id] = x]
SetEdgeVal(S, u, pos, x) == [S EXCEPT !.out[u][pos][2] = x]
PosOf(S, u, v) == CHOOSE j \in DOMAIN S.out[u] : S.out[u][j][1] = v
SetGV(S, x) == [S EXCEPT !.gv = x]

\* --- what the access functions report ----------------------------------------------------------------------
Rows(S, u) == [j \in DOMAIN S.out[u] |-> <<u, S.out[u][j][1], S.out[u][j][2]>>]
Leads(S, u, v) == \E j \in DOMAIN S.out[u] : S.out[u][j][1] = v
\* the edges of the whole graph that lead to v, as rows
RECURSIVE CatR(_, _, _)
CatR(S, X, v) == IF X = {} THEN << >>
                 ELSE LET u == CHOOSE x \in X : TRUE IN SelectSeq(Rows(S, u), LAMBDA r : r[2] = v) \o CatR(S, X \ {u}, v)
InRows(S, v) == CatR(S, S.ids, v)
Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
SumDeg(S) == LET RECURSIVE Su(_)
                 Su(X) == IF X = {} THEN 0 ELSE LET u == CHOOSE x \in X : TRUE IN Len(S.out[u]) + Su(X \ {u})
             IN Su(S.ids)
ObsOK(S, o) ==
  CASE o[1] = "nv"  -> o[2] = N(S)
    [] o[1] = "ne"  -> o[2] = S.ne
    [] o[1] = "he"  -> o[2] = (\E u \in S.ids : S.out[u] # << >>)
    [] o[1] = "vs"  -> Range(o[2]) = S.ids /\ Len(o[2]) = N(S) /\ (S.kind = "umap" \/ Ascending(o[2]))
    [] o[1] = "vv"  -> {r[1] : r \in Range(o[2])} = S.ids /\ Len(o[2]) = N(S) /\ \A r \in Range(o[2]) : S.val[r[1]] = r[2]
    [] o[1] = "gv"  -> o[2] = S.gv
    [] o[1] = "out" -> o[2] \in S.ids /\ IF S.ord = "uset" THEN SameBag(o[3], Rows(S, o[2])) ELSE o[3] = Rows(S, o[2])
    [] o[1] = "deg" -> o[2] \in S.ids /\ o[3] = Len(S.out[o[2]])
    [] o[1] = "fv"  -> o[3] = IF o[2] \in S.ids THEN o[2] ELSE -1
    \* find_vertex_edge(g, u, v): position of the result among the edges of u (0: none), its target
    [] o[1] = "fe"  -> IF o[2] \in S.ids /\ Leads(S, o[2], o[3])
                       THEN o[4] \in 1..Len(S.out[o[2]]) /\ o[5] = o[3] /\ (S.ord = "uset" \/ S.out[o[2]][o[4]][1] = o[3])
                       ELSE o[4] = 0
    [] o[1] = "ce"  -> o[4] = (o[2] \in S.ids /\ Leads(S, o[2], o[3]))
    [] o[1] = "in"  -> o[2] \in S.ids /\ SameBag(o[3], InRows(S, o[2]))
    [] o[1] = "indeg" -> o[2] \in S.ids /\ o[3] = Len(InRows(S, o[2]))
    \* find_in_edge(g, u, v): position among the incoming edges of u, its source
    [] o[1] = "fie" -> IF o[3] \in S.ids /\ Leads(S, o[3], o[2])
                       THEN o[4] \in 1..Len(InRows(S, o[2])) /\ o[5] = o[3]
                       ELSE o[4] = 0
    [] o[1] = "cie" -> o[4] = (o[3] \in S.ids /\ Leads(S, o[3], o[2]))
====
