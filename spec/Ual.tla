---- MODULE Ual ----
(* The contents of an undirected adjacency list: n vertices with values, and for each vertex the sequence of the keys of its      *)
(* edges (a self-loop is there once); A[k] = the two ends of edge k, W[k] = its value; gv = graph value.                          *)
EXTENDS Graphs
Empty == [n |-> 0, val |-> << >>, lst |-> << >>, A |-> << >>, W |-> << >>, gv |-> 0]
Ids(S) == 0..(S.n - 1)
Keys(S) == DOMAIN S.A
Other(S, k, u) == IF S.A[k][1] = u THEN S.A[k][2] ELSE S.A[k][1]
AddVertex(S, w) == [S EXCEPT !.n = @ + 1, !.val = Append(@, w), !.lst = Append(@, << >>)]
Val(S, u) == S.val[u + 1]
Lst(S, u) == S.lst[u + 1]
AddEdge(S, u, v, k, w) ==
  [S EXCEPT !.A = (k :> <<u, v>>) @@ @, !.W = (k :> w) @@ @,
            !.lst = [x \in DOMAIN @ |-> IF x - 1 \in {u, v} THEN Append(@[x], k) ELSE @[x]]]
\* remove the edges K: from the lists of both ends
Erase(S, K) ==
  [S EXCEPT !.A = [k \in Keys(S) \ K |-> @[k]], !.W = [k \in Keys(S) \ K |-> @[k]],
            !.lst = [x \in DOMAIN @ |-> SelectSeq(@[x], LAMBDA k : k \notin K)]]
ClearEdges(S, u) == Erase(S, Range(Lst(S, u)))
Clear(S) == [Empty EXCEPT !.gv = S.gv]
Resize(S, m, w) ==
  IF m < S.n THEN LET S2 == Erase(S, {k \in Keys(S) : S.A[k][1] >= m \/ S.A[k][2] >= m})
                  IN [S2 EXCEPT !.n = m, !.val = SubSeq(@, 1, m), !.lst = SubSeq(@, 1, m)]
  ELSE [S EXCEPT !.n = m, !.val = @ \o [j \in 1..(m - S.n) |-> w], !.lst = @ \o [j \in 1..(m - S.n) |-> << >>]]
RECURSIVE AddEdges(_, _, _)
AddEdges(S, es, k) == IF es = << >> THEN S ELSE AddEdges(TLCEval(AddEdge(S, Head(es)[1], Head(es)[2], k, Head(es)[3])), Tail(es), k + 1)
\* a new graph: n vertices, the first of them with the values vals, and edges <<u, v, value>>
New(es, n, vals, gv) ==
  LET S0 == [Empty EXCEPT !.n = n, !.val = [j \in 1..n |-> IF j <= Len(vals) THEN vals[j] ELSE 0], !.lst = [j \in 1..n |-> << >>], !.gv = gv]
  IN AddEdges(S0, es, 1)

\* --- the lists of a graph as they are seen from outside: L[u + 1] = sequence of <<other end, value, key>> ------------------------
Pairs(S, u) == [j \in DOMAIN Lst(S, u) |-> <<Other(S, Lst(S, u)[j], u), S.W[Lst(S, u)[j]]>>]
KeysOf(L) == UNION {{L[x][j][3] : j \in DOMAIN L[x]} : x \in DOMAIN L}
Proj(l) == [j \in DOMAIN l |-> <<l[j][1], l[j][2]>>]
\* L shows each edge from both ends with the same identity and value (a self-loop once)
WellLinked(L) ==
  \A x \in DOMAIN L : \A j \in DOMAIN L[x] :
    LET t == L[x][j] IN
    /\ \A i \in DOMAIN L[x] : L[x][i][3] = t[3] => i = j
    /\ \A y \in DOMAIN L \ {x} : \A i \in DOMAIN L[y] : L[y][i][3] = t[3] => y = t[1] + 1
    /\ t[1] + 1 \in DOMAIN L
    /\ t[1] + 1 # x => \E i \in DOMAIN L[t[1] + 1] : L[t[1] + 1][i] = <<x - 1, t[2], t[3]>>
\* the graph S with the keys (and, unless ordered, the order within each list) of L
Adopts(S, L, ordered) ==
  /\ Len(L) = S.n /\ WellLinked(L)
  /\ \A u \in Ids(S) : IF ordered THEN Proj(L[u + 1]) = Pairs(S, u) ELSE SameBag(Proj(L[u + 1]), Pairs(S, u))
Adopt(S, L) ==
  LET K == KeysOf(L)
      at(k) == CHOOSE p \in {<<x, j>> : x \in DOMAIN L, j \in 1..Max({0} \cup {Len(L[x]) : x \in DOMAIN L})} : p[2] \in DOMAIN L[p[1]] /\ L[p[1]][p[2]][3] = k
      P == [k \in K |-> at(k)]
  IN [S EXCEPT !.A = [k \in K |-> <<P[k][1] - 1, L[P[k][1]][P[k][2]][1]>>], !.W = [k \in K |-> L[P[k][1]][P[k][2]][2]],
               !.lst = [x \in DOMAIN L |-> [j \in DOMAIN L[x] |-> L[x][j][3]]]]

\* --- what is observed -----------------------------------------------------------------------------------------------------------
Deg(S, u) == Len(Lst(S, u))
Rows(S, u) == [j \in DOMAIN Lst(S, u) |-> <<u, Pairs(S, u)[j][1], Pairs(S, u)[j][2]>>]
InRows(S, u) == [j \in DOMAIN Lst(S, u) |-> <<Pairs(S, u)[j][1], u, Pairs(S, u)[j][2]>>]
Leads(S, u, v) == u \in Ids(S) /\ \E j \in DOMAIN Lst(S, u) : Other(S, Lst(S, u)[j], u) = v
WholeRow(S, k) == <<Min({S.A[k][1], S.A[k][2]}), Max({S.A[k][1], S.A[k][2]}), S.W[k], k>>
ObsOK(S, o) ==
  CASE o[1] = "nv"  -> o[2] = S.n
    [] o[1] = "ne"  -> o[2] = Cardinality(Keys(S))
    [] o[1] = "he"  -> o[2] = (Keys(S) # {})
    [] o[1] = "vs"  -> o[2] = [j \in 1..S.n |-> j - 1]
    [] o[1] = "vv"  -> o[2] = [j \in 1..S.n |-> <<j - 1, S.val[j]>>]
    [] o[1] = "gv"  -> o[2] = S.gv
    [] o[1] = "out" -> o[3] = Rows(S, o[2])
    [] o[1] = "in"  -> o[3] = InRows(S, o[2])
    [] o[1] \in {"deg", "indeg"} -> o[3] = Deg(S, o[2])
    [] o[1] = "fv"  -> o[3] = IF o[2] \in Ids(S) THEN o[2] ELSE -1
    [] o[1] = "fe"  -> IF Leads(S, o[2], o[3]) THEN o[4] \in 1..Deg(S, o[2]) /\ o[5] = o[3] /\ Pairs(S, o[2])[o[4]][1] = o[3] ELSE o[4] = 0
    [] o[1] = "fie" -> IF Leads(S, o[2], o[3]) THEN o[4] \in 1..Deg(S, o[2]) /\ o[5] = o[3] ELSE o[4] = 0
    [] o[1] \in {"ce", "cie"} -> o[4] = Leads(S, o[2], o[3])
    \* the list of a vertex, with identities
    [] o[1] = "lst" -> o[3] = [j \in DOMAIN Lst(S, o[2]) |-> <<Pairs(S, o[2])[j][1], Pairs(S, o[2])[j][2], Lst(S, o[2])[j]>>]
    \* the edges of the whole graph, each once
    [] o[1] = "whole" -> Len(o[2]) = Cardinality(Keys(S)) /\ Range(o[2]) = {WholeRow(S, k) : k \in Keys(S)}
    [] o[1] = "nb"  -> o[3] = [j \in DOMAIN Lst(S, o[2]) |-> Pairs(S, o[2])[j][1]]
    [] o[1] = "ends" -> o[3] = Lst(S, o[2])[1] /\ o[4] = Lst(S, o[2])[Deg(S, o[2])]
====
