---- MODULE Big ----
(* Families of graphs of any size, with closed forms for what every part of the library has to say about them.           *)
(* path, ring, star (hub 0), tri (triangles in a row, sharing corners), isles (separate triangles), multi (parallel edges).   *)
EXTENDS Graphs
NV_(f, n) == CASE f = "multi" -> 2 [] f = "tri" -> 2 * n + 1 [] f = "isles" -> 3 * n [] OTHER -> n
NE_(f, n) == CASE f \in {"path", "star"} -> n - 1 [] f \in {"tri", "isles"} -> 3 * n [] OTHER -> n
Vs(f, n) == 0..(NV_(f, n) - 1)
\* edge k = 0 .. NE-1 goes from A(k)[1] to A(k)[2]; undirected graphs have it both ways
A(f, n, k) == CASE f = "path" -> <<k, k + 1>> [] f = "ring" -> <<k, (k + 1) % n>> [] f = "star" -> <<0, k + 1>> [] f = "multi" -> <<0, 1>>
  [] f = "tri"   -> LET b == 2 * (k \div 3) IN IF k % 3 = 0 THEN <<b, b + 1>> ELSE IF k % 3 = 1 THEN <<b + 1, b + 2>> ELSE <<b, b + 2>>
  [] f = "isles" -> LET b == 3 * (k \div 3) IN IF k % 3 = 0 THEN <<b, b + 1>> ELSE IF k % 3 = 1 THEN <<b + 1, b + 2>> ELSE <<b + 2, b>>
Wf(k) == 1 + (k % 3)
\* ------- directed: from vertex 0
Lev(f, n, v) == CASE f \in {"path", "ring"} -> v [] f \in {"star", "multi"} -> IF v = 0 THEN 0 ELSE 1
  [] f = "tri" -> (v + 1) \div 2 [] f = "isles" -> IF v < 3 THEN v ELSE -1
NReached(f, n) == IF f = "isles" THEN IF n = 0 THEN 0 ELSE 3 ELSE NV_(f, n)
Dist(f, n, v) == CASE f \in {"path", "ring"} -> 6 * (v \div 3) + <<0, 1, 3>>[(v % 3) + 1]
  [] f = "star" -> IF v = 0 THEN 0 ELSE Wf(v - 1) [] f = "multi" -> v
  [] f = "tri" -> IF v % 2 = 0 THEN 3 * (v \div 2) ELSE 3 * (v \div 2) + 1
  [] f = "isles" -> IF v < 3 THEN <<0, 1, 3>>[v + 1] ELSE -1
\* the vertices in front of v on shortest paths
Before(f, n, v) == CASE f \in {"path", "ring"} -> {v - 1} [] f \in {"star", "multi"} -> {0}
  [] f = "tri" -> IF v % 2 = 1 THEN {v - 1} ELSE {v - 1, v - 2} [] f = "isles" -> {v - 1}
MaxLev(f, n) == CASE f \in {"path", "ring"} -> n - 1 [] f \in {"star", "multi"} -> 1 [] f = "tri" -> n [] f = "isles" -> 2
MaxStack(f, n) == IF f \in {"star", "multi"} THEN 2 ELSE NReached(f, n) \* (vertices on the longest way down that a depth-first search takes, seen while iterating)
BfsOK(f, n, o) == /\ Len(o) = NReached(f, n) /\ NoDup(o) /\ Range(o) \subseteq Vs(f, n)
                  /\ \A j \in 1..Len(o) : Lev(f, n, o[j]) >= 0 /\ (j > 1 => Lev(f, n, o[j - 1]) <= Lev(f, n, o[j]))
\* depth-first order of discovery and of finishing, where there is not much choice
DfsOK(f, n, d, e) == LET N == NReached(f, n) IN
  /\ Len(d) = N /\ Len(e) = N /\ NoDup(d) /\ Range(d) \subseteq Vs(f, n) /\ d[1] = 0
  /\ IF f = "star" THEN \A j \in 1..(N - 1) : e[j] = d[j + 1] /\ e[N] = 0
     ELSE \A j \in 1..N : e[j] = d[N + 1 - j] /\ d[j] = j - 1
TopoOK(f, n, ok, o) == IF f \in {"ring", "isles"} THEN ~ok
  ELSE /\ ok /\ Len(o) = NV_(f, n) /\ NoDup(o) /\ Range(o) \subseteq Vs(f, n) /\ (f = "star" => o[1] = 0)
       /\ f # "star" => \A j \in 1..Len(o) : o[j] = j - 1
\* d: -1 if not reached
PathOK(f, n, d, p) == /\ Len(d) = NV_(f, n) /\ Len(p) = Len(d)
  /\ \A v \in Vs(f, n) : d[v + 1] = Dist(f, n, v) /\ IF v = 0 \/ Lev(f, n, v) < 0 THEN p[v + 1] = v ELSE p[v + 1] \in Before(f, n, v)
\* ------- classes: the least vertex of the class of v, and how many classes there are
SRep(f, n, v) == CASE f = "ring" -> 0 [] f = "isles" -> 3 * (v \div 3) [] OTHER -> v
NScc(f, n) == CASE f = "ring" -> 1 [] f = "isles" -> n [] OTHER -> NV_(f, n)
CRep(f, n, v) == IF f = "isles" THEN 3 * (v \div 3) ELSE 0
NCc(f, n) == IF f = "isles" THEN n ELSE 1
SccBig(f, n, c) == Len(c) = NV_(f, n) /\ Range(c) = 0..(NScc(f, n) - 1) /\ \A v \in Vs(f, n) : c[v + 1] = c[SRep(f, n, v) + 1]
CcBig(f, n, c, k) == Len(c) = NV_(f, n) /\ k = NCc(f, n) /\ Range(c) = 0..(k - 1) /\ \A v \in Vs(f, n) : c[v + 1] = c[CRep(f, n, v) + 1]
AfBig(f, n, c) == Len(c) = NV_(f, n) /\ Cardinality(Range(c)) = NCc(f, n) /\ \A v \in Vs(f, n) : c[v + 1] = c[CRep(f, n, v) + 1] /\ c[c[v + 1] + 1] = c[v + 1]
\* ------- undirected
Cuts(f, n) == CASE f = "path" -> 1..(n - 2) [] f = "star" -> IF n > 2 THEN {0} ELSE {} [] f = "tri" -> {2 * j : j \in 1..(n - 1)} [] OTHER -> {}
BlockSets(f, n) == CASE f = "path" -> {{j, j + 1} : j \in 0..(n - 2)} [] f = "star" -> {{0, j} : j \in 1..(n - 1)}
  [] f = "tri" -> {{2 * j, 2 * j + 1, 2 * j + 2} : j \in 0..(n - 1)} [] f = "isles" -> {{3 * j, 3 * j + 1, 3 * j + 2} : j \in 0..(n - 1)} [] OTHER -> {Vs(f, n)}
ArtBig(f, n, o) == NoDup(o) /\ Range(o) = Cuts(f, n)
BlocksBig(f, n, s) == LET B == BlockSets(f, n) IN Len(s) = Cardinality(B) /\ {Range(s[j]) : j \in DOMAIN s} = B /\ \A j \in DOMAIN s : NoDup(s[j])
AllW(m) == 6 * (m \div 3) + <<0, 1, 3>>[(m % 3) + 1]       \* weight of the first m edges
TreeW(f, n) == CASE f \in {"path", "star"} -> AllW(n - 1) [] f = "ring" -> AllW(n) - 3 [] f = "multi" -> 1 [] OTHER -> 3 * n
TreeW0(f, n) == IF f = "isles" THEN 3 ELSE TreeW(f, n)       \* of the part of vertex 0
Nb(f, n, v) == CASE f = "path" -> {v - 1, v + 1} \cap 0..(n - 1) [] f = "ring" -> {(v + n - 1) % n, (v + 1) % n}
  [] f = "star" -> IF v = 0 THEN 1..(n - 1) ELSE {0} [] f = "multi" -> {1 - v}
  [] f = "tri" -> IF v % 2 = 1 THEN {v - 1, v + 1} ELSE {v - 2, v - 1, v + 1, v + 2} \cap 0..(2 * n)
  [] f = "isles" -> {3 * (v \div 3), 3 * (v \div 3) + 1, 3 * (v \div 3) + 2} \ {v}
MisBig(f, n, o, k) == LET M == Range(o) IN
  /\ NoDup(o) /\ k = Len(o) /\ M \subseteq Vs(f, n) /\ 0 \in M
  /\ \A v \in Vs(f, n) : (v \in M) = (\A u \in Nb(f, n, v) : u \notin M)
NTri(f, n) == CASE f \in {"tri", "isles"} -> n [] f = "ring" -> IF n = 3 THEN 1 ELSE 0 [] OTHER -> 0
Scale == 100000
\* triples <<u, v, value>>, one for each arc, in any order
JacBig(f, n, L) == /\ Len(L) = 2 * NE_(f, n) /\ Cardinality({<<L[j][1], L[j][2]>> : j \in DOMAIN L}) = Len(L)
  /\ \A j \in DOMAIN L : /\ L[j][2] \in Nb(f, n, L[j][1])
                         /\ LET a == Nb(f, n, L[j][1]) b == Nb(f, n, L[j][2]) un == Cardinality(a \cup b) x == L[j][3] * un - Scale * Cardinality(a \cap b)
                            IN 2 * x <= 2 * un /\ -2 * x <= 2 * un
\* labels at the end: every label one of the most frequent around
LpBig(f, n, l) == /\ Len(l) = NV_(f, n)
  /\ \A v \in Vs(f, n) : LET c(x) == Cardinality({u \in Nb(f, n, v) : l[u + 1] = x}) own == c(l[v + 1]) IN \A x \in {l[u + 1] : u \in Nb(f, n, v)} : c(x) <= own
\* ------- storage: rows of a graph as sequences of edge ids
Row(f, n, u) == CASE f \in {"path", "ring"} -> IF u < NE_(f, n) THEN <<u>> ELSE << >>
  [] f \in {"star", "multi"} -> IF u = 0 THEN [j \in 1..NE_(f, n) |-> j - 1] ELSE << >>
  [] f = "tri" -> IF u = 2 * n THEN << >> ELSE LET b == 3 * (u \div 2) IN IF u % 2 = 0 THEN <<b, b + 2>> ELSE <<b + 1>>
  [] f = "isles" -> <<u>>
\* all edges, vertex by vertex; ord: edges of a vertex in loading order ("seq"), backwards ("rev") or in any order
Flat(f, n, j) == IF f = "tri" THEN LET b == 3 * ((j - 1) \div 3) IN <<b, b + 2, b + 1>>[((j - 1) % 3) + 1] ELSE j - 1
ListOK(f, n, ord, ids) ==
  /\ Len(ids) = NE_(f, n)
  /\ CASE ord = "seq" -> \A j \in 1..Len(ids) : ids[j] = Flat(f, n, j)
     [] ord = "rev" -> IF f \in {"star", "multi"} THEN \A j \in 1..Len(ids) : ids[j] = Len(ids) - j
                       ELSE IF f = "tri" THEN \A j \in 1..Len(ids) : ids[j] = LET b == 3 * ((j - 1) \div 3) IN <<b + 2, b, b + 1>>[((j - 1) % 3) + 1]
                       ELSE \A j \in 1..Len(ids) : ids[j] = j - 1
     [] OTHER -> NoDup(ids) /\ Range(ids) \subseteq 0..(NE_(f, n) - 1)
Deg(f, n, u) == Len(Row(f, n, u))
\* the edges from u to v
Between(f, n, u, v) ==
  LET near == CASE f = "star" -> {v - 1} [] f = "multi" -> 0..(n - 1) [] f \in {"path", "ring"} -> {u} [] f = "tri" -> LET b == 3 * (u \div 2) IN {b, b + 1, b + 2} [] OTHER -> {u}
  IN {k \in near \cap 0..(NE_(f, n) - 1) : A(f, n, k) = <<u, v>>}
HasOK(f, n, x, und) == LET B == Between(f, n, x[1], x[2]) \cup (IF und THEN Between(f, n, x[2], x[1]) ELSE {})
  IN /\ x[5] = x[2] /\ (x[3] = 1) = (B # {}) /\ IF B = {} THEN x[4] = -1 ELSE x[4] \in B
InDeg(f, n, u) == CASE f = "path" -> IF u = 0 THEN 0 ELSE 1 [] f \in {"ring", "isles"} -> 1 [] f = "star" -> IF u = 0 THEN 0 ELSE 1
  [] f = "multi" -> IF u = 0 THEN 0 ELSE n [] f = "tri" -> IF u = 0 THEN 0 ELSE IF u % 2 = 1 THEN 1 ELSE 2
====
