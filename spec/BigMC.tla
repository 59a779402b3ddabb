---- MODULE BigMC ----
(* On every member of the families up to a bound the closed forms say what the general definitions say; answers that the general  *)
(* definitions accept are accepted, and answers with one entry changed are not unless the definitions accept them too.              *)
EXTENDS Big, AllGraphs
CONSTANT NMax
VARIABLES f, n, D, U, perms
vars == <<f, n, D, U, perms>>
Pa == INSTANCE Paths
Co == INSTANCE Comp
Bl == INSTANCE Blocks
Ms == INSTANCE Mst
Nr == INSTANCE Nbr
L == INSTANCE LP
Low == [path |-> 2, ring |-> 3, star |-> 2, tri |-> 1, isles |-> 1, multi |-> 1]
m == NE_(f, n)
W == [k \in 1..m |-> Wf(k - 1)]
Dg == Mk(NV_(f, n), [k \in 1..m |-> A(f, n, k - 1) \o <<k - 1>>], W)
UE == [k \in 1..(2 * m) |-> IF k % 2 = 1 THEN A(f, n, (k - 1) \div 2) \o <<(k - 1) \div 2>> ELSE <<A(f, n, k \div 2 - 1)[2], A(f, n, k \div 2 - 1)[1], k \div 2 - 1>>]
Ug == Mk(NV_(f, n), UE, W)
PermsOf(k) == IF k <= 5 THEN {o \in [1..k -> 0..(k - 1)] : NoDup(o)} ELSE {}
Init == f \in DOMAIN Low /\ n \in Low[f]..NMax /\ D = Dg /\ U = Ug /\ perms = PermsOf(D.n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Es == [k \in 1..m |-> A(f, n, k - 1) \o <<Wf(k - 1), Wf(k - 1)>>]
GoodLevels == LET lv == Level(D, {0}) IN \A v \in V(D) : Lev(f, n, v) = (IF v \in DOMAIN lv THEN lv[v] ELSE -1)
GoodReach == NReached(f, n) = Cardinality(Reach(D, {0}))
GoodDist == LET d == Pa!DistN(D, {0}) IN \A v \in V(D) :
  /\ Dist(f, n, v) = (IF d[v] = Pa!Inf THEN -1 ELSE d[v])
  /\ (v # 0 /\ d[v] # Pa!Inf) => Before(f, n, v) = {u \in V(D) : d[u] # Pa!Inf /\ \E k \in Out(D, u) : Dst(D, k) = v /\ d[u] + Wt(D, k) = d[v]}
SLab == LET r == [v \in V(D) |-> SRep(f, n, v)] IN [j \in 1..D.n |-> Cardinality({r[v] : v \in {x \in V(D) : r[x] < r[j - 1]}})]
CLab == LET r == [v \in V(D) |-> CRep(f, n, v)] IN [j \in 1..D.n |-> Cardinality({r[v] : v \in {x \in V(D) : r[x] < r[j - 1]}})]
GoodClasses == LET SL == TLCEval(SLab) CL == TLCEval(CLab) IN
               /\ Co!SccOK(D, SL) /\ SccBig(f, n, SL) /\ Co!CcOK(D, CL, NCc(f, n)) /\ CcBig(f, n, CL, NCc(f, n))
               /\ AfBig(f, n, [j \in 1..D.n |-> CRep(f, n, j - 1)]) /\ Co!AfOK(D, [j \in 1..D.n |-> CRep(f, n, j - 1)])
               /\ \A j \in 1..D.n, x \in 0..D.n : LET c == [SL EXCEPT ![j] = x] e == [CL EXCEPT ![j] = x] IN
                    SccBig(f, n, c) = Co!SccOK(D, c) /\ CcBig(f, n, e, NCc(f, n)) = Co!CcOK(D, e, NCc(f, n))
GoodBlocks == /\ Cuts(f, n) = Bl!CutVertices(U)
              /\ LET B == SetToSeq(BlockSets(f, n)) IN Bl!BlocksOK(U, [j \in DOMAIN B |-> SetToSeq(B[j])])
GoodTrees == /\ Ms!OptKeys(D.n, Es) = TreeW(f, n)
             /\ LET C == {v \in V(D) : CRep(f, n, v) = 0} e0 == SelectSeq(Es, LAMBDA e : e[1] \in C) IN Ms!OptKeys(D.n, e0) = TreeW0(f, n)
GoodNbrs == \A v \in V(U) : Nb(f, n, v) = Succ(U, v) \ {v}
GoodTri == f # "multi" => NTri(f, n) = Nr!Triangles(U)
GoodMis == D.n <= 9 => \A M \in SUBSET V(U) : LET o == SetToSeq(M) IN MisBig(f, n, o, Len(o)) = Nr!MisOK(U, 0, o, Len(o))
GoodJac == f \in {"path", "tri", "isles"} => \A k \in Arcs(U), x \in {0, 20000, 25000, 33333, 50000, 66666, 100000} :
  LET u == Src(U, k) v == Dst(U, k) ok == [j \in 1..(2 * m) |-> <<UE[j][1], UE[j][2], LET a == Succ(U, UE[j][1]) b == Succ(U, UE[j][2]) un == Cardinality(a \cup b) IN (2 * Scale * Cardinality(a \cap b) + un) \div (2 * un)>>] IN
  k = 1 \/ k = 2 * m => JacBig(f, n, [ok EXCEPT ![k] = <<u, v, x>>]) = Nr!JVal(U, u, v, x)
GoodLp == (f # "multi" /\ D.n <= 7) => \A l \in [1..D.n -> 1..2] : LpBig(f, n, l) = L!Stable(l, U, -1)
Pos(o, v) == CHOOSE j \in DOMAIN o : o[j] = v
GoodOrders == /\ \A o \in perms : (TopoOK(f, n, TRUE, o) = (\A k \in Arcs(D) : Pos(o, Src(D, k)) < Pos(o, Dst(D, k))))
              /\ LET lv == Level(D, {0}) IN \A o \in perms : NReached(f, n) = D.n => (BfsOK(f, n, o) = (\A j \in 1..(D.n - 1) : lv[o[j]] <= lv[o[j + 1]]))
GoodRows == /\ \A u, v \in V(D) : Between(f, n, u, v) = {k - 1 : k \in {k \in Arcs(D) : Src(D, k) = u /\ Dst(D, k) = v}}
            /\ \A u \in V(D) : Row(f, n, u) = [j \in DOMAIN D.adj[u + 1] |-> D.adj[u + 1][j] - 1] /\ InDeg(f, n, u) = Cardinality({k \in Arcs(D) : Dst(D, k) = u})
            /\ LET fl == FlattenSeq([u1 \in 1..D.n |-> Row(f, n, u1 - 1)]) bk == FlattenSeq([u1 \in 1..D.n |-> Reverse(Row(f, n, u1 - 1))]) IN
                 ListOK(f, n, "seq", fl) /\ ListOK(f, n, "rev", bk) /\ ListOK(f, n, "set", fl) /\ (fl # bk => ~ListOK(f, n, "seq", bk))
\* depth-first: the only orders of a search that takes arcs in some order (families with one arc per vertex, and the star)
GoodDfs == f \in {"path", "ring", "star", "multi", "isles"} => \A o \in perms : (\E e \in perms : DfsOK(f, n, o, e)) =
  /\ NReached(f, n) = D.n /\ o[1] = 0
  /\ \A j \in 2..D.n : \E i \in 1..(j - 1) : o[j] \in Succ(D, o[i]) /\ \A x \in (i + 1)..(j - 1) : Succ(D, o[x]) \subseteq {o[y] : y \in 1..(j - 1)}
====
