---- MODULE Mst ----
(* Spanning forests.  A list of edges es[j] = <<u, v, w, key>>: the ordering in force prefers smaller keys. *)
EXTENDS Graphs, SequencesExt
\* labels after joining the ends of edge e; lab: function on vertices
Join(lab, e) == LET a == lab[e[1]] b == lab[e[2]] IN TLCEval([v \in DOMAIN lab |-> IF lab[v] = b THEN a ELSE lab[v]])
RECURSIVE JoinAll(_, _, _)
JoinAll(lab, es, j) == IF j > Len(es) THEN lab ELSE JoinAll(Join(lab, es[j]), es, j + 1)
Start(n) == [v \in 0..(n - 1) |-> v]
NumComp(lab) == Cardinality({lab[v] : v \in DOMAIN lab})
\* es sorted by key: does taking every edge that joins two trees give least keys?  total keys of the greedy forest
ByKey(es) == SortSeq(es, LAMBDA a, b : a[4] < b[4])
RECURSIVE GreedyR(_, _, _, _)
GreedyR(lab, s, j, acc) == IF j > Len(s) THEN acc
   ELSE IF lab[s[j][1]] = lab[s[j][2]] THEN GreedyR(lab, s, j + 1, acc)
   ELSE GreedyR(Join(lab, s[j]), s, j + 1, acc + s[j][4])
OptKeys(n, es) == GreedyR(Start(n), ByKey(es), 1, 0)
SumW(es) == SumSeq([j \in DOMAIN es |-> es[j][3]])
SumK(es) == SumSeq([j \in DOMAIN es |-> es[j][4]])
\* t (edges of es, as a bag) is a spanning forest with the least keys
ForestOK(n, es, t) ==
  LET lab == JoinAll(Start(n), es, 1) lt == JoinAll(Start(n), t, 1) IN
  /\ \A x \in Range(t) : Count(t, x) <= Count(es, x)
  /\ Len(t) = n - NumComp(lab) /\ NumComp(lt) = NumComp(lab)
  /\ SumK(t) = OptKeys(n, es)
MaxId(es) == Max({0} \cup {es[j][1] : j \in DOMAIN es} \cup {es[j][2] : j \in DOMAIN es})
\* what kruskal promises: t, total weight and number of components over ids 0..MaxId
KruskalOK(es, t, total, comps) ==
  IF es = << >> THEN t = << >> /\ total = 0 /\ comps = 0
  ELSE /\ ForestOK(MaxId(es) + 1, es, t) /\ total = SumW(t)
       /\ comps = NumComp(JoinAll(Start(MaxId(es) + 1), es, 1))
\* what prim promises for graph g (arcs with keys): p, w predecessor and weight per vertex, p0 predecessors before
KeyOf(g, k) == g.key[g.E[k][3] + 1]
PrimOK(g, seed, p, w, total, p0) ==
  LET C == Reach(g, {seed})
      es == LET ks == SelectSeq([k \in 1..Len(g.E) |-> k], LAMBDA k : Src(g, k) \in C /\ Src(g, k) <= Dst(g, k))
            IN [j \in DOMAIN ks |-> <<Src(g, ks[j]), Dst(g, ks[j]), Wt(g, ks[j]), KeyOf(g, ks[j])>>]
      Cand(v) == {k \in Arcs(g) : Src(g, k) = p[v + 1] /\ Dst(g, k) = v /\ Wt(g, k) = w[v + 1]}
      tr == LET vs == SetToSortSeq(C \ {seed}, LAMBDA a, b : a < b) IN [j \in DOMAIN vs |-> <<p[vs[j] + 1], vs[j], w[vs[j] + 1], KeyOf(g, CHOOSE k \in Cand(vs[j]) : TRUE)>>]
  IN /\ p[seed + 1] = seed
     /\ \A v \in V(g) \ C : p[v + 1] = p0[v + 1]
     /\ \A v \in C \ {seed} : p[v + 1] \in C /\ Cand(v) # {}
     /\ NumComp(JoinAll([v \in C |-> v], tr, 1)) = 1
     /\ SumK(tr) = GreedyR([v \in C |-> v], ByKey(es), 1, 0)
     /\ total = SumW(tr)
====
