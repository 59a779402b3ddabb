---- MODULE BF ----
(* The Bellman-Ford algorithm as seen through its callbacks. *)
EXTENDS Paths
VARIABLES sl, dist, rnd, rem, any, pend, res
\* rnd: round 1..n (0 before the first), n+1 = final check; rem: arcs left in the round; any: an arc was relaxed in it
fvars == <<sl, dist, rnd, rem, any, pend, res>>
BFInit(g, S) == sl = S /\ dist = [v \in V(g) |-> Inf] /\ rnd = 0 /\ rem = {} /\ any = FALSE /\ pend = 0 /\ res = -2
DiscoverSource(g, v) == /\ rnd = 0 /\ sl # << >> /\ v = Head(sl) /\ sl' = Tail(sl) /\ dist' = [dist EXCEPT ![v] = 0]
                        /\ UNCHANGED <<rnd, rem, any, pend, res>>
StartOfRound == sl = << >> /\ rem = {}
ExamineEdge(g, k) ==
  /\ pend = 0 /\ res = -2
  /\ \/ k \in rem /\ rnd <= g.n /\ rem' = rem \ {k} /\ UNCHANGED <<rnd, any>>
     \/ StartOfRound /\ rnd < g.n /\ k \in Arcs(g) /\ rem' = Arcs(g) \ {k} /\ rnd' = rnd + 1 /\ any' = FALSE
  /\ pend' = k /\ UNCHANGED <<sl, dist, res>>
Improves(g, k) == dist[Src(g, k)] # Inf /\ (dist[Dst(g, k)] = Inf \/ dist[Src(g, k)] + Wt(g, k) < dist[Dst(g, k)])
Relaxed(g, k) == /\ pend = k /\ k # 0 /\ Improves(g, k)
                 /\ dist' = [dist EXCEPT ![Dst(g, k)] = dist[Src(g, k)] + Wt(g, k)] /\ any' = TRUE /\ pend' = 0
                 /\ UNCHANGED <<sl, rnd, rem, res>>
NotRelaxed(g, k) == /\ pend = k /\ k # 0 /\ ~Improves(g, k) /\ pend' = 0 /\ UNCHANGED <<sl, dist, rnd, rem, any, res>>
\* the final check: each arc once, after complete rounds (how many rounds there are is left to the algorithm;
\* that the outcome is right is decided from the final distances)
FinalRem(g) == IF rnd = g.n + 1 THEN rem ELSE Arcs(g)
InFinal(g) == pend = 0 /\ res = -2 /\ ((rnd \in (g.n - 1)..g.n /\ rem = {} /\ sl = << >>) \/ rnd = g.n + 1)
Minimized(g, k) == /\ InFinal(g) /\ k \in FinalRem(g) /\ ~Improves(g, k)
                   /\ rem' = FinalRem(g) \ {k} /\ rnd' = g.n + 1 /\ UNCHANGED <<sl, dist, any, pend, res>>
NotMinimized(g, k) == /\ InFinal(g) /\ k \in FinalRem(g) /\ Improves(g, k)
                      /\ res' = Src(g, k) /\ UNCHANGED <<sl, dist, rnd, rem, any, pend>>
\* no more callbacks are due and no cycle was found
Settled(g) == sl = << >> /\ pend = 0 /\ res = -2 /\ rem = {} /\ \A k \in Arcs(g) : ~Improves(g, k)
====
