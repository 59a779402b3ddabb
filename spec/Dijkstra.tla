---- MODULE Dijkstra ----
(* Dijkstra's algorithm as seen through its callbacks. *)
EXTENDS Paths
VARIABLES ini,  \* vertices initialized
          sl,   \* sources not yet processed
          dist, \* current distance of each vertex
          q,    \* queued vertices (a repeated source once per mention)
          cur, rem,
          pend, \* arc under examination, or 0
          want  \* vertex whose discovery must be reported next, or -1
jvars == <<ini, sl, dist, q, cur, rem, pend, want>>
DjInit(g, S) == /\ ini = {} /\ sl = S /\ dist = [v \in V(g) |-> Inf] /\ q = << >> /\ cur = -1 /\ rem = {} /\ pend = 0 /\ want = -1
Idle == cur = -1 /\ want = -1
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
InitializeV(g, v) == /\ Idle /\ q = << >> /\ v \in V(g) \ ini /\ \A u \in V(g) : dist[u] = Inf
                     /\ ini' = ini \cup {v} /\ UNCHANGED <<sl, dist, q, cur, rem, pend, want>>
DiscoverSource(g, v) == /\ Idle /\ ini = V(g) /\ sl # << >> /\ v = Head(sl)
                        /\ sl' = Tail(sl) /\ dist' = [dist EXCEPT ![v] = 0] /\ q' = Append(q, v)
                        /\ UNCHANGED <<ini, cur, rem, pend, want>>
Examine(g, v) == /\ Idle /\ ini = V(g) /\ sl = << >>
                 /\ \E j \in DOMAIN q : q[j] = v /\ (\A x \in 1..(j-1) : q[x] # v) /\ q' = Without(q, j)
                 /\ \A x \in Range(q) : dist[v] <= dist[x]
                 /\ cur' = v /\ rem' = Out(g, v) /\ UNCHANGED <<ini, sl, dist, pend, want>>
ExamineEdge(g, k) == /\ cur # -1 /\ pend = 0 /\ want = -1 /\ k \in rem
                     /\ pend' = k /\ rem' = rem \ {k} /\ UNCHANGED <<ini, sl, dist, q, cur, want>>
Improves(g, k) == dist[Dst(g, k)] = Inf \/ dist[cur] + Wt(g, k) < dist[Dst(g, k)]
Relaxed(g, k) == /\ pend = k /\ k # 0 /\ Improves(g, k)
                 /\ want' = IF dist[Dst(g, k)] = Inf THEN Dst(g, k) ELSE -1
                 /\ dist' = [dist EXCEPT ![Dst(g, k)] = dist[cur] + Wt(g, k)]
                 /\ pend' = 0 /\ UNCHANGED <<ini, sl, q, cur, rem>>
NotRelaxed(g, k) == /\ pend = k /\ k # 0 /\ ~Improves(g, k) /\ pend' = 0 /\ UNCHANGED <<ini, sl, dist, q, cur, rem, want>>
DiscoverTarget(v) == /\ want = v /\ want # -1 /\ q' = Append(q, v) /\ want' = -1 /\ UNCHANGED <<ini, sl, dist, cur, rem, pend>>
Finish(v) == /\ cur = v /\ cur # -1 /\ pend = 0 /\ want = -1 /\ rem = {}
             /\ cur' = -1 /\ UNCHANGED <<ini, sl, dist, q, rem, pend, want>>
Discover(g, v) == DiscoverSource(g, v) \/ DiscoverTarget(v)
Ended(g) == Idle /\ ini = V(g) /\ sl = << >> /\ q = << >>
====
