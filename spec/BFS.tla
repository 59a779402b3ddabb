---- MODULE BFS ----
(* Breadth-first search as seen through its callbacks.  The order of the vertices of one level, and of the edges *)
(* of one vertex, is left open.  Every mention of a source is processed: a source mentioned m times is initialized, *)
(* discovered, examined and finished m times (documented behaviour); any other vertex once.                      *)
EXTENDS Graphs
VARIABLES sl,    \* sources not yet processed
          lev,   \* discovered vertices -> level
          q,     \* discovered, not yet examined (one entry per mention)
          cur,   \* vertex under examination, or -1
          rem,   \* its out-arcs not yet examined
          want,  \* a vertex whose discovery callback must come next, or -1
          nd     \* number of vertices (mentions) finished
bvars == <<sl, lev, q, cur, rem, want, nd>>

BInit(g, srcs) == /\ sl = srcs /\ lev = << >> /\ q = << >> /\ cur = -1 /\ rem = {} /\ want = -1 /\ nd = 0

Fresh == want = -1 /\ cur = -1
Disc == DOMAIN lev
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

Initialize(g, v) == /\ Fresh /\ nd = 0 /\ sl # << >> /\ v = Head(sl)
                    /\ sl' = Tail(sl) /\ want' = v
                    /\ UNCHANGED <<lev, q, cur, rem, nd>>
DiscoverSource(g, v) == /\ want = v /\ cur = -1
                        /\ lev' = (v :> 0) @@ lev /\ q' = Append(q, v) /\ want' = -1
                        /\ UNCHANGED <<sl, cur, rem, nd>>
Examine(g, v) == /\ Fresh /\ sl = << >>
                 /\ \E j \in DOMAIN q : /\ q[j] = v /\ \A x \in 1..(j-1) : q[x] # v
                                        /\ q' = Without(q, j)
                 /\ \A x \in Range(q) : lev[v] <= lev[x]
                 /\ cur' = v /\ rem' = Out(g, v)
                 /\ UNCHANGED <<sl, lev, want, nd>>
ExamineEdge(g, k) == /\ want = -1 /\ cur # -1 /\ k \in rem
                     /\ rem' = rem \ {k}
                     /\ want' = IF Dst(g, k) \in Disc THEN -1 ELSE Dst(g, k)
                     /\ UNCHANGED <<sl, lev, q, cur, nd>>
DiscoverTarget(g, v) == /\ want = v /\ cur # -1
                        /\ lev' = (v :> lev[cur] + 1) @@ lev /\ q' = Append(q, v) /\ want' = -1
                        /\ UNCHANGED <<sl, cur, rem, nd>>
Finish(g, v) == /\ want = -1 /\ cur = v /\ rem = {}
                /\ nd' = nd + 1 /\ cur' = -1
                /\ UNCHANGED <<sl, lev, q, rem, want>>
Discover(g, v) == DiscoverSource(g, v) \/ DiscoverTarget(g, v)
Ended == Fresh /\ sl = << >> /\ q = << >>
====
