---- MODULE WorkMC ----
(* Searches as machines that count their steps and what they hold, one step of work per vertex taken and per edge looked at: on every graph   *)
(* up to a bound, a search that marks a vertex when it is put in and one that keeps a place in every row need what the bounds say; one that   *)
(* marks late holds more than the vertices, one that begins every row anew looks at edges again and again; and no bound is so wide that a     *)
(* call which looks at every pair of vertices, or at a long row for every edge of it, would pass on the graphs the driver uses.               *)
EXTENDS Work, AllGraphs
CONSTANTS NMax, Loops
VARIABLES D, how, box, seen, place, steps, held, looks
vars == <<D, how, box, seen, place, steps, held, looks>>
Hows == {"early", "late", "frames", "anew"}
S0 == 0
Init == /\ D \in UNION {Digraphs(k, Loops) \union Doubled(k, Loops) : k \in 1..NMax}
        /\ how \in Hows /\ box = <<S0>> /\ steps = 0 /\ held = 1 /\ looks = 0
        /\ seen = (IF how = "late" THEN {} ELSE {S0})
        /\ place = [v \in V(D) |-> 0]
Row(v) == SelectSeq([k \in 1..Len(D.E) |-> k], LAMBDA k : D.E[k][1] = v)
To(k) == D.E[k][2]
Big(a, b) == IF a > b THEN a ELSE b
\* early: take a vertex, look at its row, put in those not seen, which are seen from now on
RECURSIVE Fresh(_, _)
Fresh(s, sn) == IF s = <<>> THEN <<>> ELSE IF To(Head(s)) \in sn THEN Fresh(Tail(s), sn) ELSE <<To(Head(s))>> \o Fresh(Tail(s), sn \union {To(Head(s))})
Early == LET u == Head(box) r == Row(u) f == Fresh(r, seen) IN
         /\ how = "early" /\ box # <<>>
         /\ box' = Tail(box) \o f /\ seen' = seen \union {f[j] : j \in DOMAIN f}
         /\ steps' = steps + 1 + Len(r) /\ held' = Big(held, Len(box')) /\ UNCHANGED <<D, how, place, looks>>
\* late: seen when taken; put in as often as there are edges to it
Late == LET u == Head(box) r == Row(u) f == SelectSeq([j \in DOMAIN r |-> To(r[j])], LAMBDA v : v \notin seen \union {u}) IN
        /\ how = "late" /\ box # <<>>
        /\ box' = (IF u \in seen THEN Tail(box) ELSE Tail(box) \o f) /\ seen' = seen \union {u}
        /\ steps' = steps + 1 + (IF u \in seen THEN 0 ELSE Len(r)) /\ held' = Big(held, Len(box')) /\ UNCHANGED <<D, how, place, looks>>
\* frames: a stack of vertices with the place reached in their rows; anew: without the place
Deeper == LET u == Head(box) r == Row(u)
              j0 == IF how = "frames" THEN place[u] ELSE 0
              rest == SelectSeq([j \in 1..Len(r) |-> j], LAMBDA j : j > j0 /\ To(r[j]) \notin seen)
              j == IF rest = <<>> THEN Len(r) ELSE rest[1] IN
          /\ how \in {"frames", "anew"} /\ box # <<>>
          /\ box' = (IF rest = <<>> THEN Tail(box) ELSE <<To(r[j])>> \o box)
          /\ seen' = seen \union {To(r[k]) : k \in {j} \ {x \in {j} : rest = <<>>}}
          /\ place' = [place EXCEPT ![u] = j]
          /\ looks' = looks + (j - j0)
          /\ steps' = steps + 1 + (j - j0) /\ held' = Big(held, Len(box')) /\ UNCHANGED <<D, how>>
Next == \/ Early
        \/ Late
        \/ Deeper
        \/ box = <<>> /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
N_ == D.n
M_ == Len(D.E)
InTime == how \in {"early", "late"} => steps <= 1 + N_ + 2 * M_
FramesInTime == how = "frames" => steps <= 2 * N_ + M_
LooksOnce == how = "frames" => looks <= M_
HeldLittle == how \in {"early", "frames", "anew"} => held <= N_
HeldLate == how = "late" => held <= 1 + M_
AllReached == box = <<>> => seen = Reach(D, {S0})
\* the driver's graphs: <<n, m, greatest degree, sum of smaller degrees>>
Star(k) == [n |-> k, m |-> k - 1, dmax |-> k - 1, smin |-> k - 1, nr |-> 1, mr |-> 0, deg |-> k - 1, it |-> 1, vk |-> "seq", ek |-> "list"]
Path(k) == [Star(k) EXCEPT !.dmax = 2, !.deg = 1]
Lone(k) == [Star(k) EXCEPT !.m = 0, !.dmax = 0, !.smin = 0, !.deg = 0]
Multi == [Star(50) EXCEPT !.m = 7000, !.dmax = 3500, !.deg = 3500, !.smin = 8166668]
Worse == [Star(200) EXCEPT !.m = 19900, !.dmax = 199, !.deg = 199]
Wide(b, quad) == b < quad
Discriminates == \A k \in {3000, 3500, 4000} :
  /\ \A c \in Linear \ {"blocks", "topo", "scc"} : Steps(c, Star(k)) < k * (k - 1)
  /\ \A c \in {"blocks", "topo", "scc"} : Steps(c, Lone(10 * k)) < Times(10 * k, (10 * k) \div 64) + Times(100, 10 * k)
  /\ \A c \in {"dijkstra", "prim", "kruskal", "inplace", "load"} : Steps(c, Star(k)) < Times(k, k)
  /\ \A c \in Direct \union ById \union Degrees : \A vk_ \in {"seq", "map", "hash"} : Steps(c, [Star(k) EXCEPT !.vk = vk_]) < k
  /\ \A c \in RowWise : Steps(c, [Star(k) EXCEPT !.deg = 1]) < k
  /\ \A c \in (Vertexwise \union Whole) \ {"search_view", "make_order", "copy", "assign"} : Steps(c, Star(k)) < (k * k) \div 2
  /\ Steps("find_keyed_edge", [Star(k) EXCEPT !.ek = "set"]) < k - 1
  /\ Stack < 48 * 3000
  \* storage in proportion to the edges is more than the bound of what may only grow with the vertices
  /\ \A c \in {"bfs", "cc", "mis", "af"} : Bytes(c, Multi) < 4 * Multi.m /\ Bytes(c, Worse) < 4 * Worse.m
  /\ \A c \in InVertices \ {"add_vertices"} : Bytes(c, Multi) < 4 * Multi.m
ASSUME Discriminates
====
