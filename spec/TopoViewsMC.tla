---- MODULE TopoViewsMC ----
(* The topological views as implemented (reversed order of completion of a depth-first search with an explicit stack   *)
(* from every vertex; flags of the vertices on the stack; the edge view walks the edges of each vertex in that order)   *)
(* give, on every small graph, what TopoViews admits; the cycle report is right.                                        *)
EXTENDS TopoViews, AllGraphs
CONSTANTS N, M
VARIABLES G, root, st, vis, on, post, cyc
vars == <<G, root, st, vis, on, post, cyc>>
Adj(v) == G.adj[v + 1]
Init == /\ G \in UNION {Digraphs(n, TRUE) : n \in 1..N} \cup Digraphs(M, FALSE) \cup Doubled(2, TRUE)
        /\ root = 0 /\ st = <<>> /\ vis = {} /\ on = {} /\ post = <<>> /\ cyc = -1
Discover(v) == st' = Append(st, <<v, 1>>) /\ vis' = vis \cup {v} /\ on' = on \cup {v}
Top == st[Len(st)]
Next ==
  \/ /\ st = <<>> /\ root < G.n /\ root' = root + 1
     /\ IF root \in vis THEN UNCHANGED <<st, vis, on>> ELSE Discover(root)
     /\ UNCHANGED <<G, post, cyc>>
  \/ /\ st # <<>> /\ Top[2] > Len(Adj(Top[1]))
     /\ st' = SubSeq(st, 1, Len(st) - 1) /\ on' = on \ {Top[1]} /\ post' = Append(post, Top[1]) /\ UNCHANGED <<G, root, vis, cyc>>
  \/ /\ st # <<>> /\ Top[2] <= Len(Adj(Top[1]))
     /\ LET t == Dst(G, Adj(Top[1])[Top[2]])
            step == [st EXCEPT ![Len(st)][2] = @ + 1]
        IN /\ cyc' = IF cyc = -1 /\ t \in on THEN t ELSE cyc     \* the checked forms stop here; the others go on
           /\ IF t \in vis THEN st' = step /\ UNCHANGED <<vis, on>>
              ELSE st' = Append(step, <<t, 1>>) /\ vis' = vis \cup {t} /\ on' = on \cup {t}
           /\ UNCHANGED <<G, root, post>>
  \/ st = <<>> /\ root = G.n /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Done == st = <<>> /\ root = G.n
As == [k \in DOMAIN G.E |-> G.E[k]]
Ids == [j \in 1..G.n |-> j - 1]
VSeq == Rev(post)
RECURSIVE Walk(_)
Walk(q) == IF q = <<>> THEN <<>> ELSE [j \in DOMAIN Adj(Head(q)) |-> G.E[Adj(Head(q))[j]]] \o Walk(Tail(q))
Correct == Done =>
  /\ (cyc = -1) = Acyclic(Ids, As)
  /\ cyc # -1 => OnCycle(As, cyc)
  /\ IsVPass(Ids, As, cyc = -1, VSeq, TRUE)
  /\ IsEPass(As, cyc = -1, Walk(VSeq), TRUE)
  \* and every beginning of them is accepted as a cancelled pass
  /\ \A n \in 0..Len(VSeq) : IsVPass(Ids, As, cyc = -1, SubSeq(VSeq, 1, n), FALSE)
  /\ LET w == Walk(VSeq) IN \A n \in 0..Len(w) : IsEPass(As, cyc = -1, SubSeq(w, 1, n), FALSE)
====
