---- MODULE SearchViewsMC ----
(* The four search views as implemented (queue or stack of vertices with a position in their edges, a visited flag     *)
(* per vertex, decisions applied at the next increment), run in lock-step with SearchViews on every small graph and     *)
(* with every sequence of decisions; and what the sequences given mean on the graph as a whole.                         *)
EXTENDS SearchViews, AllGraphs
CONSTANTS N, M, Kinds
VARIABLES G, A, what, seed, c, s, given, cut, all, ended, bad
vars == <<G, A, what, seed, c, s, given, cut, all, ended, bad>>
ArcsOf(g) == {<<Src(g, k), Dst(g, k), k>> : k \in Arcs(g)}
Adj(v) == G.adj[v + 1]
C0(w, sd) == CASE w = "bv" -> [q |-> <<<<sd, 1, 0>>>>, vis |-> {sd}, maxd |-> 0]
               [] w = "be" -> [q |-> <<<<sd, 1, 0>>>>, vis |-> {sd}, maxd |-> 0]
               [] OTHER    -> [q |-> <<<<sd, 1, 0>>>>, vis |-> {sd}, maxd |-> 0]
None == [c |-> [q |-> <<>>, vis |-> {}, maxd |-> 0], arc |-> <<>>, end |-> TRUE]
\* vertices_bfs: the front is the element given; on leaving it all its unvisited neighbours are queued
RECURSIVE Push(_, _, _)
Push(x, ks, d) == IF ks = <<>> THEN x
                  ELSE LET t == Dst(G, Head(ks))
                       IN Push(IF t \in x.vis THEN x ELSE [q |-> Append(x.q, <<t, 1, d>>), vis |-> x.vis \cup {t}, maxd |-> Max2(x.maxd, d)], Tail(ks), d)
BVAdv(x, dec) ==
  IF dec = "all" THEN [c |-> [x EXCEPT !.q = <<>>], arc |-> <<>>, end |-> TRUE]
  ELSE LET f == Head(x.q)
           y == [x EXCEPT !.q = Tail(@)]
           z == IF dec = "branch" THEN y ELSE Push(y, Adj(f[1]), f[3] + 1)
       IN [c |-> z, arc |-> <<>>, end |-> z.q = <<>>]
\* edges_bfs: from the position of the front on, the next edge to an unvisited target
RECURSIVE BEFind(_)
BEFind(x) ==
  IF x.q = <<>> THEN [c |-> x, arc |-> <<>>, end |-> TRUE]
  ELSE LET f == Head(x.q) IN
       IF f[2] > Len(Adj(f[1])) THEN BEFind([x EXCEPT !.q = Tail(@)])
       ELSE LET k == Adj(f[1])[f[2]]
                t == Dst(G, k)
                y == [x EXCEPT !.q[1][2] = @ + 1]
            IN IF t \in x.vis THEN BEFind(y)
               ELSE [c |-> [q |-> Append(y.q, <<t, 1, f[3] + 1>>), vis |-> x.vis \cup {t}, maxd |-> Max2(x.maxd, f[3] + 1)],
                     arc |-> <<f[1], t, k>>, end |-> FALSE]
BEAdv(x, dec) == IF dec = "all" THEN [c |-> [x EXCEPT !.q = <<>>], arc |-> <<>>, end |-> TRUE]
                 ELSE BEFind(IF dec = "branch" /\ x.q # <<>> THEN [x EXCEPT !.q[Len(x.q)][2] = Len(Adj(x.q[Len(x.q)][1])) + 1] ELSE x)
\* vertices_dfs and edges_dfs: from the top of the stack on
RECURSIVE DFind(_)
DFind(x) ==
  IF x.q = <<>> THEN [c |-> x, arc |-> <<>>, end |-> TRUE]
  ELSE LET f == x.q[Len(x.q)] IN
       IF f[2] > Len(Adj(f[1])) THEN DFind([x EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)])
       ELSE LET k == Adj(f[1])[f[2]]
                t == Dst(G, k)
                y == [x EXCEPT !.q[Len(x.q)][2] = @ + 1]
            IN IF t \in x.vis THEN DFind(y)
               ELSE [c |-> [q |-> Append(y.q, <<t, 1, f[3] + 1>>), vis |-> x.vis \cup {t}, maxd |-> 0], arc |-> <<f[1], t, k>>, end |-> FALSE]
DAdv(x, dec) == IF dec = "all" THEN [c |-> [x EXCEPT !.q = <<>>], arc |-> <<>>, end |-> TRUE]
                ELSE DFind(IF dec = "branch" THEN [x EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)] ELSE x)
Adv(x, dec) == CASE what = "bv" -> BVAdv(x, dec) [] what = "be" -> BEAdv(x, dec) [] OTHER -> DAdv(x, dec)
\* the element given and what the abstract step makes of it
Elt(r) == CASE what = "bv" -> Head(r.c.q)[1] [] OTHER -> r.arc
Can(dec) == CASE what = "bv" -> BVCan(A, s, dec, seed) [] what = "be" -> BECan(A, s, dec) [] OTHER -> DCan(A, s, dec)
Give(dec, x) == CASE what = "bv" -> BVGive(A, s, dec, seed, x) [] what = "be" -> BEGive(A, s, dec, x) [] OTHER -> DGive(A, s, dec, x[2])
Vx(x) == IF what = "bv" THEN x ELSE x[2]
Init == /\ G \in UNION {Digraphs(n, TRUE) : n \in 1..N} \cup Digraphs(M, FALSE) \cup Doubled(2, TRUE)
        /\ what \in Kinds /\ seed \in V(G) /\ (seed = 0 \/ G.n < 4)
        /\ A = ArcsOf(G)
        /\ c = C0(what, seed)
        /\ s = (CASE what = "bv" -> BVGive(A, BV0, "continue", seed, seed) [] what = "be" -> BE0(seed) [] OTHER -> DStart(seed))
        /\ given = (IF what = "be" \/ what = "de" THEN <<>> ELSE IF what = "bv" THEN <<seed>> ELSE <<<<seed, seed, 0>>>>)
        /\ cut = {} /\ all = FALSE /\ ended = FALSE /\ bad = FALSE
\* a cut before the first edge does not exist: there is no element yet
Decisions == IF given = <<>> THEN {"continue"} ELSE {"continue", "branch", "all"}
Next == \/ /\ ~ended
           /\ \E dec \in Decisions :
              LET r == Adv(c, dec) IN
              /\ c' = r.c /\ ended' = r.end
              /\ cut' = IF dec = "branch" THEN cut \cup {Vx(given[Len(given)])} ELSE cut
              /\ all' = (dec = "all")
              /\ IF r.end THEN /\ bad' = (Can(dec) # {} \/ (what = "bv" /\ LET t == BVEnd(A, s, dec) IN t.maxd # r.c.maxd \/ t.disc # r.c.vis))
                               /\ UNCHANGED <<s, given>>
                 ELSE /\ bad' = (Elt(r) \notin Can(dec))
                      /\ s' = Give(dec, Elt(r)) /\ given' = Append(given, Elt(r))
           /\ UNCHANGED <<G, A, what, seed>>
        \/ ended /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the graph without the edges out of the vertices cut
Cut(X) == [G EXCEPT !.adj = [u \in 1..G.n |-> IF (u - 1) \in X THEN <<>> ELSE G.adj[u]]]
GivenV == {Vx(given[j]) : j \in DOMAIN given}
Correct ==
  /\ ~bad
  /\ ~ended => CASE what = "bv" -> c.maxd = s.maxd /\ c.vis = s.disc [] what = "be" -> c.maxd = s.maxd /\ c.vis = s.disc
                 [] OTHER -> Len(c.q) = Len(s.path) /\ c.vis = s.disc
  /\ \A j, l \in DOMAIN given : j < l => Vx(given[j]) # Vx(given[l])
  \* everything reachable without passing a cut vertex is given, nothing else
  /\ ended /\ ~all => GivenV \cup {seed} = Reach(Cut(cut), {seed})
  /\ GivenV \subseteq Reach(Cut(cut), {seed})
  \* breadth first: by distance in what is left of the graph
  /\ ended /\ what \in {"bv", "be"} =>
       LET lv == Level(Cut(cut), {seed}) IN \A j, l \in DOMAIN given : j < l => lv[Vx(given[j])] <= lv[Vx(given[l])]
  \* an edge given connects to something given before
  /\ what \in {"be", "de"} => \A j \in DOMAIN given : given[j][1] = seed \/ \E l \in 1..(j - 1) : given[l][2] = given[j][1]
====
