---- MODULE SccMC ----
(* Two-pass strongly connected components: any depth-first finish order of the graph, then reachability in the      *)
(* reversed graph in reverse finish order.                                                                          *)
EXTENDS Comp, AllGraphs
CONSTANTS N
VARIABLES G, stack, seen, order, comp, cid, todo
vars == <<G, stack, seen, order, comp, cid, todo>>
Init == /\ G \in UNION {Digraphs(n, FALSE) : n \in 1..N} \cup Doubled(2, TRUE)
        /\ stack = << >> /\ seen = {} /\ order = << >> /\ comp = [v1 \in 1..G.n |-> -1] /\ cid = 0 /\ todo = {}
Pass1 == seen # V(G) \/ stack # << >>
Root(v) == /\ stack = << >> /\ v \notin seen /\ stack' = <<v>> /\ seen' = seen \cup {v} /\ UNCHANGED <<G, order, comp, cid, todo>>
Descend(v) == /\ stack # << >> /\ v \notin seen /\ v \in Succ(G, stack[Len(stack)])
              /\ stack' = Append(stack, v) /\ seen' = seen \cup {v} /\ UNCHANGED <<G, order, comp, cid, todo>>
Finish == /\ stack # << >> /\ Succ(G, stack[Len(stack)]) \subseteq seen
          /\ order' = Append(order, stack[Len(stack)]) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<G, seen, comp, cid, todo>>
\* second pass: take the last unlabelled vertex of the order, label what reaches it among the unlabelled
Collect == /\ ~Pass1 /\ \E v \in V(G) : Cv(comp, v) = -1
           /\ LET j == Max({x \in DOMAIN order : Cv(comp, order[x]) = -1})
                  h == RevG(G)
                  free == {v \in V(G) : Cv(comp, v) = -1}
                  sub == [h EXCEPT !.adj = [u1 \in DOMAIN h.adj |-> SelectSeq(h.adj[u1], LAMBDA k : Dst(h, k) \in free)]]
                  cls == Reach(sub, {order[j]})
              IN comp' = [v1 \in DOMAIN comp |-> IF v1 - 1 \in cls THEN cid ELSE comp[v1]]
           /\ cid' = cid + 1 /\ UNCHANGED <<G, stack, seen, order, todo>>
Done == ~Pass1 /\ \A v \in V(G) : Cv(comp, v) # -1
Next == \/ \E v \in V(G) : Root(v) \/ Descend(v)
        \/ Finish
        \/ Collect
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Mutual(u, v) == v \in Reach(G, {u}) /\ u \in Reach(G, {v})
Correct == Done => /\ SccOK(G, comp)
                   /\ \A u, v \in V(G) : Cv(comp, u) = Cv(comp, v) <=> Mutual(u, v)
                   \* any relabelling that merges two classes is rejected
                   /\ \A x, y \in 0..(cid - 1) : x # y => ~SccClasses(G, [v1 \in DOMAIN comp |-> IF comp[v1] = x THEN y ELSE comp[v1]])
====
