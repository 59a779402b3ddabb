---- MODULE FaultMC ----
(* A search over a graph that allocates its tables, calls the caller's function for every vertex, and may be stopped *)
(* at each of these steps by a failure.  Whatever fails, the graph stays, every block is released before the caller  *)
(* sees the failure, and the next call gives what an undisturbed one gives.  A second program, that checks its       *)
(* arguments only when it comes across them, shows which calls must be refused.                                      *)
EXTENDS Fault, AllGraphs
CONSTANTS N, Calls
VARIABLES G, G0, seed, st, blocks, todo, disc, out, na, nc, last, calls
vars == <<G, G0, seed, st, blocks, todo, disc, out, na, nc, last, calls>>
Base == UNION {Digraphs(n, TRUE) : n \in 1..N}
None == [kind |-> 2, k |-> 0, na |-> 0, nc |-> 0, outcome |-> DONE, left |-> 0, eq |-> TRUE]
Init == /\ \E g \in Base : G = g /\ G0 = g
        /\ seed \in V(G) /\ st = "out" /\ blocks = 0 /\ todo = {} /\ disc = {} /\ out = {} /\ na = 0 /\ nc = 0 /\ last = None /\ calls = 0
Keep == UNCHANGED <<G, G0, seed>>
Enter == /\ st = "out" /\ calls < Calls /\ st' = "tables" /\ na' = 0 /\ nc' = 0 /\ todo' = {} /\ disc' = {} /\ out' = {} /\ calls' = calls + 1
         /\ Keep /\ UNCHANGED <<blocks, last>>
\* the failure on its way to the caller: what was taken so far is given back, block by block
Unwind(kind, k) == /\ st' = "unwinding" /\ last' = [None EXCEPT !.kind = kind, !.k = k, !.na = na', !.nc = nc', !.outcome = IF kind = 0 THEN NOMEM ELSE BOOM]
Alloc(next) == /\ na' = na + 1 /\ UNCHANGED nc
               /\ \/ blocks' = blocks + 1 /\ st' = next /\ UNCHANGED last
                  \/ Unwind(0, na + 1) /\ UNCHANGED blocks
Tables == /\ st = "tables" /\ Alloc("queue") /\ Keep /\ UNCHANGED <<todo, disc, out, calls>>
Queue == /\ st = "queue" /\ Alloc("search") /\ todo' = {seed} /\ disc' = {seed} /\ Keep /\ UNCHANGED <<out, calls>>
Visit(u) == /\ st = "search" /\ u \in todo /\ nc' = nc + 1 /\ UNCHANGED na
            /\ \/ /\ LET new == Succ(G, u) \ disc IN todo' = (todo \ {u}) \cup new /\ disc' = disc \cup new
                  /\ out' = out \cup {u} /\ UNCHANGED <<st, last, blocks>>
               \/ Unwind(1, nc + 1) /\ UNCHANGED <<todo, disc, out, blocks>>
            /\ Keep /\ UNCHANGED calls
Leave == /\ st = "search" /\ todo = {} /\ st' = "unwinding" /\ last' = [None EXCEPT !.na = na, !.nc = nc]
         /\ Keep /\ UNCHANGED <<blocks, todo, disc, out, na, nc, calls>>
Release == /\ st = "unwinding" /\ blocks > 0 /\ blocks' = blocks - 1 /\ Keep /\ UNCHANGED <<st, todo, disc, out, na, nc, last, calls>>
Return == /\ st = "unwinding" /\ blocks = 0 /\ st' = "out" /\ last' = [last EXCEPT !.left = blocks, !.eq = (out = Reach(G0, {seed}))]
          /\ Keep /\ UNCHANGED <<blocks, todo, disc, out, na, nc, calls>>
Next == \/ Enter
        \/ Tables
        \/ Queue
        \/ \E u \in V(G) : Visit(u)
        \/ Leave
        \/ Release
        \/ Return
        \/ st = "out" /\ calls = Calls /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what the predicates that judge the recorded calls say about this one
Judged == st = "out" /\ calls > 0 =>
  /\ FailedCallOK(last.kind, last.k, last.na, last.nc, last.outcome, last.left, G = G0, last.eq)
  /\ last.kind # 2 => ~FailedCallOK(last.kind, last.k, last.na, last.nc, last.outcome, last.left + 1, G = G0, last.eq)
  /\ last.kind # 2 => ~FailedCallOK(last.kind, last.k, last.na, last.nc, last.outcome, last.left, FALSE, last.eq)
  /\ last.kind = 1 => ~FailedCallOK(1, last.k, last.na, last.nc, DONE, 0, TRUE, TRUE) /\ ~FailedCallOK(1, last.k, last.na, last.nc, NOMEM, 0, TRUE, TRUE)
  /\ last.kind = 2 => out = Reach(G0, {seed}) /\ nc = Cardinality(out)
GraphStays == G = G0
Comes == []<>(st = "out")
\* a call that looks at its arguments as it goes: the sources first, then the arcs it comes across
RECURSIVE Goes(_, _, _, _)
Goes(g, t, d, form) == IF t = {} THEN DONE
  ELSE LET u == CHOOSE x \in t : TRUE
           hit == form <= 2 /\ \E k \in Out(g, u) : Wt(g, k) < 0
           new == Succ(g, u) \ d
       IN IF hit THEN RANGE ELSE Goes(g, (t \ {u}) \cup new, d \cup new, form)
ArgsAgree == \A n \in 1..2 : \A g \in WDigraphs(n, TRUE, {-1, 1}) : \A form \in 0..4 : \A nd \in (n - 1)..n : \A np \in (n - 1)..n :
  \A src \in UNION {[1..l -> 0..n] : l \in 0..2} :
    LET bad == nd < n \/ np < n \/ \E j \in DOMAIN src : src[j] \notin V(g)
        o == IF bad THEN RANGE ELSE Goes(g, Range(src), Range(src), form)
    IN PathsArgsOK(g, form, o, nd, np, src, TRUE) /\ ~PathsArgsOK(g, form, RANGE - o, nd, np, src, TRUE)
ASSUME ArgsAgree
====
