---- MODULE Fault ----
(* What a call of an algorithm may do when an allocation or a function of the caller fails, and what it must do with *)
(* arguments that its documentation promises to reject.                                                              *)
EXTENDS Graphs
\* how a call came back
DONE == 0
NOMEM == 1      \* std::bad_alloc
BOOM == 2       \* the very exception that the caller's function threw
RANGE == 4      \* std::out_of_range
\* kind 0: the k-th allocation of the call fails (na of them in an undisturbed call); kind 1: the k-th call of one of
\* the caller's functions throws (nc of them).  left: blocks allocated in the call and not released; same: the graph
\* is as before; eq: the result is the one of the undisturbed call.
FailedCallOK(kind, k, na, nc, outcome, left, same, eq) ==
  /\ left = 0 /\ same
  /\ CASE kind = 0 /\ k <= na -> outcome = NOMEM \/ (outcome = DONE /\ eq)   \* it may do without the memory
       [] kind = 1 /\ k <= nc -> outcome = BOOM
       [] OTHER               -> outcome = DONE /\ eq
PlainCallOK(outcome, left, same) == outcome = DONE /\ left = 0 /\ same
\* arguments.  form 0: Dijkstra, several sources, 1: one source, 2: distances only, 3: Bellman-Ford, one source, 4: several
NegFrom(g, S) == \E u \in Reach(g, S) : \E k \in Out(g, u) : Wt(g, k) < 0
MustReject(g, form, nd, np, src) ==
  \/ nd < g.n \/ np < g.n
  \/ \E j \in DOMAIN src : src[j] >= g.n
PathsRefused(g, form, nd, np, src) ==
  \/ MustReject(g, form, nd, np, src)
  \/ form <= 2 /\ NegFrom(g, Range(src))
PathsArgsOK(g, form, outcome, nd, np, src, same) == same /\ outcome = IF PathsRefused(g, form, nd, np, src) THEN RANGE ELSE DONE
PrimArgsOK(g, seed, pw, pp, outcome, same) == same /\ outcome = IF seed >= g.n \/ pw < g.n \/ pp < g.n THEN RANGE ELSE DONE
====
