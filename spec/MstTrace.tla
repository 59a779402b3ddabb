---- MODULE MstTrace ----
(* Forests of one call, judged by the optimality of Mst. *)
EXTENDS Mst, TraceBase
vars == <<ep, i>>
Init == TBInit
Step(e) ==
  \* kruskal: input edges T.es, output T.t, returned T.total and T.comps, input afterwards T.post
  \/ e[1] = "kruskal" /\ KruskalOK(T.es, T.t, T.total, T.comps)
  \/ e[1] = "unchanged" /\ T.post = T.es
  \/ e[1] = "permuted" /\ SameBag(T.post, T.es)
  \/ e[1] = "prim" /\ PrimOK(T.g, T.seed, T.p, T.w, T.total, T.p0)
  \/ e[1] = "same" /\ T.pre = T.post
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
