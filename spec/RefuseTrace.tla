---- MODULE RefuseTrace ----
(* Histories with loads and constructions that do not fit; outcome and contents of each step, judged by Refuse. *)
EXTENDS Refuse, TraceBase
VARIABLE S
vars == <<ep, i, S>>
Init == TBInit /\ S = Nothing
C(c) == [vs |-> Range(c[1]), es |-> Range(c[2])]
\* the graph shows every vertex and edge once and counts its vertices right
Clean(c) == NoDup(c[1]) /\ NoDup(c[2]) /\ c[3] = Len(c[1])
A == T.assoc
\* vertices first: they fix how many there are, unless there are none
BVerts(vs) == VertsLoaded(A, Nothing, vs, 0, TRUE)
Build(es, vs) == EdgesLoaded(A, BVerts(vs), es, Len(vs), FALSE)
Mirror(es) == es \cup {<<e[2], e[1], e[3]>> : e \in es}
\* the transition that the event reports: its outcome and the content it leaves
Step(e) ==
  \/ e[1] = "load" /\ Clean(e[6]) /\ LET c == C(e[6]) IN                        \* edges, count, traversed once, outcome, content
       IF EdgesRefused(A, S, e[2], e[3], e[4] = 1) THEN e[5] = RUNTIME /\ EdgesHalf(S, e[2], e[3], c)
       ELSE e[5] = DONE /\ c = EdgesLoaded(A, S, e[2], e[3], e[4] = 1)
  \/ e[1] = "verts" /\ Clean(e[6]) /\ LET c == C(e[6]) IN                       \* values, count, range knows its size, outcome, content
       IF VertsRefused(A, S, e[2], e[3], e[4] = 1) THEN e[5] = RANGE /\ VertsHalf(S, e[2], e[3], e[4] = 1, c)
       ELSE e[5] = DONE /\ c = VertsLoaded(A, S, e[2], e[3], e[4] = 1)
  \/ e[1] = "at"                                                               \* id, three (outcome, value), known, found, found
       /\ LET in == e[2] \in Ids(S)  v == IF in THEN ValOf(S, e[2]) ELSE -1  o == IF in THEN DONE ELSE RANGE IN
          \A k \in {3, 5, 7} : e[k] = o /\ e[k + 1] = v
       /\ LET yes == IF e[2] \in Ids(S) THEN 1 ELSE 0 IN e[9] = yes /\ e[10] = yes /\ e[11] = yes
       /\ e[12] = N(S)
  \/ e[1] = "build" /\ Clean(e[6]) /\ LET b == Build(e[2], e[3]) IN                       \* edges, values, partitions, outcome, content
       IF VertsRefused(A, Nothing, e[3], 0, TRUE) THEN e[5] = RANGE /\ C(e[6]) = S
       ELSE IF EdgesRefused(A, BVerts(e[3]), e[2], Len(e[3]), FALSE) THEN e[5] = RUNTIME /\ C(e[6]) = S
       ELSE IF ~A /\ ~PartsOK(e[4], N(b)) THEN e[5] = INVALID /\ C(e[6]) = S
       ELSE e[5] = DONE /\ C(e[6]) = b
  \/ e[1] = "buildmax" /\ Clean(e[6]) /\ LET n == e[3] + 1  b == EdgesLoaded(A, Nothing, e[2], n, FALSE) IN        \* edges, largest id (-1: no room for one more), partitions, outcome, content
       IF e[3] < 0 THEN e[5] = INVALID /\ C(e[6]) = S
       ELSE IF EdgesRefused(A, Nothing, e[2], n, FALSE) THEN e[5] = RUNTIME /\ C(e[6]) = S
       ELSE IF ~A /\ ~PartsOK(e[4], N(b)) THEN e[5] = INVALID /\ C(e[6]) = S
       ELSE e[5] = DONE /\ C(e[6]) = b
  \/ e[1] = "clear" /\ C(e[2]) = Nothing
  \/ e[1] = "sorted" /\ Clean(e[5]) /\ LET n == Max({e[3], MaxP1(Ends(Range(e[2])))}) IN                           \* edges, count, outcome, content
       IF ~Ordered(e[2]) THEN e[4] = GERR /\ C(e[5]) = Nothing
       ELSE e[4] = DONE /\ C(e[5]) = [vs |-> {<<u, 0>> : u \in UpTo(n)}, es |-> Range(e[2])]
  \/ e[1] = "cverts" /\ Clean(e[4]) /\ e[3] = DONE                                                                 \* values, outcome, content
       /\ C(e[4]) = SetVals(Grown(S, UpTo(MaxP1({v[1] : v \in Range(e[2])}))), e[2])
  \/ e[1] = "usorted" /\ Clean(e[5]) /\ LET n == Max({Len(e[3]), MaxP1(Ends(Range(e[2])))}) IN                     \* edges, values, outcome, content
       IF ~Ordered(e[2]) THEN e[4] = INVALID /\ C(e[5]) = Nothing
       ELSE e[4] = DONE /\ C(e[5]) = SetVals([vs |-> {<<u, 0>> : u \in UpTo(n)}, es |-> Mirror(Range(e[2]))], e[3])
After(e) == IF e[1] \in {"load", "verts", "build", "buildmax"} THEN C(e[6]) ELSE IF e[1] \in {"sorted", "usorted"} THEN C(e[5]) ELSE IF e[1] = "cverts" THEN C(e[4]) ELSE IF e[1] = "clear" THEN C(e[2]) ELSE S
Next == \/ More /\ (Step(E)) = TRUE /\ TBNext /\ S' = After(E)
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
