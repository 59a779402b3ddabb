---- MODULE RefuseMC ----
(* Loading edge by edge and vertex by vertex, with the check of each element as it comes; the outcome and the content afterwards are  *)
(* what the predicates ask for, and outcomes of three wrong loaders (late check, off by one, shrinking) are told apart.                *)
EXTENDS Refuse
CONSTANTS K, M
VARIABLES S0, kind, inp, cnt, flag, at, S, res
vars == <<S0, kind, inp, cnt, flag, at, S, res>>
Elems == 0..K
Starts == {Nothing} \cup {[vs |-> {<<u, IF u = 0 THEN w ELSE 0>> : u \in 0..n}, es |-> {<<0, n, 90>>}] : n \in 0..1, w \in {0, 80}}
EdgeIn == UNION {{[j \in 1..m |-> <<f[j][1], f[j][2], j>>] : f \in [1..m -> Elems \X Elems]} : m \in 0..M}
VertIn == UNION {{[j \in 1..m |-> <<f[j], j>>] : f \in [1..m -> Elems]} : m \in 0..M}
CONSTANT Assoc
Init == /\ S0 \in Starts /\ kind \in {"load", "verts"} /\ inp \in IF kind = "load" THEN EdgeIn ELSE VertIn
        /\ cnt \in 0..K /\ flag \in BOOLEAN /\ at = 0 /\ S = S0 /\ res = "start"
\* the number of vertices is settled before the first element
Fit == /\ res = "start" /\ res' = "run" /\ at' = 1
       /\ S' = IF Assoc THEN S ELSE IF kind = "verts" THEN Grown(S, UpTo(VRoom(S, inp, cnt, flag)))
               ELSE Grown(S, UpTo(IF cnt > 0 \/ flag THEN Room(S, cnt) ELSE Max({N(S), MaxP1(Ends(Range(inp)))})))
       /\ UNCHANGED <<S0, kind, inp, cnt, flag>>
Elem == /\ res = "run" /\ at <= Len(inp) /\ LET x == inp[at] IN
          IF ~Assoc /\ (IF kind = "load" THEN x[1] >= N(S) \/ x[2] >= N(S) ELSE x[1] >= N(S)) THEN res' = "refused" /\ UNCHANGED <<at, S>>
          ELSE /\ res' = "run" /\ at' = at + 1
               /\ S' = IF kind = "load" THEN [Grown(S, {x[1], x[2]}) EXCEPT !.es = @ \cup {x}] ELSE SetVals(S, <<x>>)
        /\ UNCHANGED <<S0, kind, inp, cnt, flag>>
Stop == res = "run" /\ at > Len(inp) /\ res' = "done" /\ UNCHANGED <<S0, kind, inp, cnt, flag, at, S>>
Next == \/ Fit
        \/ Elem
        \/ Stop
        \/ res \in {"done", "refused"} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refused == IF kind = "load" THEN EdgesRefused(Assoc, S0, inp, cnt, flag) ELSE VertsRefused(Assoc, S0, inp, cnt, flag)
Loaded == IF kind = "load" THEN EdgesLoaded(Assoc, S0, inp, cnt, flag) ELSE VertsLoaded(Assoc, S0, inp, cnt, flag)
Half(c) == IF kind = "load" THEN EdgesHalf(S0, inp, cnt, c) ELSE VertsHalf(S0, inp, cnt, flag, c)
Judged == /\ res = "refused" => Refused /\ Half(S)
          /\ res = "done" => ~Refused /\ (inp = << >> /\ kind = "load" /\ cnt = 0 /\ ~flag => S = S0) /\ S = Loaded
\* what a refused load must not leave
Told == res = "refused" =>
  /\ ~Half([S EXCEPT !.vs = @ \cup {<<N(S), 0>>}]) \/ (kind = "load" /\ N(S) < Room(S0, cnt))
  /\ ~Half([S EXCEPT !.es = @ \cup {<<0, K + 1, 77>>}])
  /\ S0.es # {} => ~Half([S EXCEPT !.es = {}])
  /\ S0.vs # {} => ~Half([S EXCEPT !.vs = {}])
Ends_ == <>(res \in {"done", "refused"})
====
