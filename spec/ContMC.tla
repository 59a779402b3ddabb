---- MODULE ContMC ----
(* Edges are created one at a time: take a block, copy the value into it, link it, count it; the first two may fail. *)
(* A load works on the target; a copy is built aside and given up as a whole; an assignment builds a copy aside and   *)
(* then changes places with it.  At the end the target is destroyed.                                                  *)
EXTENDS Cont
CONSTANTS N
VARIABLES op, a, b, st, es, cnt, gv, aside, todo, cur, blocks, outcome, before, way
vars == <<op, a, b, st, es, cnt, gv, aside, todo, cur, blocks, outcome, before, way>>
VS == UpTo(N)
All == {<<u, v, 1>> : u \in VS, v \in VS}
New == {<<u, v, 2>> : u \in VS, v \in VS}
Nobody == <<0, 0, 0>>
Init == /\ op \in {"load", "make", "assign", "clear"} /\ a \in SUBSET All /\ b \in SUBSET New
        /\ st = "in" /\ es = (IF op = "make" THEN {} ELSE a) /\ cnt = Cardinality(es) /\ gv = (IF op = "make" THEN 0 ELSE 1) /\ before = es /\ aside = {} /\ todo = (IF op = "clear" THEN {} ELSE b)
        /\ cur = Nobody /\ blocks = Cardinality(es) /\ outcome = DONE /\ way = "on"
Keep == UNCHANGED <<op, a, b, before>>
Fail(o) == outcome' = o /\ way' = "back" /\ st' = "leave"
Take == /\ st = "in" /\ todo # {} /\ Keep /\ gv' = gv /\ UNCHANGED <<es, cnt, aside>>
        /\ \/ \E e \in todo : cur' = e /\ todo' = todo \ {e} /\ blocks' = blocks + 1 /\ st' = "copy" /\ UNCHANGED <<outcome, way>>
           \/ Fail(NOMEM) /\ UNCHANGED <<todo, cur, blocks>>
Copy == /\ st = "copy" /\ Keep /\ gv' = gv /\ UNCHANGED <<todo>> /\ cur' = Nobody
        /\ \/ /\ IF op = "load" THEN es' = es \cup {cur} /\ cnt' = cnt + 1 /\ UNCHANGED aside
                                ELSE aside' = aside \cup {cur} /\ UNCHANGED <<es, cnt>>
              /\ st' = "in" /\ UNCHANGED <<outcome, way, blocks>>
           \/ Fail(BOOM) /\ blocks' = blocks - 1 /\ UNCHANGED <<es, cnt, aside>>
Built == /\ st = "in" /\ todo = {} /\ st' = "leave" /\ Keep /\ UNCHANGED <<todo, cur, blocks, outcome, way>>
         /\ IF op \in {"make", "assign"} THEN es' = aside /\ cnt' = Cardinality(aside) /\ aside' = es /\ gv' = 2     \* they change places
            ELSE IF op = "clear" THEN es' = {} /\ cnt' = 0 /\ aside' = es /\ gv' = gv ELSE UNCHANGED <<es, cnt, aside, gv>>
\* what lies aside goes, edge by edge, on the good way and on the bad one
Drop == /\ st = "leave" /\ aside # {} /\ (\E e \in aside : aside' = aside \ {e}) /\ blocks' = blocks - 1
        /\ Keep /\ gv' = gv /\ UNCHANGED <<st, es, cnt, todo, cur, outcome, way>>
Return == /\ st = "leave" /\ aside = {} /\ st' = "out" /\ Keep /\ gv' = gv /\ UNCHANGED <<es, cnt, aside, todo, cur, blocks, outcome, way>>
Destroy == /\ st = "out" /\ es # {} /\ (\E e \in es : es' = es \ {e}) /\ blocks' = blocks - 1 /\ st' = "dying"
           /\ Keep /\ gv' = gv /\ UNCHANGED <<cnt, aside, todo, cur, outcome, way>>
Dying == /\ st = "dying" /\ es # {} /\ (\E e \in es : es' = es \ {e}) /\ blocks' = blocks - 1
         /\ Keep /\ gv' = gv /\ UNCHANGED <<st, cnt, aside, todo, cur, outcome, way>>
Gone == /\ st \in {"out", "dying"} /\ es = {} /\ st' = "gone" /\ Keep /\ gv' = gv /\ UNCHANGED <<es, cnt, aside, todo, cur, blocks, outcome, way>>
Next == \/ Take
        \/ Copy
        \/ Built
        \/ Drop
        \/ Return
        \/ Destroy
        \/ Dying
        \/ Gone
        \/ st = "gone" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Dir == [und |-> FALSE, bi |-> FALSE, uniq |-> FALSE, assoc |-> FALSE]
Cc(S, c, g) == [vs |-> {<<u, 0>> : u \in VS}, es |-> S, ins |-> {}, nv |-> N, ne |-> c, gv |-> g, dup |-> FALSE]
Promise == CASE op = "load" -> "load" [] op = "make" -> "make" [] op = "assign" -> "strong" [] OTHER -> "never"
Now == Cc(es, cnt, gv)
Was == Cc(before, Cardinality(before), IF op = "make" THEN 0 ELSE 1)
Judge(c) == IF outcome = DONE
            THEN Shows(c, Dir, c.vs, CASE op = "load" -> a \cup b [] op = "clear" -> {} [] OTHER -> b,
                       IF op \in {"make", "assign"} THEN 2 ELSE 1)
            ELSE AfterFailure(Promise, c, Was, Cc({}, 0, 0), Dir, b, 0, {})
Judged == st = "out" =>
  /\ Judge(Now)
  /\ outcome # DONE => op # "clear"
  /\ \A e \in before : outcome # DONE /\ op # "make" => ~Judge([Now EXCEPT !.es = @ \ {e}, !.ne = cnt - 1])   \* an old edge lost
  /\ ~Judge([Now EXCEPT !.gv = 9])                                                                          \* another graph value
  /\ ~Judge([Now EXCEPT !.ne = cnt + 1])                                                                     \* a wrong count
  /\ ~Judge([Now EXCEPT !.es = @ \cup {<<0, 0, 3>>}, !.ne = cnt + 1])                                         \* an edge made up
  /\ op \in {"make", "assign"} /\ outcome # DONE => \A e \in b : ~Judge([Now EXCEPT !.es = @ \cup {e}, !.ne = cnt + 1])
Storage == /\ st = "out" => blocks = Cardinality(es)
           /\ st = "gone" => CallOK(2, 0, 0, 0, DONE, blocks, 0, TRUE)
Ends_ == <>(st = "gone")
\* both sides of an undirected edge, and sets as rows
ASSUME \A S \in SUBSET New : EdgeCount(TRUE, Rows(TRUE, {e \in S : e[1] <= e[2]})) = Cardinality({e \in S : e[1] <= e[2]})
ASSUME \A S \in SUBSET All : \A F \in SUBSET New : LET r == S \cup Fresh(TRUE, S, F) IN
         /\ \A x, y \in r : x[1] = y[1] /\ x[2] = y[2] => x = y
         /\ \A f \in F : \E x \in r : x[1] = f[1] /\ x[2] = f[2]
====
