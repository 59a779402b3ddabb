---- MODULE ContTrace ----
(* Operations with a failure at each point; contents before and after, storage and values alive, judged by Cont. *)
EXTENDS Cont, TraceBase
vars == <<ep, i>>
Init == TBInit
M == [und |-> T.und, bi |-> T.bi, uniq |-> T.uniq, assoc |-> T.assoc]
S2(r) == Range(r)
C(j) == LET c == T.conts[j] IN [vs |-> S2(c.vs), es |-> S2(c.es), ins |-> S2(c.ins), nv |-> c.nv, ne |-> c.ne, gv |-> c.gv,
                                 dup |-> ~(NoDup(c.vs) /\ NoDup(c.es))]
AV == S2(T.a.vs)
BV == S2(T.b.vs)
BE == S2(T.b.es)
W == T.want
Zero(n) == {<<u, 0>> : u \in UpTo(n)}
\* what the target holds when nothing failed, given what it held before
WantE(b) == CASE W[1] = "edges"  -> b.es \cup Fresh(M.uniq, b.es, BE)
              [] W[1] \in {"values", "size", "own", "vertex"} -> b.es
              [] W[1] \in {"b", "bedges"} -> Rows(M.und, BE)
              [] W[1] = "list"   -> Rows(TRUE, {<<0, 1, 1>>, <<1, 2, 2>>, <<0, 0, 3>>})
              [] W[1] = "edge"   -> b.es \cup Rows(TRUE, {<<W[2][1], W[2][2], W[2][3]>>})
              [] W[1] = "empty"  -> {}
WantV(b) == CASE W[1] = "edges"  -> Valued(b, LoadIds(M.assoc, Ids(b), BE, W[2]))
              [] W[1] = "values" -> BV \cup {v \in b.vs : v[1] >= T.b.n}
              [] W[1] = "size"   -> IF M.assoc THEN b.vs ELSE Valued(b, UpTo(Max({T.a.n, T.b.n})))
              [] W[1] = "own"    -> AV
              [] W[1] = "vertex" -> b.vs \cup {<<b.nv, W[2]>>}
              [] W[1] = "b"      -> BV
              [] W[1] = "bedges" -> Zero(MaxP1(Ends(BE)))
              [] W[1] = "list"   -> Zero(3)
              [] W[1] = "edge"   -> b.vs
              [] W[1] = "empty"  -> {}
WantG(b) == CASE T.wantgv = "b" -> T.b.gv [] T.wantgv = "3" -> 3 [] T.wantgv = "0" -> 0 [] OTHER -> b.gv
Cnt == IF W[1] = "edges" THEN W[2] ELSE 0
\* e = [name, kind, k, outcome, left, live, source as before, content before, content after, content after refilling it with b]
Step(e) ==
  LET b == C(e[8])  a == C(e[9]) IN
  /\ CallOK(e[2], e[3], T.na, T.nc, e[4], e[5], e[6], e[7] = 1)
  /\ IF e[4] = DONE THEN Shows(a, M, WantV(b), WantE(b), WantG(b)) ELSE AfterFailure(T.promise, a, b, C(1), M, BE, Cnt, WantV(b))
  /\ Shows(C(e[10]), M, BV, Rows(M.und, BE), T.b.gv)
Next == \/ More /\ (Step(E)) = TRUE /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
