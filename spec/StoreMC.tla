---- MODULE StoreMC ----
(* Every short history of loads, resizes, clears, copies, moves, swaps and value changes on two graphs; the contents computed step *)
(* by step must be what the edges loaded since the last clear say declaratively.                                                  *)
EXTENDS Store
CONSTANTS K, MaxLoads, Kinds, Ords
VARIABLES reg, hist, n
vars == <<reg, hist, n>>
Ids == 0..(K - 1)
Some == {<<0, 0, 1>>, <<0, 1, 2>>, <<1, 0, 3>>, <<0, 1, 4>>, <<0, K - 1, 5>>}
Lists == {<<e>> : e \in Some} \cup {<<e, f>> : e \in Some, f \in {<<0, 1, 2>>, <<1, 0, 6>>}} \cup {<< >>}
VLists == {<<<<0, 7>>>>, <<<<1, 8>>, <<0, 9>>>>}
Init == /\ \E k \in Kinds, o \in Ords, b \in BOOLEAN : reg = [r \in 1..2 |-> EmptyGraph(k, o, b)]
        /\ hist = [r \in 1..2 |-> << >>] /\ n = 0
Upd(r, S, h) == reg' = [reg EXCEPT ![r] = S] /\ hist' = [hist EXCEPT ![r] = h]
Op ==
  \/ \E r \in 1..2, es \in Lists, vc \in {0, 2} : LET x == LoadEdges(reg[r], es, vc, TRUE) IN
       x.res = "ok" /\ Upd(r, x.S, hist[r] \o es)
  \/ \E r \in 1..2, vs \in VLists : LET x == LoadVertices(reg[r], vs, 0) IN x.res = "ok" /\ Upd(r, x.S, hist[r])
  \/ \E r \in 1..2 : Upd(r, ResizeVertices(reg[r], K), hist[r])
  \/ \E r \in 1..2 : Upd(r, Clear(reg[r]), << >>)
  \/ reg' = [reg EXCEPT ![2] = reg[1]] /\ hist' = [hist EXCEPT ![2] = hist[1]]
  \/ reg' = [r \in 1..2 |-> reg[3 - r]] /\ hist' = [r \in 1..2 |-> hist[3 - r]]
  \/ \E r \in 1..2 : \E v \in reg[r].ids : Upd(r, SetVal(reg[r], v, 10), hist[r])
Next == \/ n < MaxLoads /\ Op /\ n' = n + 1
        \/ n = MaxLoads /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the edges of h that a graph shows, in order
RECURSIVE FirstsR(_, _)
FirstsR(h, k) == IF k > Len(h) THEN << >>
                 ELSE (IF \E j \in 1..(k - 1) : <<h[j][1], h[j][2]>> = <<h[k][1], h[k][2]>> THEN << >> ELSE <<h[k]>>) \o FirstsR(h, k + 1)
Shown(S, h) == IF S.ord \in {"seq", "rev"} THEN h ELSE FirstsR(h, 1)
ContentsOK(S, h) ==
  LET sh == Shown(S, h) IN
  /\ S.ne = Len(h)
  /\ Ends(h) \subseteq S.ids /\ (~Assoc(S) => S.ids = Upto(N(S)))
  /\ DOMAIN S.val = S.ids /\ DOMAIN S.out = S.ids
  /\ \A u \in S.ids :
       LET mine == SelectSeq(sh, LAMBDA e : e[1] = u)
           want == [j \in DOMAIN mine |-> <<u, mine[j][2], mine[j][3]>>]
           got == Rows(S, u)
       IN /\ CASE S.ord = "seq" -> got = want
               [] S.ord = "rev" -> got = Rev(want)
               [] OTHER -> SameBag(got, want) /\ \A j \in 1..(Len(got) - 1) : got[j][2] < got[j + 1][2]
  /\ SumDeg(S) = Len(sh)
  /\ S.bid => \A v \in S.ids : SameBag([j \in DOMAIN S.in[v] |-> <<S.in[v][j][1], v, S.in[v][j][2]>>], InRows(S, v))
Correct == \A r \in 1..2 : ContentsOK(reg[r], hist[r])
====
