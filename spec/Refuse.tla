---- MODULE Refuse ----
(* Which input a container refuses, with which error, and what it holds afterwards.                          *)
(* A content S: vs, the set of <<vertex, value>>; es, the set of <<source, target, value>> (values differ).    *)
EXTENDS Graphs
DONE == 0
RANGE == 4      \* std::out_of_range
RUNTIME == 6    \* std::runtime_error
GERR == 7       \* graph_error
INVALID == 8    \* std::invalid_argument
Nothing == [vs |-> {}, es |-> {}]
Ids(S) == {v[1] : v \in S.vs}
N(S) == Cardinality(S.vs)
ValOf(S, u) == (CHOOSE v \in S.vs : v[1] = u)[2]
Ends(F) == {e[1] : e \in F} \cup {e[2] : e \in F}
MaxP1(A) == IF A = {} THEN 0 ELSE Max(A) + 1
UpTo(n) == 0..(n - 1)
Valued(S, ids) == {<<u, IF u \in Ids(S) THEN ValOf(S, u) ELSE 0>> : u \in ids}
Grown(S, ids) == [S EXCEPT !.vs = Valued(S, Ids(S) \cup ids)]
\* the last value given to a vertex counts
LastOf(vs, u) == vs[Max({j \in DOMAIN vs : vs[j][1] = u})][2]
SetVals(S, vs) == LET ids == {v[1] : v \in Range(vs)} IN [S EXCEPT !.vs = {v \in Valued(S, Ids(S) \cup ids) : v[1] \notin ids} \cup {<<u, LastOf(vs, u)>> : u \in ids}]
\* --- edges: a count given, or a range that is traversed once, fixes the number of vertices beforehand
Room(S, cnt) == Max({N(S), cnt})
EdgesRefused(assoc, S, es, cnt, once) == ~assoc /\ (cnt > 0 \/ once) /\ \E e \in Range(es) : e[1] >= Room(S, cnt) \/ e[2] >= Room(S, cnt)
EdgesLoaded(assoc, S, es, cnt, once) ==
  LET F == Range(es)
      ids == IF assoc THEN Ends(F) ELSE IF cnt > 0 \/ once THEN UpTo(Room(S, cnt)) ELSE UpTo(MaxP1(Ends(F)))
  IN [Grown(S, ids) EXCEPT !.es = @ \cup F]
\* what a refused load leaves: everything that was there, and at most edges that could be accepted
EdgesHalf(S, es, cnt, c) ==
  /\ c.es \subseteq S.es \cup {e \in Range(es) : e[1] < Room(S, cnt) /\ e[2] < Room(S, cnt)} /\ S.es \subseteq c.es
  /\ N(S) <= N(c) /\ Ids(c) = UpTo(N(c)) /\ N(c) <= Room(S, cnt) /\ c.vs = Valued(S, Ids(c))
\* --- vertex values
VRoom(S, vs, cnt, sized) == Max({N(S), cnt, IF sized THEN Len(vs) ELSE 0})
VertsRefused(assoc, S, vs, cnt, sized) == ~assoc /\ \E v \in Range(vs) : v[1] >= VRoom(S, vs, cnt, sized)
VertsLoaded(assoc, S, vs, cnt, sized) == SetVals(IF assoc THEN S ELSE Grown(S, UpTo(VRoom(S, vs, cnt, sized))), vs)
VertsHalf(S, vs, cnt, sized, c) ==
  /\ c.es = S.es /\ N(S) <= N(c) /\ Ids(c) = UpTo(N(c)) /\ N(c) <= VRoom(S, vs, cnt, sized)
  /\ c.vs \subseteq Valued(S, Ids(c)) \cup Range(vs)
\* --- partitions: ascending starts from 0 on, none beyond the vertices
PartsOK(ps, n) == ps = << >> \/ (ps[1] = 0 /\ (\A j \in 2..Len(ps) : ps[j - 1] < ps[j]) /\ ps[Len(ps)] <= n)
\* --- a range that has to be ordered by source
Ordered(es) == \A j \in 2..Len(es) : es[j - 1][1] <= es[j][1]
====
