---- MODULE Cont ----
(* What an operation on a container may do when an allocation or the copy of a value fails on its way.          *)
(* A content is a record: vs, the set of <<vertex, value>>; es, the set of <<source, target, value>> that the   *)
(* rows show (an undirected edge shows in both of its rows); ins, the same as seen by the incoming edges;       *)
(* nv, ne the counts the graph reports; gv the value of the graph; dup: some vertex or edge shows twice.        *)
EXTENDS Graphs
DONE == 0
NOMEM == 1
BOOM == 2
Ids(c) == {v[1] : v \in c.vs}
ValOf(c, u) == (CHOOSE v \in c.vs : v[1] = u)[2]
Ends(S) == {e[1] : e \in S} \cup {e[2] : e \in S}
Mirror(S) == {<<e[2], e[1], e[3]>> : e \in S}
Rows(und, S) == IF und THEN S \cup Mirror(S) ELSE S
\* how many edges a graph with these rows has
EdgeCount(und, S) == IF und THEN Cardinality({e \in S : e[1] = e[2]}) + Cardinality({e \in S : e[1] # e[2]}) \div 2 ELSE Cardinality(S)
MaxP1(S) == IF S = {} THEN 0 ELSE Max(S) + 1
UpTo(n) == 0..(n - 1)
\* the new edges that a load really adds (rows that are sets keep the edge they have)
Fresh(uniq, old, new) == IF uniq THEN {e \in new : ~\E o \in old : o[1] = e[1] /\ o[2] = e[2]} ELSE new
LoadIds(assoc, old, new, cnt) == IF assoc THEN old \cup Ends(new) ELSE UpTo(Max({MaxP1(old), cnt, MaxP1(Ends(new))}))
Valued(c, ids) == {<<u, IF u \in Ids(c) THEN ValOf(c, u) ELSE 0>> : u \in ids}
\* a consistent content with these vertices and edges; m: how the container is (und, bi, uniq, assoc)
Shows(c, m, vs, es, gv) ==
  /\ ~c.dup /\ c.vs = vs /\ c.es = es /\ c.nv = Cardinality(vs) /\ c.gv = gv
  /\ (~m.uniq => c.ne = EdgeCount(m.und, es))
  /\ c.ins = (IF m.bi THEN es ELSE {})
Same(c, d) == c = d
\* a load that stopped half way: nothing old is lost, nothing is made up, and the counts tell what is there.
\* (an incoming edge may be there without its outgoing edge)
HalfLoaded(c, before, m, new, cnt) ==
  /\ ~c.dup /\ c.gv = before.gv /\ before.es \subseteq c.es /\ c.es \subseteq before.es \cup Fresh(m.uniq, before.es, new)
  /\ Ids(before) \subseteq Ids(c) /\ Ids(c) \subseteq LoadIds(m.assoc, Ids(before), new, cnt) /\ c.vs = Valued(before, Ids(c))
  /\ c.nv = Cardinality(c.vs) /\ (~m.uniq => c.ne = Cardinality(c.es))
  /\ c.ins \subseteq (IF m.bi THEN before.es \cup new ELSE {})
\* vertex values (or only the number of vertices) set half way
HalfSet(c, before, final) ==
  /\ ~c.dup /\ c.gv = before.gv /\ c.es = before.es /\ c.ins = before.ins /\ c.ne = before.ne
  /\ Ids(before) \subseteq Ids(c) /\ Ids(c) \subseteq {v[1] : v \in final} /\ c.vs \subseteq final \cup Valued(before, Ids(c))
  /\ c.nv = Cardinality(c.vs)
AfterFailure(promise, c, before, empty, m, new, cnt, final) ==
  CASE promise = "strong" -> Same(c, before)
    [] promise = "make"   -> Same(c, empty)
    [] promise = "load"   -> HalfLoaded(c, before, m, new, cnt)
    [] promise = "loadv"  -> HalfSet(c, before, final)
    [] promise = "weak"   -> TRUE
    [] OTHER              -> FALSE      \* "never": moving, swapping and clearing cannot fail
\* the call itself.  left: blocks not released in the end, live: values not destroyed in the end; src: what it read is as before
CallOK(kind, k, na, nc, outcome, left, live, src) ==
  /\ left = 0 /\ live = 0 /\ src
  /\ CASE kind = 0 /\ k <= na -> outcome = NOMEM \/ outcome = DONE
       [] kind = 1 /\ k <= nc -> outcome = BOOM
       [] OTHER               -> outcome = DONE
====
