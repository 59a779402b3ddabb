---- MODULE Cursor ----
(* A view is a fixed sequence of elements; an iterator is a position in it. Positions are independent of each other in views that    *)
(* can be passed over several times; a value function is called once when an element is read, and if it fails nothing has happened.   *)
EXTENDS Graphs
DONE == 0
NOMEM == 1
BOOM == 2
PLAIN == 0
SEARCH == 1
TOPO == 2
Cs == 1..3
None == 0
EndAt(s) == Len(s) + 1
\* reading with value function (k > 0) or without
GetOK(s, k, at, fail, res, calls, row) ==
  /\ at \in DOMAIN s
  /\ calls = IF k > 0 THEN 1 ELSE 0
  /\ IF k > 0 /\ fail THEN res = BOOM /\ row = << >> ELSE res = DONE /\ row = s[at]
MoveOK(s, at, res, calls) == at \in DOMAIN s /\ res = DONE /\ calls = 0
RestOK(s, at, rest) == rest = SubSeq(s, at, Len(s))
\* a whole pass: views of the graph itself take no storage
PassOK(kind, res, na, left, same) == res = DONE /\ left = 0 /\ same /\ (kind = PLAIN => na = 0)
FailOK(at, na, res, left, prefix, whole) == left = 0 /\ prefix /\ IF at <= na THEN res = NOMEM ELSE res = DONE /\ whole
====
