---- MODULE CursorTrace ----
(* Moves, readings and comparisons of iterators, each an enabled action of Cursor. *)
EXTENDS Cursor, TraceBase
VARIABLE pos
vars == <<ep, i, pos>>
s == T.ref
Init == TBInit /\ pos = [c \in Cs |-> None]
Put(c, p) == pos' = [pos EXCEPT ![c] = p]
Alone(c, p) == pos' = [d \in Cs |-> IF d = c THEN p ELSE IF T.kind = SEARCH THEN None ELSE pos[d]]
B(x) == x = 1
Step(e) ==
  \/ e[1] = "begin" /\ Put(e[2], 1)
  \/ e[1] = "get" /\ (GetOK(s, T.k, pos[e[2]], B(e[3]), e[4], e[5], e[6])) = TRUE /\ UNCHANGED pos
  \/ e[1] = "inc" /\ MoveOK(s, pos[e[2]], e[3], e[4]) /\ Alone(e[2], pos[e[2]] + 1)
  \/ e[1] = "post" /\ MoveOK(s, pos[e[2]], e[4], e[5]) /\ pos' = [pos EXCEPT ![e[2]] = @ + 1, ![e[3]] = pos[e[2]]]
  \/ e[1] = "cp" /\ pos[e[2]] # None /\ Put(e[3], pos[e[2]])
  \/ e[1] = "eq" /\ (B(e[4]) <=> pos[e[2]] = pos[e[3]]) /\ e[5] = 1 - e[4] /\ UNCHANGED pos
  \/ e[1] = "end" /\ (B(e[3]) <=> pos[e[2]] = EndAt(s)) /\ e[4] = e[3] /\ UNCHANGED pos
  \/ e[1] = "rest" /\ (RestOK(s, pos[e[2]], e[3])) = TRUE /\ Alone(e[2], EndAt(s))
  \/ e[1] = "pass" /\ PassOK(T.kind, e[2], e[3], e[4], B(e[5])) /\ UNCHANGED pos
  \/ e[1] = "fail" /\ FailOK(e[2], e[3], e[4], e[5], B(e[6]), B(e[7])) /\ UNCHANGED pos
Next == \/ More /\ Step(E) /\ TBNext
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
====
