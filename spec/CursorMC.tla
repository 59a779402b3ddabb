---- MODULE CursorMC ----
(* The two-level iterator of a list of all edges (vertex, place among its edges; empty vertices are skipped), several of them, moved  *)
(* in any order, with readings that may fail: each is a position in the flat sequence, and equality is equality of positions.         *)
EXTENDS Cursor, SequencesExt
CONSTANTS VN, EN, STEPS
VARIABLES rows, cur, abs, log, n
vars == <<rows, cur, abs, log, n>>
Rs == [1..VN -> 0..EN]
Flat(rw) == FoldLeft(LAMBDA a, u : a \o [j \in 1..rw[u] |-> <<u, j>>], << >>, [u \in 1..VN |-> u])
\* the iterator: <<u, j>>; at the end <<VN + 1, 0>>
RECURSIVE Skip(_, _)
Skip(rw, u) == IF u > VN THEN <<VN + 1, 0>> ELSE IF rw[u] = 0 THEN Skip(rw, u + 1) ELSE <<u, 1>>
Start(rw) == Skip(rw, 1)
NextOf(rw, x) == IF x[2] < rw[x[1]] THEN <<x[1], x[2] + 1>> ELSE Skip(rw, x[1] + 1)
AtEnd(x) == x[1] = VN + 1
Init == /\ rows \in Rs /\ cur = [c \in Cs |-> IF c = 1 THEN Start(rows) ELSE << >>] /\ abs = [c \in Cs |-> IF c = 1 THEN 1 ELSE None] /\ log = << >> /\ n = 0
There(c) == cur[c] # << >>
Tick == n < STEPS /\ n' = n + 1 /\ UNCHANGED rows
Get(c, fail) == /\ Tick /\ There(c) /\ ~AtEnd(cur[c]) /\ UNCHANGED <<cur, abs>>
                /\ log' = IF fail THEN <<"get", c, TRUE, BOOM, << >>>> ELSE <<"get", c, FALSE, DONE, cur[c]>>
Inc(c) == Tick /\ There(c) /\ ~AtEnd(cur[c]) /\ cur' = [cur EXCEPT ![c] = NextOf(rows, @)] /\ abs' = [abs EXCEPT ![c] = @ + 1] /\ log' = << >>
Post(c, d) == /\ Tick /\ c # d /\ There(c) /\ ~AtEnd(cur[c]) /\ log' = << >>
              /\ cur' = [cur EXCEPT ![c] = NextOf(rows, @), ![d] = cur[c]] /\ abs' = [abs EXCEPT ![c] = @ + 1, ![d] = abs[c]]
Copy(c, d) == Tick /\ c # d /\ There(c) /\ cur' = [cur EXCEPT ![d] = cur[c]] /\ abs' = [abs EXCEPT ![d] = abs[c]] /\ log' = << >>
Next == \/ \E c \in Cs, f \in BOOLEAN : Get(c, f)
        \/ \E c \in Cs : Inc(c)
        \/ \E c, d \in Cs : Post(c, d)
        \/ \E c, d \in Cs : Copy(c, d)
Spec == Init /\ [][Next]_vars
Same == \A c \in Cs : There(c) =>
  LET s == Flat(rows) IN
  /\ abs[c] \in 1..EndAt(s)
  /\ AtEnd(cur[c]) <=> abs[c] = EndAt(s)
  /\ ~AtEnd(cur[c]) => s[abs[c]] = cur[c]
  /\ \A d \in Cs : There(d) => (cur[c] = cur[d] <=> abs[c] = abs[d])
Reads == log # << >> => GetOK(Flat(rows), 1, abs[log[2]], log[3], log[4], 1, log[5])
\* a loop from here gives what is left
RECURSIVE Left(_, _)
Left(rw, x) == IF AtEnd(x) THEN << >> ELSE <<x>> \o Left(rw, NextOf(rw, x))
Rests == \A c \in Cs : There(c) => RestOK(Flat(rows), abs[c], Left(rows, cur[c]))
====
