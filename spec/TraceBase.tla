---- MODULE TraceBase ----
(* Batch trace validation: one JSON episode per line; ep selects the episode, i is the next event. *)
EXTENDS Graphs, Json, IOUtils
VARIABLES ep, i
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[ep]
Evs == T.ev
E == Evs[i]
More == i <= Len(Evs)
TBInit == ep \in 1..Len(Trace) /\ i = 1
TBNext == i' = i + 1 /\ UNCHANGED ep
\* the events of a subset of callbacks are the projection of the full event sequence
ProjectionOK(full, sub) == sub.ev = SelectSeq(full, LAMBDA e : e[1] \in Range(sub.kinds))
====
