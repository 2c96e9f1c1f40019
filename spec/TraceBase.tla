----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  Records is the list of histories *)
(* recorded from the real code; every history h is an initial state, i is the *)
(* position of the next event.  A history is accepted when the last event has *)
(* been explained by an action of the specification.                          *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANT Prop                     \* the property whose obligations are enforced
VARIABLES h, i
Records == ndJsonDeserialize(IOEnv.TRACE)
Verbose == IOEnv.VERBOSE = "1"
Ev   == Records[h].ev
E    == Ev[i]
More == i <= Len(Ev)
Advance == i' = i + 1 /\ h' = h
TBInit == h \in 1..Len(Records) /\ i = 1
(* a history is explained in one way only (no action leaves anything open), so two states at the same place are the same *)
Place == <<h, i>>
Accept == /\ (Verbose => PrintT(<<"AT", h, i>>))
          /\ ((i > Len(Ev)) => PrintT(<<"ACCEPT", h>>))
(* obligation c belongs to property p: it is enforced only by the check of p *)
Only(p, c) == IF Prop = p THEN c = TRUE ELSE TRUE
OnlyIn(S, c) == IF Prop \in S THEN c = TRUE ELSE TRUE
=============================================================================
