----------------------------- MODULE VectorGen -----------------------------
(* Generates every history of at most MaxOps vector operations: TLC walks the *)
(* abstract specification and prints each complete history as JSON, which is   *)
(* then replayed on the real vector.                                           *)
EXTENDS Vector, TLC, Json
CONSTANTS MaxOps, Size, Caps
VARIABLES log, cap
Lens == {0, 1, Size - 1, Size, Size + 1}
GInit == isz = Size /\ items = <<>> /\ ret = 0 /\ log = <<>> /\ cap \in Caps
Bytes(n) == [k \in 1..n |-> 16 * (Len(log) + 1) + (k % 16)]
GNext == /\ Len(log) < MaxOps /\ UNCHANGED cap
         /\ \/ \E n \in Lens : VAppend(FALSE, Bytes(n), n) /\ log' = Append(log, [op |-> "app", b |-> Bytes(n)])
            \/ Size = PtrSize /\ VAppendPtr(Bytes(8)) /\ log' = Append(log, [op |-> "ptr", b |-> Bytes(8)])
            \/ VReverse /\ log' = Append(log, [op |-> "rev", b |-> <<>>])
Emit == Len(log) = MaxOps => PrintT("GEN " \o ToJson([cap |-> cap, ops |-> log]))
=============================================================================
