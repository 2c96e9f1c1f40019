-------------------------- MODULE SparseArrayGen --------------------------
(* Every order of at most MaxOps stores at positions around the borders of   *)
(* the bitmap words (32) and of the groups (48).                              *)
EXTENDS SparseArray, Json
CONSTANTS MaxOps, Max, At
VARIABLE log
GInit == esz = 2 /\ max = Max /\ cells = <<>> /\ ret = 0 /\ log = <<>>
Val(n) == [k \in 1..n |-> 16 * (Len(log) + 1) + k]
GNext == Len(log) < MaxOps /\ \E j \in At, n \in {1, 2} : SSet(j, Val(n)) /\ log' = Append(log, [i |-> j, v |-> Val(n)])
Emit == Len(log) = MaxOps => PrintT("GEN " \o ToJson(log))
=============================================================================
