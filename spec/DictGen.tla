------------------------------ MODULE DictGen ------------------------------
(* Every history of at most MaxOps stores over a few related keys and values. *)
EXTENDS Dict, Json
CONSTANTS MaxOps
VARIABLE log
Keys == {<<>>, <<97>>, <<97, 97>>, <<97, 0>>, <<98>>}
Vals == {<<>>, <<120>>, <<121, 0, 121>>}
GInit == map = <<>> /\ ret = 0 /\ log = <<>>
GNext == Len(log) < MaxOps /\ \E k \in Keys, v \in Vals : DSet(k, v) /\ log' = Append(log, [k |-> k, v |-> v])
Emit == Len(log) = MaxOps => PrintT("GEN " \o ToJson(log))
=============================================================================
