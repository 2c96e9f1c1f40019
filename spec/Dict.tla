-------------------------------- MODULE Dict --------------------------------
(* The dictionary (include/simple_sparsehash.h): a map from byte strings to    *)
(* byte strings.  A stored entry can always be overwritten and read back.      *)
EXTENDS Naturals, Sequences, TLC
VARIABLES map, ret
dvars == <<map, ret>>
DNew == map' = <<>> /\ ret' = 1
DSet(k, v) == map' = (k :> v) @@ map /\ ret' = 1
DGetOK(k, nil, v) == IF k \in DOMAIN map THEN nil = 0 /\ v = map[k] ELSE nil = 1
=============================================================================
