---------------------------- MODULE SparseArray ----------------------------
(* The sparse array: a bounded array with holes; zero-size items are kept but  *)
(* read as nothing (documented in the source).                                 *)
EXTENDS Naturals, Sequences, TLC
VARIABLES esz, max, cells, ret
svars == <<esz, max, cells, ret>>
SNew(e, m) == esz' = e /\ max' = m /\ cells' = <<>> /\ ret' = 1
SSet(j, v) == /\ IF j >= max \/ Len(v) > esz THEN cells' = cells /\ ret' = 0
                 ELSE cells' = (j :> v) @@ cells /\ ret' = 1
              /\ UNCHANGED <<esz, max>>
SGetOK(j, nil, n, v) == IF j < max /\ j \in DOMAIN cells /\ cells[j] # <<>>
                        THEN nil = 0 /\ n = Len(cells[j]) /\ v = cells[j] ELSE nil = 1
=============================================================================
