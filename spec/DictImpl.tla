------------------------------ MODULE DictImpl ------------------------------
(* Design of the hash table: open addressing over a power-of-two number of     *)
(* slots, doubled when RESIZE percent are occupied.  Hash values are chosen    *)
(* arbitrarily, so every collision pattern is covered.  Probe = "square" is    *)
(* the design as found (h + n*n), which does not visit every slot; "triangle"  *)
(* is (h + n*(n+1)/2).  Checked: insertion never fails, and the table is the   *)
(* abstract map of Dict.tla.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Start, HashMax, Probe, Resize, Vals
VARIABLES hash, max, slots, cnt, abs, failed
vars == <<hash, max, slots, cnt, abs, failed>>
Symm == Permutations(Keys)
None == [k |-> "none", v |-> 0]
Off(n) == IF Probe = "square" THEN n * n ELSE (n * (n + 1)) \div 2
Slot(h, n, m) == (h + Off(n)) % m
Init == /\ hash \in [Keys -> 0..HashMax] /\ max = Start /\ slots = [s \in 0..(Start - 1) |-> None]
        /\ cnt = 0 /\ abs = <<>> /\ failed = FALSE
(* probe numbers 0..cnt are tried *)
RECURSIVE Find(_, _, _, _, _, _)
Find(k, n, t, m, c, onlyEmpty) ==
  IF n > c THEN -1
  ELSE LET s == Slot(hash[k], n, m) IN
       IF t[s] = None \/ (~onlyEmpty /\ t[s].k = k) THEN s ELSE Find(k, n + 1, t, m, c, onlyEmpty)
RECURSIVE Rehash(_, _, _, _)
Rehash(old, s, new, c) ==
  IF s \notin DOMAIN old THEN new
  ELSE IF old[s] = None \/ new = <<>> THEN Rehash(old, s + 1, new, c)
  ELSE LET p == Find(old[s].k, 0, new, 2 * Cardinality(DOMAIN old), c, TRUE) IN
       IF p = -1 THEN <<>> ELSE Rehash(old, s + 1, [new EXCEPT ![p] = old[s]], c)
Set(k, v) ==
  LET p == Find(k, 0, slots, max, cnt, FALSE) IN
  IF p = -1 THEN failed' = TRUE /\ UNCHANGED <<max, slots, cnt, abs>>
  ELSE LET t == [slots EXCEPT ![p] = [k |-> k, v |-> v]]
           fresh == slots[p] = None
           c == IF fresh THEN cnt + 1 ELSE cnt
           grow == fresh /\ 100 * c >= Resize * max
           g == Rehash(t, 0, [s \in 0..(2 * max - 1) |-> None], c)
       IN /\ cnt' = c /\ abs' = (k :> v) @@ abs
          /\ IF grow THEN max' = 2 * max /\ slots' = (IF g = <<>> THEN t ELSE g) /\ failed' = (failed \/ g = <<>>)
                     ELSE max' = max /\ slots' = t /\ UNCHANGED failed
Next == ~failed /\ UNCHANGED hash /\ \E k \in Keys, v \in Vals : Set(k, v)
Spec == Init /\ [][Next]_vars
NeverFails == ~failed
Get(k) == LET p == Find(k, 0, slots, max, cnt, FALSE) IN IF p = -1 THEN None ELSE slots[p]
IsMap == \A k \in Keys : IF k \in DOMAIN abs THEN Get(k) = [k |-> k, v |-> abs[k]] ELSE Get(k) = None
HasRoom == cnt < max
=============================================================================
