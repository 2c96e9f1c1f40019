-------------------------- MODULE SparseArrayImpl --------------------------
(* Design of one group: a packed list of items plus a bitmap; the offset of a   *)
(* position is the number of occupied positions below it.  Checked: the packed  *)
(* list is the array of SparseArray.tla, whatever the order of stores.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS GroupSize, Max, Vals, MaxOps
VARIABLES groups, bits, abs, nops
vars == <<groups, bits, abs, nops>>
NG == (Max - 1) \div GroupSize + 1
Init == /\ groups = [g \in 0..(NG - 1) |-> <<>>] /\ bits = [g \in 0..(NG - 1) |-> {}] /\ abs = <<>> /\ nops = 0
Offset(g, p) == Cardinality({q \in bits[g] : q < p})
Set(j, v) ==
  LET g == j \div GroupSize  p == j % GroupSize  o == Offset(g, p)  l == groups[g] IN
  /\ IF p \in bits[g] THEN groups' = [groups EXCEPT ![g][o + 1] = v] /\ bits' = bits
     ELSE /\ groups' = [groups EXCEPT ![g] = SubSeq(l, 1, o) \o <<v>> \o SubSeq(l, o + 1, Len(l))]
          /\ bits' = [bits EXCEPT ![g] = @ \cup {p}]
  /\ abs' = (j :> v) @@ abs
Next == nops < MaxOps /\ nops' = nops + 1 /\ \E j \in 0..(Max - 1), v \in Vals : Set(j, v)
Spec == Init /\ [][Next]_vars
Get(j) == LET g == j \div GroupSize  p == j % GroupSize IN IF p \in bits[g] THEN groups[g][Offset(g, p) + 1] ELSE 0
Refines == \A j \in 0..(Max - 1) : Get(j) = (IF j \in DOMAIN abs THEN abs[j] ELSE 0)
Packed == \A g \in DOMAIN groups : Len(groups[g]) = Cardinality(bits[g])
=============================================================================
