----------------------------- MODULE VectorImpl -----------------------------
(* Design of the vector: one heap block of cap*isz + 1 bytes that doubles when *)
(* it is full.  Checked: it refines the abstract sequence of Vector.tla, and   *)
(* no write or read leaves the block.  GrowFromZero = FALSE is the design as   *)
(* found (capacity 0 doubles to 0).                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS ISZ, MaxOps, Caps, GrowFromZero
VARIABLES cap, mem, count, abs, nops, oob
vars == <<cap, mem, count, abs, nops, oob>>
Junk == 99
Put(m, at, b) == [k \in DOMAIN m |-> IF k >= at /\ k < at + Len(b) THEN b[k - at + 1] ELSE m[k]]
Init == \E c \in Caps : cap = c /\ mem = [k \in 1..(c * ISZ + 1) |-> 0] /\ count = 0 /\ abs = <<>> /\ nops = 0 /\ oob = FALSE
Items == {<<>>, <<1>>} \cup (IF ISZ > 1 THEN {<<1, 2>>} ELSE {})
AppendOp(b) ==
  LET full   == count = cap
      ncap   == IF full THEN (IF cap = 0 /\ GrowFromZero THEN 1 ELSE cap * 2) ELSE cap
      block  == IF full THEN [k \in 1..(ncap * ISZ + 1) |-> IF k \in DOMAIN mem THEN mem[k] ELSE Junk] ELSE mem
      at     == count * ISZ + 1
      bytes  == IF b = <<>> THEN [k \in 1..ISZ |-> 0] ELSE Append(b, 0)
  IN /\ Len(b) <= ISZ
     /\ cap' = ncap /\ mem' = Put(block, at, bytes) /\ count' = count + 1
     /\ oob' = (oob \/ at + Len(bytes) - 1 > Len(block))
     /\ abs' = Append(abs, IF b = <<>> THEN [k \in 1..ISZ |-> 0] ELSE IF Len(b) < ISZ THEN Append(b, 0) ELSE b)
Reverse ==
  /\ LET Slot(k) == SubSeq(mem, (k - 1) * ISZ + 1, k * ISZ)
         src(j)  == LET k == ((j - 1) \div ISZ) + 1 IN Slot(count + 1 - k)[((j - 1) % ISZ) + 1]
     IN mem' = [j \in DOMAIN mem |-> IF j <= count * ISZ THEN src(j) ELSE mem[j]]
  /\ abs' = [k \in 1..Len(abs) |-> abs[Len(abs) + 1 - k]]
  /\ UNCHANGED <<cap, count, oob>>
Next == nops < MaxOps /\ nops' = nops + 1 /\ ((\E b \in Items : AppendOp(b)) \/ Reverse)
Spec == Init /\ [][Next]_vars
InBounds == ~oob
Refines == /\ count = Len(abs) /\ count <= cap
           /\ \A k \in 1..count : LET e == abs[k] IN SubSeq(mem, (k - 1) * ISZ + 1, (k - 1) * ISZ + Len(e)) = e
=============================================================================
