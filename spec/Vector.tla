------------------------------- MODULE Vector -------------------------------
(* The growable sequence (include/vector.h).  An element is what a reader may *)
(* rely on: the bytes stored, followed by a zero when the item was shorter    *)
(* than the element size; a null or empty item is all zeroes.                 *)
EXTENDS Naturals, Sequences
VARIABLES isz,      \* element size in bytes
          items,    \* the sequence of elements
          ret       \* result of the last call

vvars == <<isz, items, ret>>
PtrSize == 8
Zeros(n) == [k \in 1..n |-> 0]
Element(nil, b, n) == IF nil \/ n = 0 THEN Zeros(isz)
                      ELSE IF n < isz THEN Append(SubSeq(b, 1, n), 0) ELSE SubSeq(b, 1, n)

VNew(size) == isz' = size /\ items' = <<>> /\ ret' = 1
VAppend(nil, b, n) ==
  /\ IF n > isz THEN items' = items /\ ret' = 0
                ELSE items' = Append(items, Element(nil, b, n)) /\ ret' = 1
  /\ UNCHANGED isz
VAppendPtr(b) ==
  /\ IF isz # PtrSize THEN items' = items /\ ret' = 0
                      ELSE items' = Append(items, b) /\ ret' = 1
  /\ UNCHANGED isz
VReverse == items' = [k \in 1..Len(items) |-> items[Len(items) + 1 - k]] /\ ret' = 1 /\ UNCHANGED isz
(* a read: nothing (NULL) beyond the end, otherwise bytes that start with the element *)
VGetOK(j, nil, b) ==
  IF j >= Len(items) THEN nil = 1
  ELSE /\ nil = 0 /\ Len(b) = isz
       /\ LET e == items[j + 1] IN SubSeq(b, 1, Len(e)) = e
=============================================================================
