------------------------------- MODULE Bytes -------------------------------
(* Operators on byte strings, represented as sequences of numbers 0..255.     *)
EXTENDS Integers, Sequences, FiniteSets
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
Min2(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsAt(t, k, p) == k + Len(p) - 1 <= Len(t) /\ SubSeq(t, k, k + Len(p) - 1) = p
HasPrefix(t, p) == IsAt(t, 1, p)
HasSuffix(t, p) == Len(p) <= Len(t) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
(* first position >= k where the non-empty p occurs, 0 if there is none (looked for in pieces: TLC builds the sets) *)
RECURSIVE FindFrom(_, _, _)
FindFrom(t, p, k) ==
  LET last == Len(t) - Len(p) + 1
      S == {j \in k..Min2(k + 127, last) : t[j] = p[1] /\ IsAt(t, j, p)}
  IN IF S # {} THEN MinOf(S) ELSE IF k + 127 >= last THEN 0 ELSE FindFrom(t, p, k + 128)
Find(t, p) == FindFrom(t, p, 1)
RECURSIVE FindByte(_, _, _)
FindByte(t, b, k) == LET S == {j \in k..Min2(k + 127, Len(t)) : t[j] = b}
                     IN IF S # {} THEN MinOf(S) ELSE IF k + 127 >= Len(t) THEN 0 ELSE FindByte(t, b, k + 128)
(* first position >= k that holds no byte of S / holds one, Len(t) + 1 if there is none *)
RECURSIVE FirstOut(_, _, _), FirstIn(_, _, _)
FirstOut(t, S, k) == LET P == {j \in k..Min2(k + 63, Len(t)) : t[j] \notin S}
                     IN IF P # {} THEN MinOf(P) ELSE IF k + 63 >= Len(t) THEN (IF k > Len(t) THEN k ELSE Len(t) + 1) ELSE FirstOut(t, S, k + 64)
FirstIn(t, S, k) == LET P == {j \in k..Min2(k + 63, Len(t)) : t[j] \in S}
                    IN IF P # {} THEN MinOf(P) ELSE IF k + 63 >= Len(t) THEN (IF k > Len(t) THEN k ELSE Len(t) + 1) ELSE FirstIn(t, S, k + 64)
RECURSIVE LastIn(_, _, _)     \* last position <= k holding a byte of S, 0 if there is none
LastIn(t, S, k) == IF k = 0 \/ t[k] \in S THEN k ELSE LastIn(t, S, k - 1)
FindLastByte(t, b) == LastIn(t, {b}, Len(t))
LowerB(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [k \in DOMAIN s |-> LowerB(s[k])]
White == {9, 10, 11, 12, 13, 32}
IsSpace(c) == c \in White
IsDigit(c) == c \in 48..57
Positions(t, P(_)) == SelectSeq([j \in 1..Len(t) |-> j], P)         \* in ascending order
AsSeq(f) == SubSeq(f, 1, Len(f))                                   \* (the same sequence: TLC evaluates its elements once)
SplitOn(t, b) == LET at == <<0>> \o Positions(t, LAMBDA j : t[j] = b) \o <<Len(t) + 1>>
                 IN AsSeq([k \in 1..(Len(at) - 1) |-> SubSeq(t, at[k] + 1, at[k + 1] - 1)])
TrimL(t, S) == LET K == {j \in 1..Len(t) : t[j] \notin S} IN IF K = {} THEN <<>> ELSE SubSeq(t, MinOf(K), Len(t))
RECURSIVE LastNot(_, _, _)
LastNot(t, S, k) == IF k = 0 \/ t[k] \notin S THEN k ELSE LastNot(t, S, k - 1)
TrimR(t, S) == SubSeq(t, 1, LastNot(t, S, Len(t)))
Digits(t) == LET K == {j \in 1..Len(t) : ~IsDigit(t[j])} IN IF K = {} THEN t ELSE SubSeq(t, 1, MinOf(K) - 1)
RECURSIVE Num(_)      \* value of at most nine decimal digits
Num(d) == IF d = <<>> THEN 0 ELSE 10 * Num(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
RECURSIVE Dec(_)      \* decimal representation of a natural number
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecI(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Rng(s) == {s[k] : k \in DOMAIN s}
=============================================================================
