------------------------------ MODULE TextGen ------------------------------
(* Every text made of at most MaxToks tokens.  TLC checks, on each of them,    *)
(* that the operators of Text.tla mean what the properties say (declarative     *)
(* characterisations below), and prints the text for replay on the real code.   *)
EXTENDS Text, TLC, Json
CONSTANTS Kind, Toks, MaxToks
VARIABLES text, n
(* heads start with a good request line, and go on with every small text *)
GoodLine == <<71, 32, 47, 32, 72, 13, 10>>                                              \* G SP / SP H CRLF
GInit == text = (IF Kind = "head" THEN GoodLine ELSE <<>>) /\ n = 0
GNext == n < MaxToks /\ n' = n + 1 /\ \E k \in DOMAIN Toks : text' = text \o Toks[k]
Emit == PrintT("GEN " \o ToJson(text))

(* -- token sets (bytes) -- *)
HdrToks == << <<65>>, <<97, 98>>, <<58>>, <<32>>, <<13, 10>>, <<120>> >>          \* A ab : SP CRLF x
CookieToks == << <<97>>, <<98>>, <<61>>, <<59>>, <<32>> >>                          \* a b = ; SP
UrlToks == << <<37>>, <<43>>, <<52>>, <<65>>, <<97>>, <<71>> >>                      \* % + 4 A a G
FormToks == << <<97>>, <<98>>, <<61>>, <<38>>, <<37, 54, 49>>, <<37>>, <<43>> >>      \* a b = & %61 % +
StrToks == << <<97>>, <<98>>, <<97, 98>> >>
ReqToks == << <<71>>, <<32>>, <<47>>, <<13, 10>>, <<13>> >>                           \* G SP / CRLF CR
HeadToks == << <<13>>, <<10>>, <<120>>, <<0>> >>                                       \* CR LF x NUL

(* -- lines of a text: terminated ones only -- *)
LineStarts(t) == {1} \cup {j + 2 : j \in {k \in 1..(Len(t) - 1) : t[k] = 13 /\ t[k + 1] = 10}}
LineEnd(t, s) == LET S == {k \in s..(Len(t) - 1) : t[k] = 13 /\ t[k + 1] = 10} IN IF S = {} THEN 0 ELSE MinOf(S)
Name == IF Kind = "cookie" THEN <<97>> ELSE <<97>>
(* a value v is the right answer iff it is what follows the colon on a terminated, non-first line
   called Name, with no empty line before and no earlier such line *)
HeaderMeaning ==
  Kind = "hdr" =>
    LET cand == {s \in LineStarts(text) \ {1} : LineEnd(text, s) # 0 /\ IsAt(Lower(text), s, Append(Lower(Name), 58))
                   /\ LineEnd(text, s) >= s + Len(Name) + 1
                   /\ \A q \in LineStarts(text) \ {1} : q < s => LineEnd(text, q) # q}
        r == Header(text, Name)
    IN /\ (r.st = "val") <=> (cand # {})
       /\ r.st = "val" => LET s == MinOf(cand) IN
            \E w \in 0..Len(text) : /\ \A k \in 1..w : text[s + Len(Name) + k] \in {32, 9}
                                   /\ r.v = SubSeq(text, s + Len(Name) + 1 + w, LineEnd(text, s) - 1)
                                   /\ (r.v # <<>> => r.v[1] \notin {32, 9})
CookieMeaning ==
  Kind = "cookie" =>
    LET begins == {s \in 1..Len(text) : IsAt(text, s, Name \o <<61>>)
                     /\ \A k \in 1..(s - 1) : (\A q \in k..(s - 1) : text[q] # 59) => text[k] = 32}
        r == Cookie(text, Name)
    IN /\ (r.nil = 0) <=> (begins # {})
       /\ r.nil = 0 => LET s == MinOf(begins) + Len(Name) + 1 IN
            /\ IsAt(text, s, r.v) /\ 59 \notin Rng(r.v)
            /\ \A k \in (s + Len(r.v))..Len(text) : (\A q \in (s + Len(r.v))..k : text[q] # 59) => text[k] = 32
            /\ (r.v # <<>> => r.v[Len(r.v)] # 32)
(* every encoding of the text decodes to it; a failing decode has a broken escape *)
UrlMeaning ==
  Kind = "url" =>
    /\ \A Esc \in {{}, {65}, 0..255} : \A plus, lower \in BOOLEAN : Decode(Encode(text, Esc, plus, lower)) = [ok |-> TRUE, v |-> text]
    /\ (~Decode(text).ok) <=> \E k \in 1..Len(text) :
           /\ text[k] = 37 /\ (k + 2 > Len(text) \/ HexVal(text[k + 1]) < 0 \/ HexVal(text[k + 2]) < 0)
           /\ Decode(SubSeq(text, 1, k - 1)).ok
FormMeaning ==
  Kind = "form" =>
    LET m == Form(text)  ps == SplitOn(text, 38)
        Good(k) == LET e == FindByte(ps[k], 61, 1) IN e # 0 /\ Decode(SubSeq(ps[k], 1, e - 1)).ok /\ Decode(Drop(ps[k], e)).ok
        NameOf(k) == Decode(SubSeq(ps[k], 1, FindByte(ps[k], 61, 1) - 1)).v
    IN /\ DOMAIN m = {NameOf(k) : k \in {q \in DOMAIN ps : Good(q)}}
       /\ \A x \in DOMAIN m : LET last == MaxOf({q \in DOMAIN ps : Good(q) /\ NameOf(q) = x})
                              IN m[x] = Decode(Drop(ps[last], FindByte(ps[last], 61, 1))).v
(* the head is well formed exactly when its first line has the shape verb SP resource SP rest and an empty line follows *)
ReqMeaning ==
  Kind = "req" =>
    /\ WellFormed(text) => LET v == Verb(text)  q == Resource(text) IN
          /\ HasPrefix(text, v \o <<32>> \o q \o <<32>>) /\ 32 \notin Rng(v) /\ 32 \notin Rng(q)
          /\ HasSuffix(ReqHead(text), CRLF \o CRLF) /\ HasPrefix(text, ReqHead(text))
          /\ ~(\E k \in 1..Len(v \o <<32>> \o q) : IsAt(text, k, CRLF) /\ k < Len(v) + Len(q) + 2)
    /\ (\E j, k \in 1..Len(text) : j < k /\ text[j] = 32 /\ text[k] = 32 /\ HeadEnd(text) # 0
           /\ \A e \in 1..(Len(text) - 1) : IsAt(text, e, CRLF) => k < e) => WellFormed(text)
(* ... and it is well formed exactly when an empty line follows, with no NUL before it *)
HeadMeaning ==
  Kind = "head" =>
    LET ends == {k \in 6..(Len(text) - 3) : SubSeq(text, k, k + 3) = CRLF \o CRLF}
    IN /\ WellFormed(text) <=> (ends # {} /\ \A j \in 1..(MinOf(ends) + 3) : text[j] # 0)
       /\ WellFormed(text) => ReqHead(text) = SubSeq(text, 1, MinOf(ends) + 3)
StrMeaning ==
  Kind = "str" => \A needle \in {<<>>, <<97>>, <<98>>, <<97, 98>>, <<98, 97, 97>>}, len \in 0..(Len(text) + 1) :
    LET p == StrNStr(text, needle, len) IN
    IF p = -1 THEN \A k \in 1..Len(text) : k + Len(needle) - 1 <= len => ~IsAt(text, k, needle)
    ELSE (needle = <<>> /\ p = 0) \/ (IsAt(text, p + 1, needle) /\ p + Len(needle) <= len /\ \A k \in 1..p : ~IsAt(text, k, needle))
=============================================================================
