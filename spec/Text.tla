-------------------------------- MODULE Text --------------------------------
(* What the text helpers of the library compute (utils.h, parse.h, logging.h). *)
EXTENDS Bytes, Lits, Bitwise, SequencesExt

(* ---- substring search bounded by len, suffix test ---- *)
CStr(t) == LET k == FindByte(t, 0, 1) IN IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
StrNStr(hay, needle, len) == IF needle = <<>> THEN 0 ELSE Find(Take(CStr(hay), len), CStr(needle)) - 1
EndsWith(s, suf) == HasSuffix(s, suf)

(* ---- FNV-1a, 64 bits as eight byte limbs, least significant first ----
   prime = 2^40 + 435; offset basis = 0xcbf29ce484222325 *)
FnvBasis == <<37, 35, 34, 132, 228, 156, 242, 203>>
FnvMul(h) ==
  LET p(k) == h[k] * 435 + (IF k > 5 THEN h[k - 5] ELSE 0)
      c1 == p(1) \div 256               c2 == (p(2) + c1) \div 256
      c3 == (p(3) + c2) \div 256        c4 == (p(4) + c3) \div 256
      c5 == (p(5) + c4) \div 256        c6 == (p(6) + c5) \div 256
      c7 == (p(7) + c6) \div 256
  IN <<p(1) % 256, (p(2) + c1) % 256, (p(3) + c2) % 256, (p(4) + c3) % 256,
       (p(5) + c4) % 256, (p(6) + c5) % 256, (p(7) + c6) % 256, (p(8) + c7) % 256>>
FnvOf(s) == FoldLeft(LAMBDA hash, byte : FnvMul([hash EXCEPT ![1] = @ ^^ byte]), FnvBasis, s)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex64(h) == TrimL(Flat([k \in 1..8 |-> <<HexDigit(h[9 - k] \div 16), HexDigit(h[9 - k] % 16)>>]), {48})
Fnv(s) == LET x == Hex64(FnvOf(s)) IN IF x = <<>> THEN <<48>> ELSE x

(* ---- percent-decoding ---- *)
(* every percent sign starts an escape (it is no hexadecimal digit), and all of them have to be complete *)
Escape(s, j)  == j + 2 <= Len(s) /\ HexVal(s[j + 1]) >= 0 /\ HexVal(s[j + 2]) >= 0
Inside(s, j)  == (j > 1 /\ s[j - 1] = 37) \/ (j > 2 /\ s[j - 2] = 37)
Decoded(s, j) == CASE s[j] = 37 -> 16 * HexVal(s[j + 1]) + HexVal(s[j + 2]) [] s[j] = 43 -> 32 [] OTHER -> s[j]
Decode(s) ==
  IF \E j \in DOMAIN s : s[j] = 37 /\ ~Escape(s, j) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET at == Positions(s, LAMBDA j : ~Inside(s, j)) IN [ok |-> TRUE, v |-> AsSeq([k \in DOMAIN at |-> Decoded(s, at[k])])]
(* one of the encodings of a byte string: escape exactly the bytes in Esc; spaces as plus signs or escaped *)
Encode(s, Esc, plus, lower) ==
  LET hd(n) == IF lower /\ n > 9 THEN 87 + n ELSE HexDigit(n)
      e(b)  == IF b = 32 /\ plus THEN <<43>> ELSE IF b \in Esc \cup {37, 43, 32, 0} THEN <<37, hd(b \div 16), hd(b % 16)>> ELSE <<b>>
  IN Flat([k \in DOMAIN s |-> e(s[k])])

(* ---- header lookup ----
   The text is a request line followed by header lines up to an empty line.
   st: "none", "val", or "open" when the only matching line is not terminated. *)
RECURSIVE HeaderFrom(_, _, _)
HeaderFrom(t, n, k) ==            \* k: start of a line
  LET e == FindFrom(t, CRLF, k)
      line == SubSeq(t, k, IF e = 0 THEN Len(t) ELSE e - 1)
      match == Len(line) > Len(n) /\ line[Len(n) + 1] = 58 /\ Lower(SubSeq(line, 1, Len(n))) = Lower(n)
      val == TrimL(SubSeq(line, Len(n) + 2, Len(line)), {32, 9})
  IN IF e = 0 THEN [st |-> IF match THEN "open" ELSE "none", v |-> val]
     ELSE IF line = <<>> THEN [st |-> "none", v |-> <<>>]
     ELSE IF match THEN [st |-> "val", v |-> val]
     ELSE HeaderFrom(t, n, e + 2)
Header(t, n) == LET e == Find(t, CRLF) IN IF e = 0 THEN [st |-> "none", v |-> <<>>] ELSE HeaderFrom(t, n, e + 2)
HasHeader(t, n) == Header(t, n).st = "val"
HeaderOK(t, n, nil, v) == LET r == Header(t, n) IN
  CASE r.st = "none" -> nil = 1
    [] r.st = "val"  -> nil = 0 /\ v = r.v
    [] r.st = "open" -> nil = 1 \/ v = r.v

(* ---- cookie lookup ---- *)
CookieName(c) == LET k == FindByte(c, 61, 1) IN IF k = 0 THEN <<>> ELSE SubSeq(c, 1, k - 1)
CookieMatches(t, n) == LET cs == SplitOn(t, 59) IN
  SelectSeq(AsSeq([k \in DOMAIN cs |-> TrimL(cs[k], {32, 9})]), LAMBDA c : FindByte(c, 61, 1) # 0 /\ CookieName(c) = n)
Cookie(t, n) == LET m == CookieMatches(t, n) IN
  IF m = <<>> THEN [nil |-> 1, v |-> <<>>]
  ELSE [nil |-> 0, v |-> TrimR(Drop(m[1], Len(n) + 1), {9, 10, 11, 12, 13, 32})]

(* ---- URL-encoded forms: a map from decoded names to decoded values ---- *)
FormPairs(b) == SelectSeq(SplitOn(b, 38), LAMBDA p : FindByte(p, 61, 1) # 0 /\ FindByte(p, 0, 1) = 0)   \* a NUL has to be encoded
FieldOf(p) == LET k == FindByte(p, 61, 1)  n == Decode(SubSeq(p, 1, k - 1))  v == Decode(Drop(p, k))
                IN [ok |-> n.ok /\ v.ok, n |-> n.v, v |-> v.v]
Form(b) == LET ps == FormPairs(b)
               fs == SelectSeq(AsSeq([k \in DOMAIN ps |-> FieldOf(ps[k])]), LAMBDA f : f.ok)
           IN [x \in {fs[k].n : k \in DOMAIN fs} |-> fs[MaxOf({k \in DOMAIN fs : fs[k].n = x})].v]        \* the last one counts
FieldOK(m, k, nil, v) == IF k \in DOMAIN m THEN nil = 0 /\ v = m[k] ELSE nil = 1

(* ---- request head ---- *)
HeadEnd(t) == LET k == Find(t, CRLF \o CRLF) IN IF k = 0 THEN 0 ELSE k + 3
ReqLine(t) == LET e == Find(t, CRLF) IN IF e = 0 THEN <<>> ELSE SubSeq(t, 1, e - 1)
Verb(t) == LET k == FindByte(t, 32, 1) IN SubSeq(t, 1, k - 1)
AfterVerb(t) == Drop(ReqLine(t), Len(Verb(t)) + 1)
Resource(t) == LET r == AfterVerb(t)  k == FindByte(r, 32, 1) IN SubSeq(r, 1, k - 1)
WellFormed(t) ==
  /\ HeadEnd(t) # 0
  /\ FindByte(SubSeq(t, 1, HeadEnd(t)), 0, 1) = 0          \* there is no place for a NUL in a head
  /\ LET l == ReqLine(t) IN
     /\ FindByte(l, 32, 1) # 0 /\ FindByte(l, 32, 1) <= 16
     /\ LET k == FindByte(AfterVerb(t), 32, 1) IN k # 0 /\ k <= 512
ReqHead(t) == SubSeq(t, 1, HeadEnd(t))
ContentLength(t) == LET r == Header(ReqHead(t), H_CLEN) IN
  IF r.st # "val" THEN 0 ELSE LET d == Digits(r.v) IN IF Len(d) > 8 THEN 99999999 ELSE Num(d)
ParsedBody(raw, clen) == Take(raw, clen)

(* ---- range values: the public parser ---- *)
RangeSyntax(v) ==
  /\ HasPrefix(v, BYTESEQ)
  /\ LET s == Drop(v, 6)  a == Digits(s)  b == Drop(s, Len(a) + 1)
     IN a # <<>> /\ Len(s) > Len(a) /\ s[Len(a) + 1] = 45 /\ Digits(b) = b
RangeFirst(v) == Digits(Drop(v, 6))
RangeLast(v)  == Drop(v, 6 + Len(RangeFirst(v)) + 1)
(* what the public parser says about such a value, as decimal digits: TLC's numbers are too small *)
NoZeros(d) == LET z == {k \in DOMAIN d : d[k] # 48} IN IF z = {} THEN <<48>> ELSE SubSeq(d, MinOf(z), Len(d))
LessDec(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j])
RangeParsed(v, off, lim) ==
  LET a == NoZeros(RangeFirst(v))  b == NoZeros(RangeLast(v))
  IN off = a /\ lim = IF LessDec(b, a) THEN <<48>> ELSE b

(* ---- log lines ---- *)
Sym(l) == CASE l = 0 -> SYM_INFO [] l = 1 -> SYM_DEBUG [] l = 2 -> SYM_WARN [] l = 3 -> SYM_ERR [] l = 4 -> SYM_FUN [] l = 5 -> SYM_DB
LogLine(time, l, msg) == time \o <<32>> \o Sym(l) \o <<32>> \o Take(msg, 799) \o <<10>>
LogOK(l, msg, t0, t1, out, err) ==
  LET got == IF l = 3 THEN err ELSE out  other == IF l = 3 THEN out ELSE err
  IN other = <<>> /\ (got = LogLine(t0, l, msg) \/ got = LogLine(t1, l, msg))
=============================================================================
