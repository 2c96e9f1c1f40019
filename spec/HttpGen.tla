------------------------------ MODULE HttpGen ------------------------------
(* Scenarios enumerated by TLC and replayed on the code, together with checks  *)
(* that the operators of Http.tla mean what the properties say.                *)
EXTENDS Http, TLC, Json
CONSTANTS Kind, MaxN
VARIABLES s, n
Emit == PrintT("GEN " \o ToJson(s))

(* ---- range values: every text of at most MaxN tokens ---- *)
RangeToks == << <<48>>, <<51>>, <<57>>, <<45>>, <<44>>, <<32>>, BYTESEQ >>     \* 0 3 9 - , SP bytes=
(* first and last, wherever "bytes=first-last" can be read into v; last is -1 when it is left out *)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
RECURSIVE SumTo(_, _)
SumTo(d, k) == IF k = 0 THEN 0 ELSE (d[k] - 48) * Pow10(Len(d) - k) + SumTo(d, k - 1)
Readings(v) == {<<SumTo(SubSeq(v, 7, p - 1), p - 7), IF p = Len(v) THEN -1 ELSE SumTo(SubSeq(v, p + 1, Len(v)), Len(v) - p)>> :
                  p \in {q \in 8..Len(v) : v[q] = 45 /\ \A k \in (7..Len(v)) \ {q} : IsDigit(v[k])}}
RangeMeaning ==
  Kind = "range" => \A total \in {0, 1, 5, 40} :
    LET r == Wanted(s, total)
        fits == {x \in (IF HasPrefix(s, BYTESEQ) THEN Readings(s) ELSE {}) : x[1] < total /\ (x[2] = -1 \/ x[2] >= x[1])}
    IN /\ r.ok => (0 <= r.a /\ r.a <= r.b /\ r.b < total)
       /\ r.ok <=> (fits # {})
       /\ r.ok => fits = {<<r.a, IF RangeLast(s) = <<>> THEN -1 ELSE SumTo(RangeLast(s), Len(RangeLast(s)))>>}
                  /\ (RangeLast(s) = <<>> => r.b = total - 1)
                  /\ (RangeLast(s) # <<>> => r.b = Min2(SumTo(RangeLast(s), Len(RangeLast(s))), total - 1))

(* ---- reading: every way to cut a request, and every way it can end ---- *)
(* s: <<total, cut1, cut2, sent, end>>; the client sends `sent' of `total' bytes *)
CutInit == \E total \in {MaxN}, a, b \in 1..MaxN, sent \in 0..MaxN, e \in {"open", "eof", "err"} :
              a <= b /\ b <= total /\ s = <<total, a, b, sent, e>>

(* ---- sending: every sequence of at most MaxN write results ---- *)
CapToks == <<"1", "7", "4095", "4096", "e", "r", "0">>

(* ---- routing ---- *)
GET == <<71, 69, 84>>  POST == <<80, 79, 83, 84>>
L(c) == <<"lit", c>>
Asts == << <<"cat", <<<<"bol">>, L(47), <<"eol">>>>>>,                                             \* ^/$
           <<"cat", <<<<"bol">>, L(47), L(97)>>>>,                                                  \* ^/a
           L(97),                                                                                    \* a
           <<"cat", <<<<"bol">>, L(47), <<"grp", 1, <<"rep", <<"set", <<97, 98>>, 0>>, 1, -1>>>>, <<"eol">>>>>>,   \* ^/([ab]+)$
           <<"cat", <<L(97), <<"grp", 1, <<"rep", L(98), 0, -1>>>>, <<"grp", 2, <<"alt", <<L(97), L(98)>>>>>>>>>>,   \* a(b*)(a|b)
           <<"rep", <<"any">>, 0, -1>> >>                                                            \* .*
Pool == [ast : DOMAIN Asts, verb : {GET, POST}]
Resources == << <<47>>, <<47, 97>>, <<47, 98, 97>>, <<47, 97, 98, 98>>, <<97>>, <<47, 99>> >>
RouteInit == /\ \E rs \in UNION {[1..k -> Pool] : k \in 0..MaxN}, f \in {"", "h", "c", "hc", "ch"}, r \in {"ok", "decline", "empty", "own"} :
                  s = [routes |-> [k \in DOMAIN rs |-> [ast |-> Asts[rs[k].ast], verb |-> rs[k].verb]], nf |-> f, how |-> r, res |-> Resources]
(* a route is chosen exactly when it matches and no earlier one does *)
RouteMeaning ==
  Kind = "route" => \A k \in DOMAIN Resources, v \in {GET, POST} :
    LET c == RouteFor(s.routes, v, Resources[k])
        ok(j) == s.routes[j].verb = v /\ Search(s.routes[j].ast, Resources[k]) # 0
    IN /\ c = 0 => \A j \in DOMAIN s.routes : ~ok(j)
       /\ c # 0 => ok(c) /\ \A j \in 1..(c - 1) : ~ok(j)
       /\ c # 0 => LET a == s.routes[c].ast  t == Resources[k]  b == Search(a, t) IN
                     \A w \in Ways(a, t, b, NoCaps) : \A g \in 1..2 : w[2][g] = <<-1, -1>> \/ (b - 1 <= w[2][g][1] /\ w[2][g][2] <= w[1] - 1)

GInit == /\ n = 0
         /\ CASE Kind = "cut" -> CutInit [] Kind = "route" -> RouteInit [] OTHER -> s = <<>>
GNext == /\ n < MaxN /\ n' = n + 1
         /\ \/ Kind = "range" /\ \E k \in DOMAIN RangeToks : s' = s \o RangeToks[k]
            \/ Kind = "caps" /\ \E k \in DOMAIN CapToks : s' = Append(s, CapToks[k])
=============================================================================
