------------------------------ MODULE TmplGen -------------------------------
(* Every template made of at most MaxToks tokens, rendered with a fixed         *)
(* context.  TLC checks on each of them what the language means, stated without  *)
(* the rendering algorithm, and prints it for replay on the real engine.          *)
EXTENDS Tmpl, TLC, Json
CONSTANTS Kind, Toks, MaxToks
VARIABLE toks
NL == <<10>>
SP == <<32>>
A == <<97>>
Z == <<90>>                       \* the contents of the file inc
S(n, v) == Val(n, "str", v, 0)
Empty == [x \in {} |-> 0]
(* ctx 0: x = "V", xy = "W", f = "FALSE", l = [1, 2], m = [{k: K}, {k: L}], s = {a: "Q"}; filters up, k *)
D0 == [ctx |-> (0 :> [vals |-> <<S(<<120>>, <<86>>), S(<<120, 121>>, <<87>>), S(<<102>>, FALSE_), Val(<<108>>, "arr", <<>>, 0),
                                 Val(<<109>>, "arr", <<>>, 1), Val(<<115>>, "sub", <<>>, 1)>>,
                      filts |-> <<Val(<<117, 112>>, "filter", <<>>, 0), Val(<<107>>, "filter", <<>>, 1)>>])
               @@ (1 :> [vals |-> <<S(<<97>>, <<81>>)>>, filts |-> <<>>])
               @@ (2 :> [vals |-> <<S(<<107>>, <<75>>)>>, filts |-> <<>>])
               @@ (3 :> [vals |-> <<S(<<107>>, <<76>>)>>, filts |-> <<>>]),
       arr |-> (0 :> <<[ty |-> "str", v |-> <<49>>, r |-> 0], [ty |-> "str", v |-> <<50>>, r |-> 0]>>)
               @@ (1 :> <<[ty |-> "sub", v |-> <<>>, r |-> 2], [ty |-> "sub", v |-> <<>>, r |-> 3]>>),
       files |-> (<<105, 110, 99>> :> Z \o NL)]
VarToks == <<A, NL, GX, GXY, GSA, GMARK, GPART>>
LoopToks == <<A, NL, GI, GX, GLOOPL, T_BBL, SP>>
SubLoopToks == <<A, NL, GIK, GLOOPM, T_BBL, GLOOPL>>
UnlessToks == <<A, NL, GUX, GNX, GUF, GNF, T_ENDLESS>>
MemberToks == <<A, NL, GUSA, GNSA, T_ENDLESS, GSA>>
FiltToks == <<A, NL, GX, GUP, GK, GARG, T_FEND>>
NestToks == <<GLOOPL, T_BBL, GI, GUX, GNX, T_ENDLESS, NL, GINC>>
GInit == toks = <<>>
GNext == Len(toks) < MaxToks /\ \E k \in DOMAIN Toks : toks' = Append(toks, k)
T(ks) == Flat([k \in DOMAIN ks |-> Toks[ks[k]]])
text == T(toks)
R(t) == Render(D0, 0, t)
Emit == IsDefined(R(text)) => PrintT("GEN " \o ToJson(text))
(* value of a token outside blocks *)
Value(k) == LET t == Toks[k] IN CASE t = GX -> <<86>> [] t = GXY -> <<87>> [] t = GSA -> <<81>> [] OTHER -> t
ValueIn(k, v) == IF Toks[k] \in {GI, GIK} THEN v ELSE Value(k)
Values(ks, v) == Flat([k \in DOMAIN ks |-> ValueIn(ks[k], v)])
Is(k, t) == Toks[k] = t
Plain == {k \in DOMAIN Toks : Toks[k] \in {A, NL, SP, GX, GXY, GSA}}
PlainIn == Plain \cup {k \in DOMAIN Toks : Toks[k] \in {GI, GIK}}
(* text without references, blocks, includes and filter calls renders to itself; references to their values *)
TextMeaning == (\A k \in DOMAIN toks : toks[k] \in Plain) => R(text) = [o |-> Values(toks, <<>>), c |-> <<>>]
(* what is before a line end outside blocks does not influence what comes after it *)
LineMeaning ==
  \A p \in DOMAIN toks : (toks[p] \in Plain /\ Is(toks[p], NL) /\ \A q \in 1..p : toks[q] \in Plain) =>
      (IsDefined(R(text)) => R(text).o = Values(SubSeq(toks, 1, p), <<>>) \o R(T(SubSeq(toks, p + 1, Len(toks)))).o
       \/ \E q \in (p + 1)..Len(toks) : toks[q] \notin Plain /\ \A j \in (p + 1)..(q - 1) : Toks[toks[j]] \in {NL, SP})
(* head, plain body, end marker, rest *)
BlockEnd(m) == LET K == {k \in DOMAIN toks : Is(toks[k], m)} IN IF K = {} THEN 0 ELSE MinOf(K)
Body == SubSeq(toks, 2, BlockEnd(IF Kind \in {"loop", "subloop"} THEN T_BBL ELSE T_ENDLESS) - 1)
Rest(m) == SubSeq(toks, BlockEnd(m) + 1, Len(toks))
LoopMeaning ==
  (Kind \in {"loop", "subloop"} /\ toks # <<>> /\ Toks[toks[1]] \in {GLOOPL, GLOOPM} /\ BlockEnd(T_BBL) # 0
     /\ \A k \in DOMAIN Body : Body[k] \in PlainIn /\ ((Is(toks[1], GLOOPL)) => ~Is(Body[k], GIK))) =>
  LET one(v) == Chomp(Values(Body, v), T(Body))
      vs == IF Is(toks[1], GLOOPL) THEN <<<<49>>, <<50>>>> ELSE <<<<75>>, <<76>>>>
      rest == R(T(Rest(T_BBL)))
  IN IsDefined(rest) => R(text).o = one(vs[1]) \o one(vs[2]) \o rest.o
Conds == {GUX, GNX, GUF, GNF, GUSA, GNSA}
ShownHead(t) == t \in {GNX, GUF, GUSA}
UnlessMeaning ==
  (Kind \in {"unless", "member"} /\ toks # <<>> /\ Toks[toks[1]] \in Conds /\ BlockEnd(T_ENDLESS) # 0 /\ \A k \in DOMAIN Body : Body[k] \in Plain) =>
  LET h == Toks[toks[1]]  rest == R(T(Rest(T_ENDLESS)))
      shown == IF ShownHead(h) THEN (IF h \in {GNX, GNF, GNSA} THEN Chomp(Values(Body, <<>>), T(Body)) ELSE Values(Body, <<>>)) ELSE <<>>
  IN IsDefined(rest) => R(text).o = shown \o rest.o
(* filter calls: disjoint, each closed by the first closing mark, none left over *)
FiltMeaning ==
  Kind = "filt" =>
    LET l == text  cs == CallsFrom(l, 1) IN
    /\ \A k \in DOMAIN cs : /\ IsAt(l, cs[k].s, T_FILT \o cs[k].name) /\ IsAt(l, cs[k].e - 3, T_FEND)
                            /\ \A q \in (cs[k].s + 4)..(cs[k].e - 4) : ~IsAt(l, q, T_FEND)
                            /\ (cs[k].nil = 0 => IsAt(l, cs[k].e - 3 - Len(cs[k].arg), cs[k].arg))
                            /\ (k > 1 => cs[k - 1].e < cs[k].s)
    /\ \A k \in 0..Len(cs) : LET a == IF k = 0 THEN 1 ELSE cs[k].e + 1  b == IF k = Len(cs) THEN Len(l) ELSE cs[k + 1].s - 1
                             IN CallsFrom(SubSeq(l, a, b), 1) = <<>>
(* rendering twice, or as part of a longer text on later lines, changes nothing *)
Meaning == TextMeaning /\ LineMeaning /\ LoopMeaning /\ UnlessMeaning /\ FiltMeaning
=============================================================================
