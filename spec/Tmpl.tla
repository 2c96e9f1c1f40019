-------------------------------- MODULE Tmpl --------------------------------
(* The template language.  A context is a scope [vals, filts]; an environment  *)
(* is a sequence of scopes, innermost first.  Values are texts, arrays or       *)
(* sub-contexts; D gives the arrays and contexts behind their numbers and the   *)
(* contents of the files that can be included: D = [ctx, arr, files].           *)
(*                                                                              *)
(* A template is read from its start.  Where a line starts (or a block has just  *)
(* ended) there may be a block: LOOP, UNLESS NOT or UNLESS, after any white       *)
(* space, up to the next end marker of its kind.  Otherwise the line is rendered: *)
(* variables first, then either the include it consists of, or its filters.       *)
EXTENDS Bytes, Lits, Files
(* Mask is added to every byte of a value while a line is rendered.  With 0 a  *)
(* value that looks like an include or a filter call is treated as one, as the  *)
(* code does (see known-findings); with 1000 values are plain text.             *)
CONSTANT Mask
Masked(v) == IF Mask = 0 \/ v = <<-1>> THEN v ELSE [k \in DOMAIN v |-> v[k] + Mask]
Unmasked(v) == IF Mask = 0 THEN v ELSE [k \in DOMAIN v |-> v[k] % 1000]

MaxStr == 512
MaxName == 31
Alpha == 65..90 \cup 97..122 \cup {95}
AlNum == Alpha \cup 48..57
AlDot == Alpha \cup {46}
PathCh == Alpha \cup {46, 47}
(* end of the run of characters of S that starts at k *)
RunEnd(t, k, S) == FirstOut(t, S, k) - 1
SkipWs(t, k) == FirstOut(t, White, k)
IsNl(c) == c = 10 \/ c = 13

(* ---- looking things up ---- *)
NoVal == [n |-> <<>>, ty |-> "none", v |-> <<>>, r |-> 0]
(* rendering a template that refers to something that does not exist aborts; here it leaves a -1 behind *)
Undef == <<-1>>
TextOf(x) == IF x.ty = "str" THEN x.v ELSE Undef
FirstNamed(vals, name) == LET K == {k \in DOMAIN vals : vals[k].n = name} IN IF K = {} THEN NoVal ELSE vals[MinOf(K)]
RECURSIVE Lookup(_, _)
Lookup(env, name) == IF env = <<>> THEN NoVal
                     ELSE LET x == FirstNamed(env[1].vals, name) IN IF x.ty # "none" THEN x ELSE Lookup(Tail(env), name)
RECURSIVE LookupFilter(_, _)
LookupFilter(env, name) == IF env = <<>> THEN -1
                           ELSE LET x == FirstNamed(env[1].filts, name) IN IF x.ty # "none" THEN x.r ELSE LookupFilter(Tail(env), name)
Member(D, x, m) == IF x.ty # "sub" THEN NoVal ELSE FirstNamed(D.ctx[x.r].vals, m)

(* ---- variables of a line ---- *)
NoRef == [ok |-> FALSE, name |-> <<>>, mem |-> <<>>, dot |-> FALSE, e |-> 0]
RefAt(t, k) ==      \* the variable reference at k, ending at e
  LET e1 == RunEnd(t, k + Len(T_VAR), AlNum)
      dot == e1 + 1 <= Len(t) /\ t[e1 + 1] = 46
      e2 == IF dot THEN RunEnd(t, e1 + 2, AlNum) ELSE e1
  IN IF ~IsAt(t, k, T_VAR) \/ e1 < k + Len(T_VAR) \/ (dot /\ e2 < e1 + 2) \/ ~IsAt(t, e2 + 1, T_END) THEN NoRef
     ELSE [ok |-> TRUE, name |-> SubSeq(t, k + Len(T_VAR), e1), dot |-> dot,
           mem |-> IF dot THEN SubSeq(t, e1 + 2, e2) ELSE <<>>, e |-> e2 + Len(T_END)]
RECURSIVE VarsFrom(_, _, _, _)
VarsFrom(D, env, t, k) ==
  LET p == FindFrom(t, T_VAR, k) IN
  IF p = 0 THEN SubSeq(t, k, Len(t))
  ELSE LET r == RefAt(t, p) IN
       IF ~r.ok THEN SubSeq(t, k, p) \o VarsFrom(D, env, t, p + 1)
       ELSE LET x == Lookup(env, r.name) IN
            SubSeq(t, k, p - 1) \o Masked(TextOf(IF r.dot THEN Member(D, x, r.mem) ELSE x)) \o VarsFrom(D, env, t, r.e + 1)
Vars(D, env, t) == VarsFrom(D, env, t, 1)

(* ---- filters of a line ---- *)
(* what the six filters of the test driver compute *)
FArg(c) == IF c.nil = 1 THEN NONE ELSE c.arg
FRes(c) == CASE c.kind = 0 -> AsSeq([k \in DOMAIN FArg(c) |-> IF FArg(c)[k] \in 97..122 THEN FArg(c)[k] - 32 ELSE FArg(c)[k]])
             [] c.kind = 1 -> <<122>>
             [] c.kind = 2 -> AsSeq([k \in DOMAIN FArg(c) |-> FArg(c)[Len(FArg(c)) + 1 - k]])
             [] c.kind = 3 -> <<91>> \o FArg(c) \o <<93>>
             [] c.kind = 4 -> <<>>
             [] OTHER -> FArg(c) \o FArg(c)
HasCleanup(kind) == kind # 1
(* the calls of a line, left to right: [s, e, name, nil, arg] *)
RECURSIVE CallsFrom(_, _)
CallsFrom(t, k) ==
  LET p == FindFrom(t, T_FILT, k) IN
  IF p = 0 THEN <<>>
  ELSE LET e == RunEnd(t, p + Len(T_FILT), AlNum)
           c == IF e < p + Len(T_FILT) THEN 0 ELSE FindFrom(t, T_FEND, e + 1)
       IN IF c = 0 \/ (c > e + 1 /\ ~IsSpace(t[e + 1])) THEN CallsFrom(t, p + 1)
          ELSE <<[s |-> p, e |-> c + Len(T_FEND) - 1, name |-> SubSeq(t, p + Len(T_FILT), e), nil |-> IF c = e + 1 THEN 1 ELSE 0,
                  arg |-> IF c = e + 1 THEN <<>> ELSE LET a == SkipWs(t, e + 1) IN Unmasked(SubSeq(t, IF a < c THEN a ELSE c, c - 1))]>>
               \o CallsFrom(t, c + Len(T_FEND))
Filters(env, t) ==
  LET cs == CallsFrom(t, 1)
      full == [k \in DOMAIN cs |-> [kind |-> LookupFilter(env, cs[k].name), nil |-> cs[k].nil, arg |-> cs[k].arg]]
      RECURSIVE Text(_, _)
      Text(k, from) == IF k > Len(cs) THEN SubSeq(t, from, Len(t))
                       ELSE SubSeq(t, from, cs[k].s - 1) \o Masked(FRes(full[k])) \o Text(k + 1, cs[k].e + 1)
  IN [o |-> IF cs = <<>> THEN t ELSE Text(1, 1),
      c |-> SelectSeq(full, LAMBDA x : x.nil = 0) \o SelectSeq(full, LAMBDA x : x.nil = 1)]

(* ---- blocks ---- *)
NoBlock == [ty |-> "none", a |-> <<>>, b |-> <<>>, s |-> 0, e |-> 0, next |-> 0]
Block(ty, a, b, t, body, marker) ==      \* the head ends before body; it is a block only if it has an end
  LET m == IF IsAt(t, body - Len(T_END), T_END) THEN FindFrom(t, marker, body) ELSE 0
  IN IF m = 0 \/ a = <<>> THEN NoBlock ELSE [ty |-> ty, a |-> a, b |-> b, s |-> body, e |-> m - 1, next |-> m + Len(marker)]
BlockAt(t, k) ==
  LET p == SkipWs(t, k) IN
  CASE IsAt(t, p, T_LOOP) ->
        LET e1 == RunEnd(t, p + Len(T_LOOP), Alpha)  e2 == IF e1 + 1 <= Len(t) /\ t[e1 + 1] = 32 THEN RunEnd(t, e1 + 2, Alpha) ELSE e1
        IN IF e2 < e1 + 2 THEN NoBlock
           ELSE Block("loop", SubSeq(t, p + Len(T_LOOP), e1), SubSeq(t, e1 + 2, e2), t, e2 + Len(T_END) + 1, T_BBL)
    [] IsAt(t, p, T_NOT) -> LET e == RunEnd(t, p + Len(T_NOT), AlDot)
                            IN Block("not", SubSeq(t, p + Len(T_NOT), e), <<>>, t, e + Len(T_END) + 1, T_ENDLESS)
    [] IsAt(t, p, T_UNLESS) -> LET e == RunEnd(t, p + Len(T_UNLESS), AlDot)
                               IN Block("unless", SubSeq(t, p + Len(T_UNLESS), e), <<>>, t, e + Len(T_END) + 1, T_ENDLESS)
    [] OTHER -> NoBlock
Falsey(D, x) == \/ x.ty = "str" /\ (x.v = <<>> \/ HasPrefix(x.v, FALSE_))
                \/ x.ty = "arr" /\ D.arr[x.r] = <<>>
(* a dotted name that is not itself defined asks for a member; the sense of the test is then the other way round *)
Shown(D, env, name, neg) ==
  LET x == Lookup(env, name)  d == FindByte(name, 46, 1) IN
  IF x.ty # "none" THEN Falsey(D, x) # neg
  ELSE IF d = 0 THEN ~neg
  ELSE LET y == Member(D, Lookup(env, SubSeq(name, 1, d - 1)), Drop(name, d)) IN
       y.ty # "none" /\ (Falsey(D, y) = neg)

(* ---- templates ---- *)
(* the rendering of a loop body, an UNLESS NOT body or an included file loses the end of its last line *)
Chomp(o, t) == IF t # <<>> /\ o # <<>> /\ IsNl(t[Len(t)]) /\ o[Len(o)] = t[Len(t)] THEN SubSeq(o, 1, Len(o) - 1) ELSE o
LineEndAt(t, k) == IF k >= Len(t) THEN k ELSE Min2(FirstIn(t, {10, 13}, k), Len(t))
Cat(x, y) == [o |-> x.o \o y.o, c |-> x.c \o y.c]
Nothing == [o |-> <<>>, c |-> <<>>]
IncludeOf(t) ==      \* the path, if the line consists of an include
  LET p == SkipWs(t, 1)  e == RunEnd(t, p + Len(T_INC), PathCh) IN
  IF IsAt(t, p, T_INC) /\ e >= p + Len(T_INC) /\ IsAt(t, e + 1, T_END) THEN SubSeq(t, p + Len(T_INC), e) ELSE <<>>
Bound(name, el) == [vals |-> <<[n |-> Take(name, MaxName), ty |-> el.ty, v |-> el.v, r |-> el.r]>>, filts |-> <<>>]
RECURSIVE RenderFrom(_, _, _, _), RenderLine(_, _, _), RenderLoop(_, _, _, _, _, _)
RenderFrom(D, env, t, k) ==
  IF k > Len(t) THEN Nothing
  ELSE LET b == BlockAt(t, k) IN
       IF b.ty = "none" THEN LET e == LineEndAt(t, k) IN Cat(RenderLine(D, env, SubSeq(t, k, e)), RenderFrom(D, env, t, e + 1))
       ELSE LET body == SubSeq(t, b.s, b.e)
                r == CASE b.ty = "loop" -> LET a == Lookup(env, b.b) IN
                                          IF a.ty # "arr" THEN [o |-> Undef, c |-> <<>>] ELSE RenderLoop(D, env, b.a, D.arr[a.r], body, 1)
                       [] b.ty = "not" -> IF Shown(D, env, b.a, TRUE)
                                          THEN LET x == RenderFrom(D, env, body, 1) IN [x EXCEPT !.o = Chomp(@, body)] ELSE Nothing
                       [] b.ty = "unless" -> IF Shown(D, env, b.a, FALSE) THEN RenderFrom(D, env, body, 1) ELSE Nothing
            IN Cat(r, RenderFrom(D, env, t, b.next))
RenderLine(D, env, l) ==
  LET v == Vars(D, env, l)  p == IncludeOf(v) IN
  IF -1 \in Rng(v) \/ (p # <<>> /\ p \notin DOMAIN D.files) THEN [o |-> Undef, c |-> <<>>]
  ELSE IF p # <<>> THEN LET x == RenderFrom(D, env, D.files[p], 1) IN [x EXCEPT !.o = Chomp(@, D.files[p])]
  ELSE LET x == Filters(env, v) IN [x EXCEPT !.o = Unmasked(@)]
RenderLoop(D, env, name, els, body, k) ==
  IF k > Len(els) THEN Nothing
  ELSE LET x == RenderFrom(D, <<Bound(name, els[k])>> \o env, body, 1)
       IN Cat([x EXCEPT !.o = Chomp(@, body)], RenderLoop(D, env, name, els, body, k + 1))
IsDefined(r) == -1 \notin Rng(r.o) /\ \A k \in DOMAIN r.c : r.c[k].kind # -1 /\ -1 \notin Rng(r.c[k].arg)
(* a template is a C string: it ends at its first zero byte *)
Render(D, id, t) == LET z == FindByte(t, 0, 1) IN RenderFrom(D, <<D.ctx[id]>>, IF z = 0 THEN t ELSE SubSeq(t, 1, z - 1), 1)

(* ---- building contexts ---- *)
Val(name, ty, v, r) == [n |-> Take(name, MaxName), ty |-> ty, v |-> Take(v, MaxStr), r |-> r]
NewCtx(D, id) == [D EXCEPT !.ctx = [x \in DOMAIN @ \cup {id} |-> IF x = id THEN [vals |-> <<>>, filts |-> <<>>] ELSE @[x]]]
AddVal(D, id, v) == [D EXCEPT !.ctx[id].vals = Append(@, v)]
AddFilter(D, id, name, kind) == [D EXCEPT !.ctx[id].filts = Append(@, Val(name, "filter", <<>>, kind))]
AddArr(D, id, name, a) == [AddVal(D, id, Val(name, "arr", <<>>, a)) EXCEPT !.arr = [x \in DOMAIN @ \cup {a} |-> IF x = a THEN <<>> ELSE @[x]]]
AddEl(D, a, ty, v, r) == [D EXCEPT !.arr[a] = Append(@, [ty |-> ty, v |-> Take(v, MaxStr), r |-> r])]
AddEls(D, a, v, n) == [D EXCEPT !.arr[a] = @ \o [k \in 1..n |-> [ty |-> "str", v |-> Take(v, MaxStr), r |-> 0]]]
(* everything that is released with a context *)
RECURSIVE Owned(_, _)
Owned(D, id) ==
  LET vs == D.ctx[id].vals
      direct == {vs[k].r : k \in {q \in DOMAIN vs : vs[q].ty = "sub"}}
      inarr == UNION {{D.arr[vs[k].r][j].r : j \in {q \in DOMAIN D.arr[vs[k].r] : D.arr[vs[k].r][q].ty = "sub"}} : k \in {q \in DOMAIN vs : vs[q].ty = "arr"}}
  IN {id} \cup UNION {Owned(D, x) : x \in direct \cup inarr}
=============================================================================
