------------------------------- MODULE Regex -------------------------------
(* Regular expressions of routes as syntax trees, and what matching means.    *)
(* A node is a tuple: <<"lit", b>>, <<"any">>, <<"set", bytes, negated>>,      *)
(* <<"cat", nodes>>, <<"alt", nodes>>, <<"rep", node, min, max>> (max -1: no   *)
(* limit), <<"grp", n, node>>, <<"bol">>, <<"eol">>.                           *)
EXTENDS Bytes
NoCaps == [g \in 1..4 |-> <<-1, -1>>]
(* all ways to match node a at position k of t: pairs <<next position, captures>> *)
RECURSIVE Ways(_, _, _, _), CatWays(_, _, _, _, _), RepWays(_, _, _, _, _, _)
Ways(a, t, k, c) ==
  CASE a[1] = "lit" -> IF k <= Len(t) /\ t[k] = a[2] THEN {<<k + 1, c>>} ELSE {}
    [] a[1] = "any" -> IF k <= Len(t) THEN {<<k + 1, c>>} ELSE {}
    [] a[1] = "set" -> IF k <= Len(t) /\ ((t[k] \in Rng(a[2])) <=> (a[3] = 0)) THEN {<<k + 1, c>>} ELSE {}
    [] a[1] = "bol" -> IF k = 1 THEN {<<k, c>>} ELSE {}
    [] a[1] = "eol" -> IF k = Len(t) + 1 THEN {<<k, c>>} ELSE {}
    [] a[1] = "grp" -> {<<w[1], [w[2] EXCEPT ![a[2]] = <<k - 1, w[1] - 1>>]>> : w \in Ways(a[3], t, k, c)}
    [] a[1] = "alt" -> UNION {Ways(a[2][j], t, k, c) : j \in DOMAIN a[2]}
    [] a[1] = "cat" -> CatWays(a[2], 1, t, k, c)
    [] a[1] = "rep" -> RepWays(a, 0, t, k, c, {})
CatWays(as, j, t, k, c) == IF j > Len(as) THEN {<<k, c>>}
                           ELSE UNION {CatWays(as, j + 1, t, w[1], w[2]) : w \in Ways(as[j], t, k, c)}
RepWays(a, n, t, k, c, seen) ==
  (IF n >= a[3] THEN {<<k, c>>} ELSE {})
  \cup (IF a[4] >= 0 /\ n >= a[4] THEN {}
        ELSE UNION {RepWays(a, n + 1, t, w[1], w[2], seen) : w \in {x \in Ways(a[2], t, k, c) : x[1] > k}})
(* leftmost start at which the expression matches somewhere in t, 0 if none *)
Search(a, t) == LET S == {k \in 1..(Len(t) + 1) : Ways(a, t, k, NoCaps) # {}} IN IF S = {} THEN 0 ELSE MinOf(S)
Matches(a, t) == \E k \in 1..(Len(t) + 1) : Ways(a, t, k, NoCaps) # {}
(* m: the reported offsets, m[1] for the whole match, m[g+1] for group g, up to n groups:
   the leftmost longest match, and groups as in one of the ways to match it *)
CapturesOK(a, t, m, n) ==
  LET s == Search(a, t)
      W == Ways(a, t, s, NoCaps)
      e == MaxOf({w[1] : w \in W})
  IN /\ m[1] = <<s - 1, e - 1>>
     /\ \E w \in W : w[1] = e /\ \A g \in 1..n : m[g + 1] = w[2][g]
=============================================================================
