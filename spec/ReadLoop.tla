------------------------------ MODULE ReadLoop ------------------------------
(* Design of the code that reads a request: the network delivers the bytes in  *)
(* pieces of any size, a read takes at most Buf of those that have arrived.    *)
(* A request is a head of H bytes and a body of B bytes; X further bytes may   *)
(* follow.  Checked: the request is handed on exactly when it is complete, with *)
(* exactly its bytes, and the server never waits for bytes that will not come.  *)
(* Mode = "short" is the design as found: it stopped at the first short read.   *)
EXTENDS Naturals
CONSTANTS Heads, Bodies, Extra, Buf, Max, Mode
VARIABLES H, B, X, sent, got, last, st, ended
vars == <<H, B, X, sent, got, last, st, ended>>
Init == /\ H \in Heads /\ B \in Bodies /\ X \in Extra /\ sent = 0 /\ got = 0 /\ last = 0 /\ st = "read" /\ ended = FALSE
Total == H + B + X
(* the client *)
Deliver == ~ended /\ sent < Total /\ \E k \in 1..(Total - sent) : sent' = sent + k /\ UNCHANGED <<H, B, X, got, last, st, ended>>
Leave == ~ended /\ ended' = TRUE /\ UNCHANGED <<H, B, X, sent, got, last, st>>
(* the server *)
HeadIn == got >= H
Whole == HeadIn /\ got >= H + B
Decide ==
  /\ st = "read"
  /\ IF Mode = "short"
     THEN IF got > 0 /\ last < Buf THEN st' = IF HeadIn THEN "serve" ELSE "drop" ELSE FALSE
     ELSE IF HeadIn /\ H + B > Max THEN st' = "drop"
          ELSE IF Whole THEN st' = "serve"
          ELSE IF got >= Max THEN st' = "drop" ELSE FALSE
  /\ UNCHANGED <<H, B, X, sent, got, last, ended>>
Read == /\ st = "read" /\ ~ENABLED Decide
        /\ \/ got < sent /\ \E k \in 1..Buf : k <= sent - got /\ got' = got + k /\ last' = k /\ UNCHANGED st
           \/ got = sent /\ ended /\ st' = "drop" /\ UNCHANGED <<got, last>>
        /\ UNCHANGED <<H, B, X, sent, ended>>
Next == Deliver \/ Leave \/ Decide \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Decide) /\ WF_vars(Read)
Fits == H + B <= Max
ServesOnlyWhole == st = "serve" => got >= H + B /\ Fits
DropsOnlyWithCause == st = "drop" => (~Fits \/ (ended /\ sent < H + B))
(* a complete request or a departure always leads to a decision *)
Decides == ((sent >= H + B) \/ ended) ~> (st # "read")
=============================================================================
