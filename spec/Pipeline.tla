------------------------------ MODULE Pipeline ------------------------------
(* Design of the server: clients, the acceptor, the workers, the responder and *)
(* the two bounded queues between them.  A connection is owned by exactly one  *)
(* of them at any time.  Mode = "blocking" is the design as found: a responder *)
(* that waits for room in its own queue; Mode = "dropnull" is as found, too: a  *)
(* connection without a response was forgotten by its worker.                  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, W, CapA, CapH, Slices, Faults, Mode
Conns == 1..N
Workers == 1..W
VARIABLES up, sent,                      \* clients: "new" "on" "off"; request complete
          backlog, acc, aq, wk, hq, rs,  \* who owns which connection
          open, closes, ran, cleaned,    \* connection: "no" "open" "closed"; close, handler and clean-up counts
          left, failed,                  \* slices that are still to be sent; a write failed
          owed, kept,                    \* turns: who waited at the last write; whether the line was full
          faults
vars == <<up, sent, backlog, acc, aq, wk, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
net == <<up, sent>>
Idle == [c |-> 0, ph |-> "idle"]
Init == /\ up = [c \in Conns |-> "new"] /\ sent = [c \in Conns |-> FALSE]
        /\ backlog = <<>> /\ acc = 0 /\ aq = <<>> /\ wk = [w \in Workers |-> Idle] /\ hq = <<>> /\ rs = Idle
        /\ open = [c \in Conns |-> "no"] /\ closes = [c \in Conns |-> 0] /\ ran = [c \in Conns |-> 0] /\ cleaned = [c \in Conns |-> 0]
        /\ left = [c \in Conns |-> 0] /\ failed = [c \in Conns |-> FALSE] /\ owed = [c \in Conns |-> {}] /\ kept = [c \in Conns |-> FALSE]
        /\ faults = Faults
Rng(s) == {s[k] : k \in DOMAIN s}
(* ---- clients ---- *)
Connect(c) == /\ up[c] = "new" /\ (c > 1 => up[c - 1] # "new")
              /\ up' = [up EXCEPT ![c] = "on"] /\ backlog' = Append(backlog, c)
              /\ UNCHANGED <<sent, acc, aq, wk, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
Request(c) == /\ up[c] = "on" /\ ~sent[c] /\ sent' = [sent EXCEPT ![c] = TRUE]
              /\ UNCHANGED <<up, backlog, acc, aq, wk, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
Leave(c) == /\ up[c] = "on" /\ up' = [up EXCEPT ![c] = "off"]
            /\ UNCHANGED <<sent, backlog, acc, aq, wk, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
(* ---- acceptor ---- *)
Accept == /\ acc = 0 /\ backlog # <<>> /\ acc' = Head(backlog) /\ backlog' = Tail(backlog)
          /\ open' = [open EXCEPT ![Head(backlog)] = "open"]
          /\ UNCHANGED <<net, aq, wk, hq, rs, closes, ran, cleaned, left, failed, owed, kept, faults>>
AccPut == /\ acc # 0 /\ Len(aq) < CapA /\ aq' = Append(aq, acc) /\ acc' = 0
          /\ UNCHANGED <<net, backlog, wk, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
AccRefused == /\ acc # 0 /\ faults > 0 /\ faults' = faults - 1 /\ acc' = 0
              /\ open' = [open EXCEPT ![acc] = "closed"] /\ closes' = [closes EXCEPT ![acc] = @ + 1]
              /\ UNCHANGED <<net, backlog, aq, wk, hq, rs, ran, cleaned, left, failed, owed, kept>>
(* ---- workers ---- *)
WkTake(w) == /\ wk[w].ph = "idle" /\ aq # <<>> /\ wk' = [wk EXCEPT ![w] = [c |-> Head(aq), ph |-> "read"]] /\ aq' = Tail(aq)
             /\ UNCHANGED <<net, backlog, acc, hq, rs, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
WkServe(w) == LET c == wk[w].c IN
              /\ wk[w].ph = "read" /\ sent[c] /\ ran' = [ran EXCEPT ![c] = @ + 1]
              /\ \E k \in Slices : left' = [left EXCEPT ![c] = k]
              /\ wk' = [wk EXCEPT ![w].ph = "ready"]
              /\ UNCHANGED <<net, backlog, acc, aq, hq, rs, open, closes, cleaned, failed, owed, kept, faults>>
WkDrop(w) == LET c == wk[w].c IN
             /\ wk[w].ph = "read" /\ ~sent[c] /\ up[c] = "off" /\ wk' = [wk EXCEPT ![w] = Idle]
             /\ IF Mode = "dropnull" THEN UNCHANGED <<open, closes>>
                ELSE open' = [open EXCEPT ![c] = "closed"] /\ closes' = [closes EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<net, backlog, acc, aq, hq, rs, ran, cleaned, left, failed, owed, kept, faults>>
FullAt(q) == Len(q) >= CapH
WkPut(w) == LET c == wk[w].c IN
            /\ wk[w].ph = "ready" /\ ~FullAt(hq) /\ hq' = Append(hq, c) /\ wk' = [wk EXCEPT ![w] = Idle]
            /\ kept' = [d \in Conns |-> kept[d] \/ FullAt(hq')]
            /\ UNCHANGED <<net, backlog, acc, aq, rs, open, closes, ran, cleaned, left, failed, owed, faults>>
WkRefused(w) == /\ wk[w].ph = "ready" /\ faults > 0 /\ faults' = faults - 1 /\ wk' = [wk EXCEPT ![w].ph = "own"]
                /\ kept' = [kept EXCEPT ![wk[w].c] = TRUE]
                /\ UNCHANGED <<net, backlog, acc, aq, hq, rs, open, closes, ran, cleaned, left, failed, owed>>
(* one write of c: it fails only when the client has left; the last one ends the connection *)
Write(c, ok, own) ==
  /\ ok \/ up[c] = "off"
  /\ LET fin == ~ok \/ left[c] = 1 IN
     /\ left' = IF ok THEN [left EXCEPT ![c] = @ - 1] ELSE left
     /\ failed' = [failed EXCEPT ![c] = ~ok]
     /\ open' = IF fin THEN [open EXCEPT ![c] = "closed"] ELSE open
     /\ closes' = IF fin THEN [closes EXCEPT ![c] = @ + 1] ELSE closes
     /\ cleaned' = IF fin THEN [cleaned EXCEPT ![c] = @ + 1] ELSE cleaned
     /\ owed' = [d \in Conns |-> IF d = c THEN Rng(hq) \ {c} ELSE owed[d] \ {c}]
     /\ kept' = [kept EXCEPT ![c] = own \/ FullAt(hq)]
Ends(c, ok) == ~ok \/ left[c] = 1
WkOwn(w) == /\ wk[w].ph = "own"
            /\ \E ok \in BOOLEAN : /\ Write(wk[w].c, ok, TRUE)
                                  /\ wk' = IF Ends(wk[w].c, ok) THEN [wk EXCEPT ![w] = Idle] ELSE wk
            /\ UNCHANGED <<net, backlog, acc, aq, hq, rs, ran, faults>>
(* ---- responder ---- *)
RsTake == /\ rs.ph = "idle" /\ hq # <<>> /\ rs' = [c |-> Head(hq), ph |-> "has"] /\ hq' = Tail(hq)
          /\ UNCHANGED <<net, backlog, acc, aq, wk, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
RsSend == /\ rs.ph = "has"
          /\ \E ok \in BOOLEAN : Write(rs.c, ok, FALSE) /\ rs' = IF Ends(rs.c, ok) THEN Idle ELSE [rs EXCEPT !.ph = "more"]
          /\ UNCHANGED <<net, backlog, acc, aq, wk, hq, ran, faults>>
RsRequeue == /\ rs.ph = "more" /\ ~FullAt(hq) /\ hq' = Append(hq, rs.c) /\ rs' = Idle
             /\ kept' = [d \in Conns |-> kept[d] \/ FullAt(hq')]
             /\ UNCHANGED <<net, backlog, acc, aq, wk, open, closes, ran, cleaned, left, failed, owed, faults>>
RsKeep == /\ Mode # "blocking" /\ rs.ph = "more" /\ FullAt(hq) /\ rs' = [rs EXCEPT !.ph = "has"]
          /\ UNCHANGED <<net, backlog, acc, aq, wk, hq, open, closes, ran, cleaned, left, failed, owed, kept, faults>>
Client == \E c \in Conns : Connect(c) \/ Request(c) \/ Leave(c)
Server == \/ Accept \/ AccPut \/ AccRefused \/ RsTake \/ RsSend \/ RsRequeue \/ RsKeep
          \/ \E w \in Workers : WkTake(w) \/ WkServe(w) \/ WkDrop(w) \/ WkPut(w) \/ WkRefused(w) \/ WkOwn(w)
Next == Client \/ Server
Fair == /\ \A c \in Conns : WF_vars(Connect(c)) /\ WF_vars(Request(c) \/ Leave(c))
        /\ WF_vars(Accept) /\ WF_vars(AccPut \/ AccRefused) /\ WF_vars(RsTake) /\ WF_vars(RsSend) /\ WF_vars(RsRequeue) /\ WF_vars(RsKeep)
        /\ \A w \in Workers : WF_vars(WkTake(w)) /\ WF_vars(WkServe(w)) /\ WF_vars(WkDrop(w)) /\ WF_vars(WkPut(w)) /\ WF_vars(WkOwn(w))
Spec == Init /\ [][Next]_vars /\ Fair
Safe == Init /\ [][Next]_vars
(* ---- properties ---- *)
Places(c) == (IF acc = c THEN 1 ELSE 0) + Cardinality({k \in DOMAIN aq : aq[k] = c}) + Cardinality({w \in Workers : wk[w].c = c})
             + Cardinality({k \in DOMAIN hq : hq[k] = c}) + (IF rs.c = c THEN 1 ELSE 0)
TypeOK == Len(aq) <= CapA /\ Len(hq) <= CapH
OneOwner == \A c \in Conns : Places(c) = IF open[c] = "open" THEN 1 ELSE 0                 \* C01, C03
ClosedOnce == \A c \in Conns : closes[c] = IF open[c] = "closed" THEN 1 ELSE 0             \* C03
CleanOnce == \A c \in Conns : /\ ran[c] <= 1 /\ cleaned[c] <= ran[c]                       \* C02
                              /\ (open[c] = "closed" => cleaned[c] = ran[c])
                              /\ (cleaned[c] = 1 => failed[c] \/ left[c] = 0)
WholeResponse == \A c \in Conns : (open[c] = "closed" /\ ran[c] = 1 /\ ~failed[c]) => left[c] = 0   \* C01
Turns == [][\A c \in Conns : (left'[c] # left[c] /\ ran[c] = 1) => (owed[c] = {} \/ kept[c])]_vars   \* C05
Finishes == \A c \in Conns : (up[c] # "new") ~> (open[c] = "closed")                       \* C03, C04
=============================================================================
