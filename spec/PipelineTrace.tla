--------------------------- MODULE PipelineTrace ---------------------------
(* Histories of the whole server, recorded on the simulated kernel.  Every     *)
(* event is a call of the server into the kernel (or the application), or      *)
(* something a client did.  cs follows each connection; taken is the queue of  *)
(* accepted connections, line the one of finished responses.                   *)
EXTENDS Http, TraceBase, FiniteSets
VARIABLES cs, taken, line, full, ret, back
vars == <<cs, taken, line, full, ret, back>>
Cfg == Ev[1]                                  \* the run: workers, port, not-found page, clients
CNF == Cfg.nf
Cs == 0..(Len(Cfg.conns) - 1)
Conf(c) == Cfg.conns[c + 1]
NoRet == [slot |-> -1, code |-> 404, mime |-> <<>>, out |-> BUILTIN404, outnil |-> 0]
Fresh == [st |-> "new", got |-> 0, off |-> FALSE, ran |-> <<>>, wire |-> <<>>, fail |-> FALSE, cleaned |-> 0,
          refused |-> FALSE, owed |-> {}, free |-> FALSE, own |-> FALSE]
TInit == TBInit /\ cs = [c \in Cs |-> Fresh] /\ taken = <<>> /\ line = <<>> /\ full = FALSE /\ ret = [c \in Cs |-> NoRet] /\ back = FALSE
Keep == UNCHANGED vars
Set(c, r) == cs' = [cs EXCEPT ![c] = r] /\ UNCHANGED <<taken, line, full, ret, back>>
(* ---- what a connection should get ---- *)
HasClean(s) == IF s = 9 THEN CNF >= 2 ELSE s \in {0, 2, 4, 5, 6, 7, 8}
NotFoundPage == CNF % 2 = 1
Req(c) == SubSeq(Conf(c).req, 1, cs[c].got)
Answerable(c) == Served(Req(c)) /\ ~TooBig(Req(c))
Final(c) == IF cs[c].ran = <<>> \/ (Len(cs[c].ran) = 1 /\ ~NotFoundPage /\ Declined(ret[c].code, ret[c].outnil, ret[c].out)) THEN NoRet ELSE ret[c]
MimeOf(c) == IF ret[c].mime = <<>> THEN TEXTHTML ELSE ret[c].mime
Tags(c) == [k \in DOMAIN cs[c].ran |-> HLine(H_XC, Dec(c))]
(* everything that is on the wire belongs to the one response, in order *)
Rg(c) == LET f == Final(c) IN RangeOf(Req(c), f.code, Len(f.out))
Wired(c) == WireBytes(Rg(c), Final(c).out)                 \* the body that is due: all of it, or the range that was asked for
CRange(c) == IF Rg(c).ok THEN ContentRange(Rg(c), Len(Final(c).out)) ELSE <<>>
WireStatus(c) == WireCode(Rg(c), Final(c).code)
Prefix(c) == LET w == cs[c].wire IN
             IF WireEnd(w) = 0 THEN HasPrefix(StatusLine(WireStatus(c)), w) \/ HasPrefix(w, StatusLine(WireStatus(c)))
             ELSE HeadOK(w, WireStatus(c), MimeOf(c), Len(Wired(c)), Tags(c), CRange(c)) /\ HasPrefix(Wired(c), WireBody(w))
Whole(c) == LET w == cs[c].wire IN
            WireEnd(w) # 0 /\ HeadOK(w, WireStatus(c), MimeOf(c), Len(Wired(c)), Tags(c), CRange(c)) /\ WireBody(w) = Wired(c)
(* complete by its own framing *)
Framed(w) == WireEnd(w) # 0 /\ LET cl == Header(w, H_CLEN) IN cl.st = "val" /\ Len(WireBody(w)) = Num(Digits(cl.v))

(* ---- clients ---- *)
Connected == E.e = "connect" /\ Set(E.c, [cs[E.c] EXCEPT !.st = "back"])
Delivered == E.e = "deliver" /\ Set(E.c, [cs[E.c] EXCEPT !.got = @ + E.n])
Left   == E.e = "leave" /\ Set(E.c, [cs[E.c] EXCEPT !.off = TRUE])
Aborted == E.e = "aborted" /\ Set(E.c, [cs[E.c] EXCEPT !.st = "gone"])
(* ---- connections ---- *)
Accepted == E.e = "accept" /\ Only("C03", cs[E.c].st = "back") /\ Set(E.c, [cs[E.c] EXCEPT !.st = "open"])
AcceptErr == E.e = "accepterr" /\ Keep
Received == E.e = "recv" /\ Only("C03", cs[E.c].st = "open") /\ Keep
Foreign == E.e = "foreign" /\ Only("C03", FALSE) /\ Keep
(* ---- the application ---- *)
SeenOK(c) == E.verb = Verb(Req(c)) /\ E.res = Resource(Req(c)) /\ E.head = ReqHead(Req(c)) /\ E.body = Body(Req(c))
Handled ==
  /\ E.e = "handler"
  /\ Only("C01", E.c \in Cs /\ E.on = E.c /\ cs[E.c].st = "open" /\ (cs[E.c].ran = <<>> \/ (Len(cs[E.c].ran) = 1 /\ E.slot = 9)))
  /\ Only("C02", E.c \in Cs)
  /\ Only("C01", E.c \in Cs => SeenOK(E.c))
  /\ Only("C01", (E.c \in Cs /\ E.slot = 8) => E.cap1 = <<112>> /\ E.cap2 = Dec(E.c))
  /\ Only("C08", E.c \in Cs => Served(Req(E.c)) /\ SeenOK(E.c))
  /\ IF E.c \in Cs THEN Set(E.c, [cs[E.c] EXCEPT !.ran = Append(@, E.slot)]) ELSE Keep
FormField == E.e = "fget" /\ Keep /\ Only("C01", E.c \in Cs => FieldOK(Form(Body(Req(E.c))), E.k, E.nil, E.v))
                               /\ Only("C14", E.c \in Cs => FieldOK(Form(Body(Req(E.c))), E.k, E.nil, E.v))
(* what the rendering handler has to come up with, for its own connection *)
RECURSIVE Elems(_, _, _)
Elems(c, j, n) == IF j = n THEN <<>> ELSE <<60>> \o Dec(c * 10 + j) \o <<62>> \o Elems(c, j + 1, n)
Page(c) == T7A \o Dec(c) \o T7B \o Dec(c) \o T7C \o Elems(c, 0, Conf(c).size % 7) \o T7D \o Dec(c) \o <<10>>
Return ==
  /\ E.e = "hret" /\ ret' = IF E.c \in Cs THEN [ret EXCEPT ![E.c] = E] ELSE ret
  /\ Only("C01", (E.slot \in {7, 8} /\ E.c \in Cs) => E.out = Page(E.c))
  /\ Only("C19", (E.slot \in {7, 8} /\ E.c \in Cs) => E.out = Page(E.c))
  /\ UNCHANGED <<cs, taken, line, full, back>>
CleanedUp ==
  /\ E.e = "cleanup"
  /\ Only("C02", /\ E.c \in Cs /\ E.same = 1
                 /\ LET x == cs[E.c] IN /\ x.st = "open" /\ x.ran # <<>> /\ x.cleaned = 0 /\ E.slot = Final(E.c).slot
                                        /\ (x.fail \/ Framed(x.wire))
                                        /\ E.code = WireStatus(E.c)
                                        /\ (Len(x.wire) >= 12 => SubSeq(x.wire, 10, 12) = Dec(E.code)))
  /\ IF E.c \in Cs THEN Set(E.c, [cs[E.c] EXCEPT !.cleaned = @ + 1]) ELSE Keep
(* ---- the queues ---- *)
Members(q) == {q[k] : k \in DOMAIN q}
Without(q, c) == LET K == {k \in DOMAIN q : q[k] = c} IN
                 IF K = {} THEN q ELSE LET m == MinOf(K) IN SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q))
(* the line has been full: whoever is being written to may go on *)
Freed == [c \in Cs |-> [cs[c] EXCEPT !.free = TRUE]]
Enqueued ==
  /\ E.e = "put" /\ taken' = IF E.q = 1 THEN taken ELSE Append(taken, E.c)
  /\ IF E.q = 1
     THEN /\ line' = Append(line, E.c) /\ full' = (E.n >= E.cap) /\ cs' = [c \in Cs |-> [cs[c] EXCEPT !.free = @ \/ full', !.own = @ /\ c # E.c]]
     ELSE UNCHANGED <<cs, line, full>>
  /\ UNCHANGED <<ret, back>>
Refused ==
  /\ E.e = "refused"
  /\ cs' = IF E.q = 1 /\ E.n >= E.cap THEN Freed
           ELSE IF E.c \notin Cs THEN cs
           ELSE IF E.q = 1 THEN [cs EXCEPT ![E.c].free = TRUE, ![E.c].own = TRUE] ELSE [cs EXCEPT ![E.c].refused = TRUE]
  /\ UNCHANGED <<taken, line, full, ret, back>>
(* nobody is overtaken, so nobody waits forever *)
InTurn(q, s) == (E.q = q /\ E.c \in Members(s)) => E.c = Head(s)
Taken ==
  /\ E.e = "take"
  /\ Only("C05", InTurn(1, line))
  /\ Only("C04", InTurn(0, taken))
  /\ taken' = IF E.q = 1 THEN taken ELSE Without(taken, E.c)
  /\ IF E.q = 1 THEN line' = Without(line, E.c) /\ full' = FALSE ELSE UNCHANGED <<line, full>>
  /\ UNCHANGED <<cs, ret, back>>
(* ---- writing ---- *)
Sent ==
  /\ E.e = "send"
  /\ LET c == E.c  x == cs[c] IN
     /\ Only("C05", E.len <= 4096 /\ (x.owed = {} \/ x.free))
     /\ Only("C03", x.st = "open")
     /\ Only("C02", x.cleaned = 0 /\ ~x.fail)
     /\ cs' = [d \in Cs |-> IF d = c THEN [x EXCEPT !.wire = @ \o E.b, !.fail = @ \/ E.ret <= 0, !.owed = Members(line) \ {c, -1}, !.free = full \/ x.own]
                            ELSE [cs[d] EXCEPT !.owed = @ \ {c}]]
  /\ UNCHANGED <<taken, line, full, ret, back>>
Closed ==
  /\ E.e = "close"
  /\ LET c == E.c  x == cs[c] IN
     /\ Only("C03", x.st = "open")
     /\ Only("C01", /\ (x.wire # <<>>) => (Answerable(c) /\ Prefix(c))
                    /\ (x.ran # <<>> /\ ~x.fail /\ ~x.off) => Whole(c)
                    /\ (Answerable(c) /\ ~x.off /\ ~x.fail /\ ~x.refused) => Whole(c))
     /\ Only("C02", (x.ran # <<>> /\ ~x.fail) => Framed(x.wire))
     /\ cs' = [d \in Cs |-> IF d = c THEN [x EXCEPT !.st = "closed"] ELSE [cs[d] EXCEPT !.owed = @ \ {c}]]
  /\ UNCHANGED <<taken, line, full, ret, back>>
(* ---- everything has come to rest ---- *)
Least(a, b) == IF a < b THEN a ELSE b
Held == {c \in Cs : Conf(c).hold = 1}
Quiet ==
  /\ E.e = "quiet" /\ Keep
  /\ (E.final = 1 /\ Cfg.fails = 0) =>
        /\ Only("C03", \A c \in Cs : cs[c].st # "open")
        /\ Only("C04", \A c \in Cs : cs[c].st \in {"closed", "gone"})
        /\ Only("C02", \A c \in Cs : LET x == cs[c] IN
                          cs[c].st = "closed" => (x.cleaned = IF x.ran # <<>> /\ Final(c).slot >= 0 /\ HasClean(Final(c).slot) THEN 1 ELSE 0))
  /\ Only("C07", IF Cfg.fails = 1 THEN E.returned = 1 /\ E.ports = <<>> /\ E.threads = 0
                 ELSE /\ E.returned = 0 /\ E.ports = <<Cfg.port>> /\ E.threads = Cfg.workers + 2
                      /\ E.inrecv = IF E.final = 1 THEN 0 ELSE Least(Cfg.workers, Cardinality(Held)))
(* every worker serves the configured application *)
  /\ Only("C07", (E.final = 1 /\ Cfg.fails = 0) => \A c \in Cs : (Conf(c).kind = "k" /\ Answerable(c)) => (cs[c].st = "closed" /\ Whole(c)))
Returned ==
  /\ E.e = "returned" /\ back' = TRUE /\ UNCHANGED <<cs, taken, line, full, ret>>
  /\ Only("C07", Cfg.fails = 1 /\ E.rc # 0)
  /\ Only("C04", Cfg.fails = 1)
Stale == E.e = "stale" /\ Only("C07", FALSE) /\ Keep
Other == E.e \in {"begin", "thread", "listen", "unlisten", "mqfail", "stats"} /\ Keep
TNext == /\ More /\ Advance
         /\ \/ Connected \/ Delivered \/ Left \/ Aborted \/ Accepted \/ AcceptErr \/ Received \/ Foreign \/ Handled \/ FormField \/ Return \/ CleanedUp
            \/ Enqueued \/ Refused \/ Taken \/ Sent \/ Closed \/ Quiet \/ Returned \/ Stale \/ Other
=============================================================================
