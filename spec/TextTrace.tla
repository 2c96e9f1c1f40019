----------------------------- MODULE TextTrace -----------------------------
(* The helpers are functions, so a history is explained event by event; the   *)
(* only state is the form that was parsed last (C14) and the parsed request.   *)
EXTENDS Text, TraceBase
VARIABLES form, parsed
tv == <<form, parsed>>
TInit == TBInit /\ form = <<>> /\ parsed = TRUE
NoLeak == E.delta = 0
EvHdr == E.e = "hdr" /\ HeaderOK(E.text, E.name, E.nil, E.val) /\ NoLeak /\ UNCHANGED tv
EvCookie == /\ E.e = "cookie" /\ NoLeak /\ UNCHANGED tv
            /\ IF E.none = 1 THEN E.nil = 1
               ELSE LET r == Cookie(CStr(E.text), E.name) IN E.nil = r.nil /\ E.val = r.v
EvUrl == /\ E.e = "urldec" /\ UNCHANGED tv
         /\ LET r == Decode(E.text) IN
            IF r.ok THEN /\ E.ret = Len(r.v) + 1 /\ E.ret2 = E.ret
                         /\ SubSeq(E.buf, 1, Len(r.v) + 1) = Append(r.v, 0)
                         /\ \A k \in (Len(r.v) + 2)..Len(E.buf) : E.buf[k] = 170
            ELSE E.ret <= 0 /\ E.ret2 <= 0
EvStr == E.e = "strnstr" /\ E.pos = StrNStr(E.hay, E.needle, E.len) /\ UNCHANGED tv
EvEnds == E.e = "endswith" /\ ((E.ret # 0) <=> EndsWith(E.s, E.suf)) /\ UNCHANGED tv
EvFile == /\ E.e = "finfo" /\ UNCHANGED tv
          /\ IF E.kind = 1 THEN E.rsize = 0 /\ E.rdate = 0 ELSE E.rsize = E.size /\ E.got = E.want /\ E.rdate = E.mtime
EvFnv == E.e = "fnv" /\ E.ret = 1 /\ E.term = 1 /\ E.out = Fnv(E.s) /\ UNCHANGED tv
EvForm == /\ E.e = "form" /\ E.ret = 0 /\ E.nil = 0 /\ E.bodynil = 0 /\ E.body = E.text
          /\ form' = Form(E.text) /\ UNCHANGED parsed
EvField == E.e = "fget" /\ FieldOK(form, E.k, E.nil, E.v) /\ UNCHANGED tv
EvFree == E.e \in {"ffree", "pfree"} /\ NoLeak /\ UNCHANGED tv
EvRange == /\ E.e = "range" /\ UNCHANGED tv
           /\ (~HasPrefix(E.text, BYTESEQ) \/ FindByte(E.text, 45, 1) = 0) => E.limit = 0 /\ E.offset = 0
           /\ (RangeSyntax(E.text) /\ Len(RangeFirst(E.text)) <= 18 /\ Len(RangeLast(E.text)) <= 18) =>
                RangeParsed(E.text, E.od, E.ld)
EvReq == /\ E.e = "preq" /\ UNCHANGED form /\ parsed' = (E.ret = 0)
         /\ IF WellFormed(E.text)
            THEN /\ E.ret = 0 /\ E.verb = Verb(E.text) /\ E.res = Resource(E.text) /\ E.verbterm = 1 /\ E.resterm = 1
                 /\ E.head = ReqHead(E.text)
            ELSE E.ret # 0
EvBody == /\ E.e = "pbody" /\ UNCHANGED tv
          /\ (E.clen > 0 \/ E.raw = <<>>) => E.ret = 0 /\ E.bodynil = 0 /\ E.body = ParsedBody(E.raw, E.clen)
EvLog == E.e = "log" /\ LogOK(E.lvl, E.msg, E.t0, E.t1, E.out, E.err) /\ UNCHANGED tv
(* concurrent callers: every line is complete and the lines are those logged *)
EvMLog == /\ E.e = "mlog" /\ UNCHANGED tv
          /\ LET all == SplitOn(E.out, 10)
                 Msg(l) == LET k == Find(l, Sym(0)) IN IF k = 0 THEN <<>> ELSE Drop(l, k + Len(Sym(0)))
                 got == [k \in 1..(Len(all) - 1) |-> Msg(all[k])]
                 Told(k, m) == \E s \in Rng(SplitOn(E.told[m], 124)) : s # <<>> /\ HasPrefix(all[k], s)
             IN /\ all[Len(all)] = <<>> /\ Len(got) = Len(E.msgs)
                /\ Rng(got) = {Take(m, 799) : m \in Rng(E.msgs)}
                (* the time on a line is one its caller was told *)
                /\ \A k \in DOMAIN got : \E m \in DOMAIN E.msgs : got[k] = Take(E.msgs[m], 799) /\ (E.told[m] = <<>> \/ Told(k, m))
TNext == /\ More /\ Advance
         /\ \/ EvHdr \/ EvCookie \/ EvUrl \/ EvStr \/ EvEnds \/ EvFile \/ EvFnv \/ EvForm \/ EvField \/ EvFree
            \/ EvRange \/ EvReq \/ EvBody \/ EvLog \/ EvMLog
=============================================================================
