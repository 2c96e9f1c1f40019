----------------------------- MODULE HttpTrace -----------------------------
(* Traces of exchanges recorded from m38_generate_response/m38_send_response   *)
(* on a scripted connection.  st follows one exchange:                         *)
(*   idle -> rx -> app (route handler) -> ret -> nf (not-found handler) -> ret *)
(*        -> tx -> fin;  or rx -> none (no response)                           *)
EXTENDS Http, TraceBase
VARIABLES routes, nf, resp, files,         \* configuration, as given to the server
          st, req, got, end,               \* the connection: phase, request, bytes received, how it ends
          used,                            \* slots of the handlers that ran, in order
          res,                             \* the handler result that is to be sent
          hdrs,                            \* custom headers inserted so far
          wire, fail,                      \* bytes accepted by the network; whether a write failed
          cleaned, closed
cfg == <<routes, nf, resp, files>>
xv  == <<st, req, got, end, used, res, hdrs, wire, fail, cleaned, closed>>
NoRes == [slot |-> -1, clean |-> 0, code |-> 404, mime |-> <<>>, out |-> BUILTIN404, outnil |-> 0]
Empty == [x \in {} |-> 0]
TInit == /\ TBInit /\ routes = <<>> /\ nf = [h |-> 0, clean |-> 0, slot |-> 12] /\ resp = Empty /\ files = Empty
         /\ st = "idle" /\ req = <<>> /\ got = 0 /\ end = "eof" /\ used = <<>> /\ res = NoRes /\ hdrs = <<>>
         /\ wire = <<>> /\ fail = FALSE /\ cleaned = 0 /\ closed = 0

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* ---- configuration ---- *)
EvResp == E.e = "resp" /\ resp' = Ext(resp, E.slot, E) /\ UNCHANGED <<routes, nf, files, xv>>
EvRoute == E.e = "route" /\ routes' = Append(routes, E) /\ UNCHANGED <<nf, resp, files, xv>>
EvNf == E.e = "notfound" /\ nf' = E /\ UNCHANGED <<routes, resp, files, xv>>
EvFile == E.e = "file" /\ files' = Ext(files, E.path, E.b) /\ UNCHANGED <<routes, nf, resp, xv>>
EvRm == E.e = "rm" /\ files' = [x \in DOMAIN files \ {E.path} |-> files[x]] /\ UNCHANGED <<routes, nf, resp, xv>>

(* ---- the exchange ---- *)
Begin == /\ E.e = "xbegin" /\ st \in {"idle", "fin"} /\ st' = "rx" /\ req' = E.req /\ got' = 0 /\ end' = E.end
         /\ used' = <<>> /\ res' = NoRes /\ hdrs' = <<>> /\ wire' = <<>> /\ fail' = FALSE /\ cleaned' = 0 /\ closed' = 0 /\ UNCHANGED cfg
(* n > 0: bytes; 0: end of stream; -1: error; -2: waits for a client that has already sent everything *)
Recv == /\ E.e = "recv" /\ st = "rx" /\ got' = IF E.n > 0 THEN got + E.n ELSE got
        /\ E.n = -2 => (Only("C08", ~Complete(req)) /\ Only("C04", ~Complete(req)))
        /\ UNCHANGED <<st, req, end, used, res, hdrs, wire, fail, cleaned, closed>> /\ UNCHANGED cfg
Idx == RouteFor(routes, Verb(req), Resource(req))
Slot(k) == IF k = 0 THEN -1 ELSE routes[k].slot
Inserted(s) == [k \in DOMAIN resp[s].hdrs |-> HLine(resp[s].hdrs[k][1], resp[s].hdrs[k][2])]
SeenOK == /\ E.verb = Verb(req) /\ E.res = Resource(req) /\ E.head = ReqHead(req)
          /\ E.body = Body(req)
FirstHandler ==
  /\ E.e = "handler" /\ st = "rx" /\ st' = "app"
  /\ LET k == Idx IN
     /\ Only("C08", Served(req) /\ SeenOK)
     /\ Only("C09", Served(req) => (IF k # 0 THEN E.slot = Slot(k) ELSE E.slot = nf.slot))
     /\ Only("C10", Served(req) => (k = 0 => (nf.h = 1 /\ E.slot = nf.slot)))
     /\ Only("C09", (Served(req) /\ k # 0 /\ E.slot = Slot(k) /\ routes[k].nexp > 0) =>
                       CapturesOK(routes[k].ast, Resource(req), E.m, routes[k].nexp))
     /\ Only("C14", (Served(req) /\ IsForm(req)) => E.hasform = 1 /\ E.body = Body(req))
  /\ used' = <<E.slot>> /\ hdrs' = Inserted(E.slot)
  /\ UNCHANGED <<req, got, end, res, wire, fail, cleaned, closed>> /\ UNCHANGED cfg
SecondHandler ==
  /\ E.e = "handler" /\ st = "ret" /\ st' = "app"
  /\ Only("C10", Declined(res.code, res.outnil, res.out) /\ Len(used) = 1 /\ nf.h = 1 /\ E.slot = nf.slot)
  /\ Only("C09", E.slot = nf.slot)
  /\ Only("C08", Served(req) /\ SeenOK)
  /\ used' = Append(used, E.slot) /\ hdrs' = hdrs \o Inserted(E.slot)
  /\ UNCHANGED <<req, got, end, res, wire, fail, cleaned, closed>> /\ UNCHANGED cfg
Field == /\ E.e = "fget" /\ st = "app" /\ Only("C14", FieldOK(Form(Body(req)), E.k, E.nil, E.v)) /\ UNCHANGED xv /\ UNCHANGED cfg
CleanOf(s) == IF s = nf.slot THEN nf.clean ELSE LET K == {k \in DOMAIN routes : routes[k].slot = s} IN routes[MinOf(K)].clean
Return ==
  /\ E.e = "hret" /\ st = "app" /\ E.slot = used[Len(used)]
  /\ res' = [slot |-> E.slot, clean |-> CleanOf(E.slot), code |-> E.code, mime |-> E.mime, out |-> E.out, outnil |-> E.outnil]
  /\ st' = "ret" /\ UNCHANGED <<req, got, end, used, hdrs, wire, fail, cleaned, closed>> /\ UNCHANGED cfg
(* the page that is sent in the end *)
Final ==
  IF used = <<>> \/ (Len(used) = 1 /\ nf.h = 0 /\ Declined(res.code, res.outnil, res.out))
  THEN [NoRes EXCEPT !.mime = IF used = <<>> THEN <<>> ELSE res.mime] ELSE res
Generated ==
  /\ E.e = "gen" /\ st \in {"rx", "ret"}
  /\ IF E.nil = 1
     THEN /\ st' = "none" /\ UNCHANGED res
          /\ Only("C08", st = "rx" /\ (~Served(req) \/ TooBig(req)))
          /\ Only("C10", (Served(req) /\ ~TooBig(req)) => FALSE)
          /\ Only("C09", (Served(req) /\ ~TooBig(req)) => FALSE)
     ELSE /\ st' = "tx" /\ res' = Final
          /\ Only("C08", Served(req))
          /\ Only("C09", (Served(req) /\ Idx # 0) => (used # <<>> /\ used[1] = Slot(Idx)))
          /\ Only("C10", Served(req) =>
                /\ (Idx = 0 /\ nf.h = 1) => used = <<nf.slot>>
                /\ (Idx = 0 /\ nf.h = 0) => used = <<>>
                /\ (Idx # 0 /\ nf.h = 1 /\ Len(used) = 1) => ~Declined(res.code, res.outnil, res.out))
  /\ UNCHANGED <<req, got, end, used, hdrs, wire, fail, cleaned, closed>> /\ UNCHANGED cfg
Send == /\ E.e = "send" /\ st = "tx"
        /\ Only("C05", E.len <= 4096) /\ Only("C03", closed = 0) /\ Only("C02", cleaned = 0) /\ Only("C02", ~fail)
        /\ wire' = wire \o E.b /\ fail' = (fail \/ E.ret <= 0)
        /\ UNCHANGED <<st, req, got, end, used, res, hdrs, cleaned, closed>> /\ UNCHANGED cfg
(* is the response on the wire complete, judged by its own framing? *)
WholeOnWire == /\ WireEnd(wire) # 0
               /\ LET cl == Header(wire, H_CLEN) IN cl.st = "val" /\ Len(WireBody(wire)) = Num(Digits(cl.v))
Cleanup == /\ E.e = "cleanup" /\ st = "tx"
           /\ Only("C02", /\ cleaned = 0 /\ E.slot = res.slot /\ res.clean = 1 /\ E.same = 1
                          /\ (fail \/ WholeOnWire)
                          /\ (WireEnd(wire) # 0 => SubSeq(wire, 10, 12) = Dec(E.code)))
           /\ Only("C10", E.slot = res.slot)
           /\ cleaned' = cleaned + 1
           /\ UNCHANGED <<st, req, got, end, used, res, hdrs, wire, fail, closed>> /\ UNCHANGED cfg
Close == /\ E.e = "close" /\ Only("C03", st = "tx" /\ closed = 0) /\ Only("C02", (st = "tx" /\ ~fail) => WholeOnWire)
         /\ closed' = closed + 1
         /\ UNCHANGED <<st, req, got, end, used, res, hdrs, wire, fail, cleaned>> /\ UNCHANGED cfg
Stale == E.e = "stale" /\ Prop # "C03" /\ UNCHANGED xv /\ UNCHANGED cfg
(* judgement of the finished exchange *)
Rg == RangeOf(req, res.code, Len(res.out))
Type == IF res.mime = <<>> THEN TEXTHTML ELSE res.mime
RangeAsked == HasHeader(ReqHead(req), H_RANGE)
(* what the response should have been: C12 fixes ranges, C11 everything else *)
FramedOK ==
  LET b == WireBody(wire)
      c == IF RangeAsked /\ res.code = 200 /\ HasPrefix(wire, StatusLine(206)) THEN 206 ELSE res.code
  IN /\ WireEnd(wire) # 0
     /\ HeadOK(wire, c, Type, Len(b), hdrs, <<>>)
     /\ (c = res.code) => b = res.out
RangedOK == LET r == Rg IN
            /\ WireEnd(wire) # 0
            /\ WireBody(wire) = WireBytes(r, res.out)
            /\ HeadOK(wire, WireCode(r, res.code), Type, Len(WireBytes(r, res.out)), hdrs, IF r.ok THEN ContentRange(r, Len(res.out)) ELSE <<>>)
NotFoundOK == (used = <<>> \/ Final.slot = -1) => (~RangeAsked => HasPrefix(wire, StatusLine(404)) /\ WireBody(wire) = BUILTIN404)
DeclinedHeap == Len(used) > 1 /\ resp[used[1]].kind \in {"heap"}
AllProper == \A k \in DOMAIN used :
                 LET s == used[k]  p == resp[s]
                     c == IF k = Len(used) THEN (IF res.slot = s THEN res.code ELSE 404) ELSE 404
                 IN Proper(p.kind, IF CleanOf(s) = 1 THEN p.clean ELSE 0, c, p.body)
                    /\ (k < Len(used) \/ res.slot # s => p.kind # "heap")
Finish ==
  /\ E.e = "xend" /\ st \in {"tx", "none"} /\ st' = "fin"
  /\ IF st = "none"
     THEN Only("C06", E.delta = 0 /\ E.maps = 0 /\ E.fds = 0) /\ Only("C02", cleaned = 0) /\ Only("C03", closed = 0)
     ELSE /\ Only("C03", closed = 1)
          /\ Only("C04", E.unfinished = 0)
          /\ Only("C02", cleaned = res.clean)
          /\ Only("C10", res.slot = nf.slot => cleaned = nf.clean)
          /\ Only("C11", ~fail => (closed = 0 \/ FramedOK))
          /\ Only("C12", ~fail => (closed = 0 \/ RangedOK))
          /\ Only("C10", ~fail => (closed = 0 \/ (NotFoundOK /\ ((WireEnd(wire) # 0 /\ ~RangeAsked) => (WireBody(wire) = res.out /\ HasPrefix(wire, StatusLine(res.code)))))))
          /\ Only("C06", AllProper => (E.delta = 0 /\ E.maps = 0 /\ E.fds = 0))
  /\ UNCHANGED <<req, got, end, used, res, hdrs, wire, fail, cleaned, closed>> /\ UNCHANGED cfg

(* ---- files served directly ---- *)
Static == /\ E.e = "static" /\ UNCHANGED xv /\ UNCHANGED cfg
          /\ IF E.path \in DOMAIN files
             THEN /\ E.ret = 200 /\ E.out = files[E.path] /\ E.mimeterm = 1
                  /\ E.mime = IF E.preset # <<>> THEN E.preset ELSE TypeOf(E.path)
             ELSE E.ret = 404 /\ E.out # <<>>
(* ---- parser functions called directly ---- *)
PReq == /\ E.e = "preq" /\ UNCHANGED xv /\ UNCHANGED cfg
        /\ IF WellFormed(E.text)
           THEN /\ E.ret = 0 /\ E.verb = Verb(E.text) /\ E.res = Resource(E.text) /\ E.verbterm = 1 /\ E.resterm = 1
                /\ E.head = ReqHead(E.text)
           ELSE E.ret # 0
PBody == /\ E.e = "pbody" /\ UNCHANGED xv /\ UNCHANGED cfg
         /\ (E.clen > 0 \/ E.raw = <<>>) => E.ret = 0 /\ E.bodynil = 0 /\ E.body = ParsedBody(E.raw, E.clen)
PFree == E.e = "pfree" /\ E.delta = 0 /\ UNCHANGED xv /\ UNCHANGED cfg
PRange == /\ E.e = "range" /\ UNCHANGED xv /\ UNCHANGED cfg
          /\ (RangeSyntax(E.text) /\ Len(RangeFirst(E.text)) <= 18 /\ Len(RangeLast(E.text)) <= 18) =>
                RangeParsed(E.text, E.od, E.ld)
EvCtx == E.e \in {"ctx", "addstr", "addint", "addarr", "addsub", "astr", "aint", "asub", "filt"} /\ UNCHANGED xv /\ UNCHANGED cfg
TNext == /\ More /\ Advance
         /\ \/ EvResp \/ EvRoute \/ EvNf \/ EvFile \/ EvRm \/ Begin \/ Recv \/ FirstHandler \/ SecondHandler \/ Field \/ Return
            \/ Generated \/ Send \/ Cleanup \/ Close \/ Stale \/ Finish \/ Static \/ EvCtx \/ PReq \/ PBody \/ PFree \/ PRange
=============================================================================
