-------------------------------- MODULE Http --------------------------------
(* One exchange between a client and the server: requests, routing, the        *)
(* not-found page, responses, byte ranges, files.                              *)
EXTENDS Text, Regex, Files
MaxRequest == 2097152
Codes == {200, 206, 301, 302, 400, 403, 404, 500}
OkCode(c) == c >= 200 /\ c < 400

(* ---- requests ---- *)
(* the client has sent everything the server may wait for *)
Complete(t)  == HeadEnd(t) # 0 /\ Len(t) >= HeadEnd(t) + ContentLength(t)
Served(t)    == Complete(t) /\ WellFormed(t)                  \* must reach a handler or the not-found page
Body(t)      == SubSeq(t, HeadEnd(t) + 1, HeadEnd(t) + ContentLength(t))
TooBig(t)    == HeadEnd(t) # 0 /\ HeadEnd(t) + ContentLength(t) > MaxRequest
IsForm(t)    == LET r == Header(ReqHead(t), H_CTYPE) IN r.st = "val" /\ HasPrefix(r.v, FORMTYPE)

(* ---- routing: index of the first matching route, 0 if none ---- *)
RouteFor(routes, verb, res) ==
  LET S == {k \in DOMAIN routes : routes[k].verb = verb /\ Matches(routes[k].ast, res)}
  IN IF S = {} THEN 0 ELSE MinOf(S)
Declined(code, outnil, out) == code = 404 /\ (outnil = 1 \/ out = <<>>)

(* ---- byte ranges ---- *)
Strip0(d) == LET z == {k \in DOMAIN d : d[k] # 48} IN IF z = {} THEN <<>> ELSE SubSeq(d, MinOf(z), Len(d))
Far(d) == Len(Strip0(d)) > 9                    \* beyond any body there is
NoRange == [ok |-> FALSE, a |-> 0, b |-> 0]
Wanted(v, total) ==
  IF ~RangeSyntax(v) THEN NoRange
  ELSE LET fd == RangeFirst(v)  ld == RangeLast(v)  a == Num(Strip0(fd)) IN
       IF Far(fd) \/ (~Far(fd) /\ a >= total) THEN NoRange
       ELSE IF ld = <<>> \/ Far(ld) THEN [ok |-> TRUE, a |-> a, b |-> total - 1]
       ELSE LET b == Num(Strip0(ld)) IN
            IF b < a THEN NoRange ELSE [ok |-> TRUE, a |-> a, b |-> Min2(b, total - 1)]
RangeOf(t, code, total) ==
  LET r == Header(ReqHead(t), H_RANGE) IN
  IF code # 200 \/ r.st # "val" THEN NoRange ELSE Wanted(r.v, total)

(* ---- the response on the wire ---- *)
StatusLine(code) == HTTP11 \o REASONS[code]
HLine(n, v) == n \o COLONSP \o v
WireEnd(w)  == HeadEnd(w)
WireBody(w) == SubSeq(w, HeadEnd(w) + 1, Len(w))
RECURSIVE LinesOf(_)
LinesOf(h) == LET e == Find(h, CRLF) IN IF e = 0 THEN <<h>> ELSE <<SubSeq(h, 1, e - 1)>> \o LinesOf(Drop(h, e + 1))
WireLines(w) == LinesOf(SubSeq(w, 1, HeadEnd(w) - 4))
LineName(l) == LET k == FindByte(l, 58, 1) IN Lower(SubSeq(l, 1, k - 1))
OwnNames == {Lower(x) : x \in {H_CTYPE, H_CLEN, H_CONN, H_SERVER, H_ACCR, H_CRANGE, H_DATE}}
(* code: on the wire; customs: lines of the custom headers; type: content type; size: of the body that follows;
   extra: a Content-Range line, or nothing *)
HeadOK(w, code, type, size, customs, crange) ==
  LET ls == WireLines(w)
      Rest(p) == SubSeq(ls, 2, p - 1) \o SubSeq(ls, p + Len(customs), Len(ls))
  IN /\ WireEnd(w) # 0
     /\ ls[1] = StatusLine(code)
     /\ \E p \in 2..(Len(ls) - Len(customs) + 1) :
          /\ SubSeq(ls, p, p + Len(customs) - 1) = customs
          /\ LET own == Rest(p) IN
             /\ \A k \in DOMAIN own : FindByte(own[k], 58, 1) # 0 /\ LineName(own[k]) \in OwnNames
             /\ \A j, k \in DOMAIN own : LineName(own[j]) = LineName(own[k]) => j = k
             /\ HLine(H_CTYPE, type) \in Rng(own)
             /\ HLine(H_CLEN, Dec(size)) \in Rng(own)
             /\ crange # <<>> => HLine(H_CRANGE, crange) \in Rng(own)
ContentRange(r, total) == V_BYTES \o Dec(r.a) \o <<45>> \o Dec(r.b) \o <<47>> \o Dec(total)
(* the response for a handler result *)
WireCode(r, code) == IF r.ok THEN 206 ELSE code
WireBytes(r, out) == IF r.ok THEN SubSeq(out, r.a + 1, r.b + 1) ELSE out

(* ---- which clean-up belongs to which kind of response ---- *)
(* clean: 0 none, 1 m38_heap_cleanup, 2 m38_heap_cleanup_no_check, 3 m38_mmap_cleanup, 4 nothing to do *)
Proper(kind, clean, code, body) ==
  CASE kind \in {"raw", "none"} -> clean \in {0, 4}
    [] kind = "heap"   -> clean = 2 \/ (clean = 1 /\ OkCode(code))
    [] kind = "mmap"   -> (clean = 3 /\ OkCode(code)) \/ (code = 404 /\ clean # 2)
    [] kind = "render" -> (clean = 1 /\ OkCode(code)) \/ (code = 404 /\ clean # 2)
=============================================================================
