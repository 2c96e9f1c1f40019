---------------------------- MODULE PipelineGen ----------------------------
(* Behaviours of the design, printed as schedules for the real code. *)
EXTENDS Pipeline, TLC, Json
VARIABLE hist
Is(n, a) == a /\ hist' = Append(hist, n)
Num(k) == ToString(k - 1)
GInit == Init /\ hist = <<>>
GNext ==
  \/ \E c \in Conns : \/ Is(<<"C", c, 0>>, Connect(c)) \/ Is(<<"D", c, 0>>, Request(c))
                      \/ (RandomElement(1..6) = 1 /\ Is(<<"L", c, 0>>, Leave(c)))
  \/ Is(<<"A", "accept", 0>>, Accept) \/ Is(<<"A", "put", 0>>, AccPut) \/ (RandomElement(1..8) = 1 /\ Is(<<"A", "putfail", 0>>, AccRefused))
  \/ \E w \in Workers : \/ Is(<<"W", w, "take">>, WkTake(w)) \/ Is(<<"W", w, "hret", wk[w].c>>, WkServe(w)) \/ Is(<<"W", w, "close">>, WkDrop(w))
                        \/ Is(<<"W", w, "put">>, WkPut(w)) \/ (RandomElement(1..8) = 1 /\ Is(<<"W", w, "putfail">>, WkRefused(w)))
                        \/ Is(<<"W", w, "send">>, WkOwn(w))
  \/ Is(<<"R", "take", 0>>, RsTake) \/ Is(<<"R", "send", rs.c>>, RsSend)
  \/ Is(<<"R", "put", 0>>, RsRequeue) \/ Is(<<"R", "put", 0>>, RsKeep)
AllDone == \A c \in Conns : open[c] = "closed"
Emit == AllDone => PrintT("GEN " \o ToJson([h |-> hist, failed |-> failed]))
=============================================================================
