----------------------------- MODULE DictTrace -----------------------------
EXTENDS Dict, TraceBase
TInit == TBInit /\ map = <<>> /\ ret = 0
TNext ==
  /\ More /\ Advance
  /\ \/ E.e = "dnew"  /\ E.nil = 0 /\ DNew
     \/ E.e = "dset"  /\ DSet(E.k, E.v) /\ E.ret = ret'
     \/ E.e = "dget"  /\ E.same = 1 /\ DGetOK(E.k, E.nil, E.v) /\ UNCHANGED dvars
     \/ E.e = "dfree" /\ E.delta = 0 /\ UNCHANGED dvars
=============================================================================
