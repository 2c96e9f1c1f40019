-------------------------- MODULE SparseArrayTrace --------------------------
EXTENDS SparseArray, TraceBase
TInit == TBInit /\ esz = 0 /\ max = 0 /\ cells = <<>> /\ ret = 0
TNext ==
  /\ More /\ Advance
  /\ \/ E.e = "snew"  /\ E.nil = 0 /\ SNew(E.esz, E.max)
     \/ E.e = "sset"  /\ SSet(E.i, E.v) /\ E.ret = ret'
     \/ E.e = "sget"  /\ SGetOK(E.i, E.nil, E.n, E.v) /\ UNCHANGED svars
     \/ E.e = "sfree" /\ E.delta = 0 /\ UNCHANGED svars
=============================================================================
