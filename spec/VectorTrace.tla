---------------------------- MODULE VectorTrace ----------------------------
EXTENDS Vector, TraceBase
TInit == TBInit /\ isz = 0 /\ items = <<>> /\ ret = 0
Agree == E.ret = ret' /\ E.count = Len(items')
TNext ==
  /\ More /\ Advance
  /\ \/ E.e = "vnew"  /\ E.nil = 0 /\ VNew(E.isz)
     \/ E.e = "vapp"  /\ VAppend(E.nil = 1, E.b, E.n) /\ Agree
     \/ E.e = "vptr"  /\ VAppendPtr(E.b) /\ Agree
     \/ E.e = "vrev"  /\ VReverse /\ Agree
     \/ E.e = "vget"  /\ VGetOK(E.i, E.nil, E.b) /\ UNCHANGED vvars
     \/ E.e = "vnull" /\ E.app = 0 /\ E.ptr = 0 /\ E.get = 0 /\ E.rev = 0 /\ UNCHANGED vvars
     \/ E.e = "vfree" /\ E.delta = 0 /\ UNCHANGED vvars
=============================================================================
