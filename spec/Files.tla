------------------------------- MODULE Files --------------------------------
(* The content type that belongs to a path. *)
EXTENDS Bytes, Lits
LastComponent(p) == Drop(p, FindLastByte(p, 47))
Extension(p) == LET c == LastComponent(p)  k == FindLastByte(c, 46) IN IF k = 0 THEN <<>> ELSE SubSeq(c, k, Len(c))
TypeOf(p) ==
  LET e == Lower(Extension(p))
      M == {k \in DOMAIN MIMETYPES : MIMETYPES[k][1] = e}
  IN IF e = <<>> THEN TEXTHTML ELSE IF M = {} THEN OCTET ELSE MIMETYPES[MinOf(M)][2]
=============================================================================
