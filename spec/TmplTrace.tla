----------------------------- MODULE TmplTrace ------------------------------
(* Recorded uses of the template engine: contexts are built, templates rendered *)
(* (each filter call and each clean-up of a result is an event of its own),       *)
(* contexts released, files rendered as pages.                                    *)
EXTENDS Tmpl, TraceBase
VARIABLES D, live, calls, cleans
Empty == [x \in {} |-> 0]
tv == <<D, live, calls, cleans>>
TInit == TBInit /\ D = [ctx |-> Empty, arr |-> Empty, files |-> Empty] /\ live = {} /\ calls = <<>> /\ cleans = <<>>
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Quiet == UNCHANGED <<live, calls, cleans>>
Build == CASE E.e = "ctx" -> D' = NewCtx(D, E.id)
           [] E.e \in {"addstr", "addint"} -> E.ret = 0 /\ D' = AddVal(D, E.id, Val(E.name, "str", E.val, 0))
           [] E.e = "addarr" -> D' = AddArr(D, E.id, E.name, E.ref)
           [] E.e = "addsub" -> E.ret = 0 /\ D' = AddVal(D, E.id, Val(E.name, "sub", <<>>, E.ref))
           [] E.e = "filt" -> E.ret = 0 /\ D' = AddFilter(D, E.id, E.name, E.ref)
           [] E.e = "astr" -> E.ret = 0 /\ D' = AddEl(D, E.id, "str", E.val, 0)
           [] E.e = "aint" -> E.ret = 0 /\ D' = AddEls(D, E.id, E.val, E.n)
           [] E.e = "asub" -> E.ret = 0 /\ D' = AddEl(D, E.id, "sub", <<>>, E.sub)
           [] OTHER -> FALSE
EvBuild == /\ Build /\ live' = IF E.e = "ctx" THEN live \cup {E.id} ELSE live
           /\ calls = <<>> /\ UNCHANGED <<calls, cleans>>
EvFile == E.e = "file" /\ D' = [D EXCEPT !.files = Ext(@, E.path, E.b)] /\ Quiet
EvRm == E.e = "rm" /\ D' = [D EXCEPT !.files = [x \in DOMAIN @ \ {E.path} |-> @[x]]] /\ Quiet
(* filters run during a rendering; what they were called with is judged when it ends *)
FCall == /\ E.e = "fcall" /\ calls' = Append(calls, [kind |-> E.kind, nil |-> E.nil, arg |-> E.arg])
         /\ E.res = FRes([kind |-> E.kind, nil |-> E.nil, arg |-> E.arg]) /\ UNCHANGED <<D, live, cleans>>
(* a result is released after it was produced, and only once *)
FClean == /\ E.e = "fclean" /\ cleans' = Append(cleans, [kind |-> E.kind, res |-> E.res])
          /\ Only("C21", Len(cleans) < Cardinality({k \in DOMAIN calls : HasCleanup(calls[k].kind)}))
          /\ UNCHANGED <<D, live, calls>>
CallsOK(c) == /\ OnlyIn({"C21", "C32"}, calls = c)
              /\ Only("C21", cleans = [k \in DOMAIN SelectSeq(c, LAMBDA x : HasCleanup(x.kind)) |->
                                LET x == SelectSeq(c, LAMBDA y : HasCleanup(y.kind))[k] IN [kind |-> x.kind, res |-> FRes(x)]])
Rendered == /\ E.e = "render" /\ E.id \in live
            /\ LET r == Render(D, E.id, E.text) IN
               /\ E.nil = 0 /\ E.out = r.o /\ OnlyIn({"C23", "C32"}, E.size = Len(E.out) /\ E.delta = 0) /\ CallsOK(r.c)
            /\ calls' = <<>> /\ cleans' = <<>> /\ UNCHANGED <<D, live>>
Freed == /\ E.e = "tfree" /\ E.id \in live /\ live' = live \ Owned(D, E.id)
         /\ (live' = {} => OnlyIn({"C23", "C32"}, E.delta = 0)) /\ UNCHANGED <<D, calls, cleans>>
(* ---- pages ---- *)
Page == /\ E.e = "page" /\ Only("C17", E.delta = 0 /\ E.maps = 0 /\ E.fds = 0)
        /\ IF E.path \in DOMAIN D.files
           THEN LET r == Render(D, 0, D.files[E.path]) IN
                /\ E.ret = 200 /\ E.out = r.o /\ CallsOK(r.c)
                /\ E.mime = IF E.preset # <<>> THEN E.preset ELSE TypeOf(E.path)
           ELSE E.ret = 404 /\ E.out # <<>> /\ calls = <<>>
        /\ calls' = <<>> /\ cleans' = <<>> /\ UNCHANGED <<D, live>>
TNext == More /\ Advance /\ (EvBuild \/ EvFile \/ EvRm \/ FCall \/ FClean \/ Rendered \/ Freed \/ Page)
=============================================================================
