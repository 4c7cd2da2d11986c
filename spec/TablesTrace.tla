----------------------------- MODULE TablesTrace -----------------------------
(* Conformance of the file readers and tables: every answer recorded from the
   real code is the one the specification gives. *)
EXTENDS Util, TLC, Json, IOUtils
So == INSTANCE Sorted
Bl == INSTANCE Blob
As == INSTANCE Assoc
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, n, file
vars == <<t, l, n, file>>
H == Traces[t]
Init == t \in DOMAIN Traces /\ l = 0 /\ n = 0 /\ file = IF H.kind = "blob" THEN Bl!Reading(H.bytes) ELSE <<>>

\* n: pairs read so far (blob).
Expected(e) ==
  IF H.kind = "sorted" THEN
    LET ls == IF H.validate /\ ~H.pragma THEN <<>> ELSE H.ls
        sc == H.sc
    IN CASE e.k = "rows" -> [r |-> So!Matching(ls, e.key)]
         [] e.k = "rev" -> [r |-> So!Carrying(ls, e.key)]
         [] e.k = "first" -> [r |-> So!FirstOffset(ls, e.key)]
         [] e.k = "uni" -> LET u == So!Unigrams(ls, sc, e.key) IN [r |-> u, has |-> u # <<>>]
         [] e.k = "read" -> [r |-> So!Readings(ls, sc, e.key)]
  ELSE IF H.kind = "blob" THEN
    LET ps == file.ps
    IN CASE e.k = "next" -> IF n < Len(ps)
                            THEN [s |-> "pair", key |-> IF e.null THEN <<>> ELSE ps[n+1].k, val |-> IF e.null THEN <<>> ELSE ps[n+1].v]
                            ELSE [s |-> file.st, key |-> <<>>, val |-> <<>>]
         [] e.k = "load" -> [up |-> Len(H.bytes) > 0, pr |-> Len(H.bytes) > 0]
         [] e.k = "user" -> LET u == Bl!PhrasesFor(ps, e.key)
                            IN [r |-> [i \in DOMAIN u |-> <<u[i], 0>>], has |-> u # <<>>]
         [] e.k = "repl" -> [r |-> Bl!ReplacementFor(ps, e.key)]
  ELSE
    CASE e.k = "find" -> LET f == As!Find(H.tab, e.v, e.rd)
                         IN [r |-> [i \in DOMAIN f |-> [v |-> ConcatStr(f[i].cs), rd |-> f[i].rs, c |-> As!Combine(f[i].rs)]]]
      [] e.k = "comb" -> [c |-> As!Combine(e.rd), s |-> e.rd]
      [] e.k = "split" -> [s |-> As!Split(e.s), c |-> e.s]
Tag == IF H.kind = "sorted" THEN "L03" ELSE IF H.kind = "blob" THEN "L04" ELSE "L05"
Same(o, x) == \A f \in DOMAIN x : o[f] = x[f]
Bad(e, what) == PrintT(<<"MISMATCH", Tag, t, l+1, e.k, ToString(what)>>) /\ l' = 1000000 /\ UNCHANGED <<t, n, file>>
Step == LET e == H.ev[l+1] IN
  IF "crash" \in DOMAIN e THEN Bad(e, e.crash)
  ELSE LET x == Expected(e) IN
       IF Same(e.o, x)
       THEN l' = l + 1 /\ UNCHANGED <<t, file>> /\ n' = IF e.k = "next" THEN n + 1 ELSE n
       ELSE Bad(e, <<"query", e, "expected", x>>)
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == (l = 0 /\ H.kind = "sorted") => So!WellFormed(H.ls)
===========================================================================
