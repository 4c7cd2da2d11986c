----------------------------- MODULE LoaderTrace -----------------------------
(* Conformance of LanguageModelLoader. *)
EXTENDS Loader, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, x
vars == <<t, l, x>>
H == Traces[t]
Init == t \in DOMAIN Traces /\ l = 0 /\ x = [Start0 EXCEPT !.shut = "block" \in DOMAIN Traces[t] /\ Traces[t].block # ""]
Installed(n, tab) == IF "miss" \in DOMAIN H /\ n \in Range(H.miss) THEN <<>> ELSE tab
Text(f) == [i \in DOMAIN f.x |-> f.x[i].s]
Wrong(e, y) ==
   UNION {LET o == e.o.fs[f] IN
     If(~(/\ o.ex = y.fs[f].ex /\ o.x = Text(y.fs[f])
          /\ (o.ex /\ o.x # <<>> => o.term = y.fs[f].term)),
        {<<"file", f, "is", o, "expected", Text(y.fs[f])>>}) : f \in FileNames}
   \cup If(e.o.on # y.on, {<<"replacement active", e.o.on>>})
   \cup If(y.up /\ ~y.shut /\ e.k # "free" /\ ~e.o.paths, {<<"paths">>})
   \cup UNION {LET want == Offer(y, Installed("m", H.lm), Installed("p", H.plain), H.keys[j]) IN
          If(e.o.q[j] # want, {<<"for", H.keys[j], "offered", e.o.q[j], "expected", want>>}) : j \in DOMAIN H.keys}
Step ==
  LET e == H.ev[l+1] IN
  IF "crash" \in DOMAIN e
  THEN PrintT(<<"MISMATCH", "L02", t, l+1, e.k, e.crash>>) /\ l' = 1000000 /\ UNCHANGED <<t, x>>
  ELSE LET y == After_(x, e) bad == Wrong(e, y) IN
       IF bad = {} THEN l' = l + 1 /\ x' = y /\ t' = t
       ELSE PrintT(<<"MISMATCH", "L02", t, l+1, e.k, ToString(bad)>>) /\ l' = 1000000 /\ UNCHANGED <<t, x>>
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
