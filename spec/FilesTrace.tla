------------------------------ MODULE FilesTrace ------------------------------
(* Conformance of MemoryMappedFile, TimestampedPath and the loaded objects. *)
EXTENDS Files, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, x
vars == <<t, l, x>>
H == Traces[t]
Init == t \in DOMAIN Traces /\ l = 0 /\ x = Start(Range(H.paths))
Ev == H.ev[l+1]
Sizes == [c \in 0..3 |-> H.sizes[c+1]]
Wrong(e, y, a) ==
   If(e.k = "open" /\ e.o.r # a, {<<"open answered", e.o.r>>})
   \cup If(e.k = "lopen" /\ ~(e.o.r = a /\ e.o.u = a /\ e.o.x = a /\ e.o.a = a), {<<"loading answered", <<e.o.r, e.o.u, e.o.x, e.o.a>>, "expected", a>>})
   \cup UNION {LET m == e.o.mm[s] IN
          If(~(/\ m.open = (y.mm[s] # -1) /\ m.c = y.mm[s]
               /\ m.len = IF y.mm[s] = -1 THEN 0 ELSE Sizes[y.mm[s]]),
             {<<"object", s, "is", m, "expected content", y.mm[s]>>}) : s \in {"a", "b"}}
   \cup LET o == e.o.lm IN
          If(~(/\ o.loaded = (y.lm # -1) /\ o.aloaded = (y.lm # -1)
               /\ o.l = y.lm /\ o.u = y.lm /\ o.x = y.lm /\ o.a = y.lm /\ o.has = (y.lm # -1) /\ o.rev = (y.lm # -1)),
             {<<"loaded objects are", o, "expected content", y.lm>>})
   \cup If(e.o.fds > Holders(y) \/ e.o.maps > Holders(y), {<<"descriptors and mappings left", e.o.fds, e.o.maps, "objects", Holders(y)>>})
   \cup If(e.o.lost > 0, {<<"closed a descriptor of somebody else", e.o.lost>>})
   \cup UNION {LET q == e.o.tp[p] IN
          If(~(/\ q.ex = Exists(y.fs[p]) /\ q.file = (y.fs[p].kind = "file")
               /\ q.diff = Differs(y.fs[p], y.ts[p])),
             {<<"path", p, y.fs[p], "recorded", y.ts[p], "reported", q>>}) : p \in Range(H.paths)}
Step ==
  LET e == Ev IN
  IF "crash" \in DOMAIN e
  THEN PrintT(<<"MISMATCH", "L06", t, l+1, e.k, e.crash>>) /\ l' = 1000000 /\ UNCHANGED <<t, x>>
  ELSE LET y == After(x, e) bad == Wrong(e, y, Answer(x, e)) IN
       IF bad = {} THEN l' = l + 1 /\ x' = y /\ t' = t
       ELSE PrintT(<<"MISMATCH", "L06", t, l+1, e.k, ToString(bad)>>) /\ l' = 1000000 /\ UNCHANGED <<t, x>>
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
