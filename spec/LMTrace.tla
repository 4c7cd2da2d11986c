------------------------------- MODULE LMTrace -------------------------------
(* Conformance of McBopomofoLM. *)
EXTENDS LM, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, c
vars == <<t, l, c>>
H == Traces[t]
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ c = [Empty EXCEPT !.macro = IF H.hasMacro THEN H.macro ELSE <<>>, !.conv = IF H.hasConv THEN H.conv ELSE <<>>]
Wrong(e) ==
   (IF e.k = "q" THEN LET u == Unigrams(c, e.key) IN
      If(e.o.r # u, {<<"offered", e.o.r, "expected", u>>})
      \cup If(e.o.has # (u # <<>>), {<<"known", e.o.has, "but offered", u>>})
    ELSE IF e.k = "rd" THEN If(e.o.r # ReadingOf(c, e.v), {<<"reading", e.o.r, "expected", ReadingOf(c, e.v)>>})
    ELSE IF e.k = "cm" THEN If(e.o.r # Map(c.macro, e.v), {<<"macro", e.o.r, "expected", Map(c.macro, e.v)>>})
    ELSE IF e.k = "aq" THEN If(e.o.r # Follow(c, e.p, e.r), {<<"associated", e.o.r, "expected", Follow(c, e.p, e.r)>>})
    ELSE {})
Step ==
  LET e == H.ev[l+1] IN
  IF "crash" \in DOMAIN e
  THEN PrintT(<<"MISMATCH", "L01", t, l+1, e.k, e.crash>>) /\ l' = 1000000 /\ UNCHANGED <<t, c>>
  ELSE LET d == After(c, e)
           bad == Wrong(e) \cup If(e.o.ron # d.ron \/ e.o.eon # d.eon, {<<"switches", e.o.ron, e.o.eon>>})
                           \cup If(e.o.lml # d.lml \/ e.o.asl # d.asl, {<<"loaded", e.o.lml, e.o.asl>>})
       IN IF bad = {} THEN l' = l + 1 /\ c' = d /\ t' = t
          ELSE PrintT(<<"MISMATCH", "L01", t, l+1, e.k, ToString(<<bad, "with", c>>)>>) /\ l' = 1000000 /\ UNCHANGED <<t, c>>
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
