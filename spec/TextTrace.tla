------------------------------ MODULE TextTrace ------------------------------
(* Conformance of the text functions and numeral converters. *)
EXTENDS Numbers, TLC, Json, IOUtils
U == INSTANCE Utf8
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l
vars == <<t, l>>
H == Traces[t]
Init == t \in DOMAIN Traces /\ l = 0
Expected(e) ==
  CASE e.k = "utf8" -> LET cs == U!CharsOf(e.b) IN
                       [n |-> U!CountOf(e.b), split |-> cs, at |-> cs,
                        cut |-> [j \in 1..(Len(e.b)+2) |-> U!PrefixOf(e.b, j-1)]]
    [] e.k = "zh" -> [lower |-> ChineseNumeral(e.i, e.d, FALSE), upper |-> ChineseNumeral(e.i, e.d, TRUE)]
    [] e.k = "sz" -> [vert |-> SuzhouNumeral(e.i, e.d, e.unit, TRUE), horz |-> SuzhouNumeral(e.i, e.d, e.unit, FALSE)]
Tag(e) == IF e.k = "utf8" THEN "T01" ELSE "C13"
Bad(e, what) == PrintT(<<"MISMATCH", Tag(e), t, l+1, e.k, ToString(what)>>) /\ l' = 1000000 /\ UNCHANGED t
Step == LET e == H.ev[l+1] IN
  IF "crash" \in DOMAIN e THEN Bad(e, e.crash)
  ELSE LET x == Expected(e) IN
       IF \A f \in DOMAIN x : e.o[f] = x[f] THEN l' = l + 1 /\ UNCHANGED t
       ELSE Bad(e, <<"input", e, "expected", x>>)
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
