------------------------------ MODULE UOMTrace ------------------------------
(* Conformance of UserOverrideModel with UOM.tla. *)
EXTENDS UOM, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, u, now
vars == <<t, l, u, now>>
RaisedUnits == 0
Init == t \in DOMAIN Traces /\ l = 0 /\ u = EmptyUom /\ now = 0
Step ==
  LET e == Traces[t].ev[l+1]
      T == now + e.d
      n == IF e.k = "obs" THEN Observe(u, Traces[t].cap, e.key, e.v, T, e.f) ELSE u
  IN IF "crash" \in DOMAIN e
     THEN PrintT(<<"MISMATCH", "C14", t, l+1, e.k, e.crash>>) /\ l' = 1000000 /\ UNCHANGED <<t, u, now>>
     ELSE LET bad == {j \in DOMAIN Traces[t].keys : ~Right(n, Traces[t].keys[j], T, e.o.s[j])}
          IN IF bad = {} THEN l' = l + 1 /\ u' = n /\ now' = T /\ t' = t
             ELSE /\ \A j \in bad : PrintT(<<"MISMATCH", "C14", t, l+1, e.k,
                        ToString(<<"context", Traces[t].keys[j], "suggested", e.o.s[j], "expected", Suggest(n, Traces[t].keys[j], T)>>)>>)
                  /\ l' = 1000000 /\ UNCHANGED <<t, u, now>>
Next == l < Len(Traces[t].ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == UomOK(u, Traces[t].cap)
===========================================================================
