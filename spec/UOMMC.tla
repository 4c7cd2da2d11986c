-------------------------------- MODULE UOMMC --------------------------------
(* Exhaustive exploration of the learning memory: a few contexts competing for a
   small capacity, choices made at different times. *)
EXTENDS UOM, TLC, Json
CONSTANTS MaxOps, Cap, Keys, Gaps
VARIABLES u, now, hist
vars == <<u, now, hist>>
RaisedUnits == 0
K2 == {"p", "q"}
K3 == {"p", "q", "r"}
GapsV == {0, 8, 12, 161}
GapsB == {0, 5, 8, 24, 159, 161}
Vals == {<<"a", FALSE>>, <<"a", TRUE>>, <<"b", FALSE>>, <<"c", FALSE>>}

Init == u = EmptyUom /\ now = 0 /\ hist = <<>>
Obs(key, vf, d) == /\ u' = Observe(u, Cap, key, vf[1], now + d, vf[2])
                   /\ now' = now + d
                   /\ hist' = Append(hist, [k |-> "obs", key |-> key, v |-> vf[1], f |-> vf[2], d |-> d])
Next == /\ Len(hist) < MaxOps
        /\ \E key \in Keys, vf \in Vals, d \in Gaps : Obs(key, vf, d)
Spec == Init /\ [][Next]_vars
\* Only ages matter, not absolute times.
View == <<[i \in DOMAIN u |-> [u[i] EXCEPT !.os = [j \in DOMAIN u[i].os |->
             [u[i].os[j] EXCEPT !.ts = Min(DeadAfter + 1, now - @)]]]], Len(hist)>>

OK == UomOK(u, Cap)
Times == [i \in DOMAIN hist |-> SumSeq([j \in 1..i |-> hist[j].d])]
LastOf(key) == LET S == {i \in DOMAIN hist : hist[i].key = key} IN IF S = {} THEN 0 ELSE MaxOf(S)
\* The contexts remembered are the Cap most recently observed ones.
Remembered == \A key \in Keys :
   (Find(u, key) # 0) <=>
     (LastOf(key) # 0 /\ Cardinality({x \in Keys : LastOf(x) > LastOf(key)}) < Cap)
\* Since when a context has been remembered without interruption.
ForgottenAt(i, key) ==     \* not in memory just before step i
  LET last == MaxOf({0} \cup {j \in 1..(i-1) : hist[j].key = key})
  IN last = 0 \/ Cardinality({hist[j].key : j \in (last+1)..(i-1)}) >= Cap
Since(key) == MaxOf({i \in DOMAIN hist : hist[i].key = key /\ ForgottenAt(i, key)})
Times_(key, v) == {i \in Since(key)..Len(hist) : hist[i].key = key /\ hist[i].v = v}
\* A suggestion is the remembered choice of greatest frequency times recency.
Suggested == \A key \in Keys :
  LET s == Suggest(u, key, now)
      live(v) == Times_(key, v) # {} /\ now - Times[MaxOf(Times_(key, v))] <= DeadAfter
      wt(v) == Cardinality(Times_(key, v)) * Weight(now - Times[MaxOf(Times_(key, v))])
      cand == IF Find(u, key) = 0 THEN {} ELSE {v \in {"a", "b", "c"} : live(v)}
  IN IF cand = {} THEN s.v = "" /\ ~s.f
     ELSE /\ s.v \in cand /\ \A v \in cand : wt(v) <= wt(s.v)
          /\ s.f = hist[MaxOf(Times_(key, s.v))].f
\* Repeating a choice at once makes it (one of) the best eventually; a single
\* fresh choice of a fully decayed context always wins.
Fresh == \A key \in Keys : LET i == Find(u, key) IN
   (i # 0 /\ hist # <<>> /\ hist[Len(hist)].key = key
    /\ \A j \in DOMAIN u[i].os : u[i].os[j].v # hist[Len(hist)].v => now - u[i].os[j].ts > DeadAfter)
   => Suggest(u, key, now).v = hist[Len(hist)].v
Emit == PrintT("SCN " \o ToJson([s |-> ToString(View), h |-> hist']))
===========================================================================
