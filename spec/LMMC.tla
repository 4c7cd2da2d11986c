-------------------------------- MODULE LMMC --------------------------------
(* Every small combination of entries and switches. *)
EXTENDS LM, TLC, Json
CONSTANTS MaxList, OneIn
VARIABLES c, hist
vars == <<c, hist>>
Keys == {"p", "p-q"}
Vals == {"a", "b", "MACRO@X", "MACRO@Y"}
Init == c = [Empty EXCEPT !.macro = << <<"MACRO@Y", "y">> >>, !.conv = << <<"a", "b">>, <<"y", "z">> >>] /\ hist = <<>>
Lists(S) == {<<>>} \cup UNION {[1..n -> S] : n \in 1..MaxList}
\* Loads happen in a fixed order, so that combinations are visited once.
Do(e) == c' = After(c, e) /\ hist' = Append(hist, e)
Next == \/ Len(hist) = 0 /\ \E x \in Lists([k : Keys, v : Vals, s : {-1000, -2000, -8000}]) :
              /\ \A i \in 1..(Len(x)-1) : ~(x[i].k = "p-q" /\ x[i+1].k = "p")
              /\ Do([k |-> "lm", x |-> x])
        \/ Len(hist) = 1 /\ \E x \in Lists([v : Vals, k : Keys]) : Do([k |-> "user", x |-> x])
        \/ Len(hist) = 2 /\ \E x \in {<<>>} \cup {<<[v |-> v, k |-> k]>> : v \in Vals, k \in Keys} : Do([k |-> "excl", x |-> x])
        \/ Len(hist) = 3 /\ \E x \in {<<>>} \cup {<<[v |-> v, to |-> w]>> : v \in Vals, w \in {"a", "b", "MACRO@X"}} : Do([k |-> "repl", x |-> x])
        \/ Len(hist) = 4 /\ \E b \in BOOLEAN : Do([k |-> "ron", b |-> b])
        \/ Len(hist) = 5 /\ \E b \in BOOLEAN : Do([k |-> "eon", b |-> b])
Spec == Init /\ [][Next]_vars
\* Sampling the inner choices keeps the exploration small.
Sampled == RandomElement(1..(IF Len(hist') <= 2 THEN OneIn ELSE IF Len(hist') <= 4 THEN 3 ELSE 1)) = 1
U(key) == Unigrams(c, key)
Once == \A k \in Keys : LET u == U(k) IN \A i, j \in DOMAIN u : i # j => u[i][1] # u[j][1]
\* Everything offered comes from an entry that is not excluded,
Sources == \A k \in Keys : \A i \in DOMAIN U(k) :
   \E v \in Vals : /\ v \notin Excluded(c, k)
                   /\ (\E j \in DOMAIN c.user : c.user[j].v = v /\ c.user[j].k = k)
                      \/ (\E j \in DOMAIN c.lm : c.lm[j].v = v /\ c.lm[j].k = k)
                   /\ \E s \in {0, -1000, -2000, -8000} : Offered(c, k, v, s) = <<U(k)[i][1]>>
\* and everything that is not is offered in some form, or is an unknown macro.
Complete == \A k \in Keys :
   /\ \A j \in DOMAIN c.user : (c.user[j].k = k /\ c.user[j].v \notin Excluded(c, k))
         => \E i \in DOMAIN U(k) : U(k)[i][1] = Offered(c, k, c.user[j].v, 0)[1]
   /\ \A j \in DOMAIN c.lm : (c.lm[j].k = k /\ Offered(c, k, c.lm[j].v, c.lm[j].s) # <<>>)
         => \E i \in DOMAIN U(k) : U(k)[i][1] = Offered(c, k, c.lm[j].v, c.lm[j].s)[1]
\* The user's come first and are never below a built-in one.
First == \A k \in Keys : LET u == U(k) n == Len(Gather(c, k, OwnFor(c, k), {})) IN
   \A i \in 1..n : \A j \in (n+1)..Len(u) : u[i][2] > u[j][2] \/ (u[i][2] = u[j][2] /\ (u[i][3] > u[j][3] \/ u[i][2] = 0))
                                            \/ (u[j][2] > 0)
Emit == IF Len(hist') = 6 THEN PrintT("SCN " \o ToJson([s |-> ToString(c'), h |-> hist'])) ELSE TRUE
Constraint == Sampled /\ Emit
===========================================================================
