------------------------------ MODULE LoaderMC ------------------------------
(* Every short history of starts, additions, external changes and checks. *)
EXTENDS Loader, TLC, Json
CONSTANTS MaxOps, OneIn
VARIABLES x, hist, mine
vars == <<x, hist, mine>>
L(v, r) == [s |-> v \o " " \o r, p |-> <<v, r>>]
Lm == <<[k |-> "p", v |-> "a", s |-> -1000], [k |-> "p", v |-> "b", s |-> -2000]>>
Plain == <<[k |-> "p", v |-> "b", s |-> 0]>>
UFiles == {<<L("c", "p")>>, <<L("a", "p"), [s |-> "bad", p |-> <<"bad">>], L("c", "p")>>, <<>>}
XFiles == {<<L("a", "p")>>, <<L("c", "p")>>}
RFiles == {<<L("a", "d")>>, <<L("b", "a")>>}
M == Len(hist) + 1
Ops == UNION {
   {[k |-> "start"], [k |-> "check"]},
   {[k |-> "add", v |-> v, r |-> "p"] : v \in {"c", "e"}},
   {[k |-> "edit", f |-> "u", x |-> u, term |-> b, how |-> h, mt |-> M] : u \in UFiles, b \in BOOLEAN, h \in {"inplace", "replace"}},
   {[k |-> "edit", f |-> "x", x |-> u, term |-> TRUE, how |-> "replace", mt |-> M] : u \in XFiles},
   {[k |-> "edit", f |-> "r", x |-> u, term |-> TRUE, how |-> "inplace", mt |-> M] : u \in RFiles},
   {[k |-> "rm", f |-> f] : f \in FileNames} }
\* mine: phrases the user added that no external change has touched since.
Init == x = Start0 /\ hist = <<>> /\ mine = {}
Next == /\ Len(hist) < MaxOps
        /\ \E e \in Ops :
             /\ IF hist = <<>> THEN e.k \in {"start", "edit"} ELSE TRUE
             /\ IF e.k = "rm" THEN x.fs[e.f].ex ELSE TRUE
             /\ IF e.k \in {"check", "add"} THEN x.up ELSE TRUE
             /\ x' = After_(x, e) /\ hist' = Append(hist, e)
             /\ mine' = CASE e.k = "add" /\ x.fs["u"].ex -> mine \cup {<<e.v, e.r>>}
                          [] e.k \in {"edit", "rm"} /\ e.f = "u" -> {}
                          [] OTHER -> mine
Spec == Init /\ [][Next]_vars
V(f) == <<x.fs[f].ex, x.fs[f].x, x.fs[f].term, x.seen[f] = x.fs[f].mt, x.ram[f]>>
View == <<[f \in FileNames |-> V(f)], x.on, x.up, mine, Len(hist)>>
O == Offer(x, Lm, Plain, "p")
NoFault(f) == \A i \in DOMAIN x.fs[f].x : Len(x.fs[f].x[i].p) # 1
\* Added phrases stay in the file, and are offered while nothing excludes or
\* replaces them and no faulty line hides them.
Kept == \A m \in mine : \E i \in DOMAIN x.fs["u"].x : x.fs["u"].x[i].p = m
OfferedNow == (x.up /\ NoFault("u") /\ ~x.on /\ Len(x.ram["x"]) = 0) => \A m \in mine : \E i \in DOMAIN O : O[i] = m[1]
\* Right after a check everything matches the files, and replacement is active
\* exactly while its file exists.
Followed == hist # <<>> =>
   (IF hist[Len(hist)].k \in {"check", "start"}
    THEN /\ x.on = x.fs["r"].ex
         /\ \A f \in FileNames : x.ram[f] = ReadFile(x.fs[f])
    ELSE TRUE)
\* Between checks external changes have no effect at all.
Quiet == [][hist'[Len(hist')].k \in {"edit", "rm"} => x'.ram = x.ram /\ x'.on = x.on]_vars
\* Adding never touches what is already in the file.
Appends == [][hist'[Len(hist')].k = "add" => IsPrefixOf(x.fs["u"].x, x'.fs["u"].x)]_vars
Populates == x.up /\ (\A i \in DOMAIN hist : hist[i].k # "rm") => x.fs["u"].ex /\ x.fs["x"].ex
Emit == IF RandomElement(1..OneIn) = 1 THEN PrintT("SCN " \o ToJson([s |-> ToString(x), h |-> hist'])) ELSE TRUE
===========================================================================
