------------------------------- MODULE FilesMC -------------------------------
(* Every short history of file changes, opening, closing, moving and checking. *)
EXTENDS Files, TLC, Json
CONSTANTS MaxOps, OneIn
VARIABLES x, hist, past
vars == <<x, hist, past>>
Paths == {"p", "q"}
Slots == {"a", "b"}
Ops == UNION {
   {[k |-> "write", p |-> p, c |-> c, mt |-> m] : p \in Paths, c \in 0..2, m \in 1..2},
   {[k |-> k, p |-> p] : k \in {"rm", "link", "check", "lopen"}, p \in Paths},
   {[k |-> k, p |-> p, mt |-> 2] : k \in {"mkdir", "touch"}, p \in Paths},
   {[k |-> "open", p |-> p, s |-> s] : p \in Paths, s \in Slots},
   {[k |-> "close", s |-> s] : s \in Slots},
   {[k |-> k, s |-> "a", d |-> "b"] : k \in {"moveto", "assign"}},
   {[k |-> k, s |-> "b", d |-> "a"] : k \in {"moveto", "assign"}},
   {[k |-> "lclose"]} }
\* past: everything observable so far, for the properties below.
Init == x = Start(Paths) /\ hist = <<>> /\ past = [p \in Paths |-> <<>>]
Next == /\ Len(hist) < MaxOps
        /\ \E e \in Ops :
             /\ IF e.k \in {"rm", "touch"} THEN Exists(x.fs[e.p]) ELSE TRUE
             /\ x' = After(x, e) /\ hist' = Append(hist, e)
             /\ past' = IF e.k = "check" THEN [past EXCEPT ![e.p] = <<x.fs[e.p]>>] ELSE past
Spec == Init /\ [][Next]_vars
View == <<x, Len(hist)>>
Written(c) == \E i \in DOMAIN hist : hist[i].k = "write" /\ hist[i].c = c
\* Contents held were in a file once, and are never those of an empty file.
Real == \A c \in {x.mm["a"], x.mm["b"], x.lm} : c = -1 \/ (c > 0 /\ Written(c))
\* Moving keeps the number of holders; only closing and replacing lose one.
Moved == [][LET e == hist'[Len(hist')] IN
            e.k \in {"moveto", "assign"} => x'.mm[e.d] = x.mm[e.s] /\ x'.mm[e.s] = -1]_vars
\* Changing files changes no object; only opening what is closed brings data.
Isolated == [][LET e == hist'[Len(hist')] IN
               /\ (e.k \in {"write", "rm", "mkdir", "link", "touch", "check"} => x'.mm = x.mm /\ x'.lm = x.lm)
               /\ (e.k = "open" /\ x.mm[e.s] # -1 => x'.mm = x.mm)
               /\ (e.k # "lopen" => x'.lm \in {x.lm, -1})]_vars
\* A change is reported exactly when what is there differs from what was there
\* at the last check, in presence or time.
Noticed == \A p \in Paths :
   LET old == IF past[p] = <<>> THEN Absent ELSE past[p][1] IN
   Differs(x.fs[p], x.ts[p]) <=> (Exists(x.fs[p]) # Exists(old) \/ (Exists(old) /\ x.fs[p].mt # old.mt))
Emit == IF RandomElement(1..OneIn) = 1 THEN PrintT("SCN " \o ToJson([s |-> ToString(x), h |-> hist'])) ELSE TRUE
===========================================================================
