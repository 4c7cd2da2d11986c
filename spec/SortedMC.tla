------------------------------ MODULE SortedMC ------------------------------
(* The binary search on every small sorted file and key. *)
EXTENDS Sorted, TLC, Json
CONSTANTS MaxLines, MaxLine, MaxKey
VARIABLES ls, term, key, top, bottom, res, hist
vars == <<ls, term, key, top, bottom, res, hist>>
Bytes == {97, 98}
Strs(n) == UNION {[1..k -> Bytes] : k \in 1..n}
Init == /\ ls = <<>> /\ term = FALSE /\ key = <<>> /\ top = 0 /\ bottom = 0 /\ res = -3 /\ hist = <<>>
\* Build a file line by line, then choose a key and search.
AddLine == /\ res = -3 /\ Len(ls) < MaxLines
           /\ \E x \in Strs(MaxLine) : /\ IF ls = <<>> THEN TRUE ELSE ~Less(x, ls[Len(ls)])
                                       /\ ls' = Append(ls, x)
           /\ UNCHANGED <<term, key, top, bottom, res, hist>>
Start == /\ res = -3 /\ ls # <<>>
         /\ \E b \in BOOLEAN, x \in Strs(MaxKey) :
              /\ term' = b /\ key' = x
              /\ top' = 0 /\ bottom' = Len(Content(ls, b)) /\ res' = -2
              /\ hist' = <<[ls |-> ls, term |-> b, key |-> x]>>
         /\ UNCHANGED ls
Search == /\ res = -2
          /\ IF top < bottom
             THEN LET r == Probe(Content(ls, term), key, top, bottom)
                  IN top' = r.top /\ bottom' = r.bottom /\ res' = r.res
             ELSE res' = -1 /\ UNCHANGED <<top, bottom>>
          /\ UNCHANGED <<ls, term, key, hist>>
Next == AddLine \/ Start \/ Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Search)
View == <<ls, term, key, top, bottom, res>>
\* The search answers what the definition says,
Found == res >= -1 => res = FirstOffset(ls, key)
\* never leaves the file,
Inside == res = -2 => 0 <= top /\ bottom <= Len(Content(ls, term))
\* keeps the answer in the interval it still looks at,
Kept == res = -2 /\ FirstIndex(ls, key) # 0 =>
          LET s == FirstOffset(ls, key) e == s + Len(ls[FirstIndex(ls, key)]) IN top <= e /\ s < bottom
\* and ends.
Ends == [](res = -2 => <>(res >= -1))
\* Matching lines are consecutive.
Together == res = -2 => \A i, j \in DOMAIN ls : i < j /\ Begins(ls[i], key) /\ Begins(ls[j], key)
                          => \A k \in i..j : Begins(ls[k], key)
Emit == IF res' = -2 /\ res = -3 THEN PrintT("SCN " \o ToJson([s |-> ToString(<<ls', term'>>), h |-> hist'])) ELSE TRUE
===========================================================================
