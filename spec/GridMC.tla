------------------------------- MODULE GridMC -------------------------------
(* Exhaustive exploration of Grid.tla for a small dictionary; every transition
   is printed with the history leading to it, to be replayed on the code. *)
EXTENDS Grid, Json, IOUtils
CONSTANTS MaxReadings, MaxDepth
VARIABLES g, hist
vars == <<g, hist>>

U(v, s) == [v |-> v, s |-> s]
\* "x" is a reading without phrases; "a-a", "b-a" and "a-b-a" compete.
L == [a |-> <<U("A1", -3), U("A2", -4)>>, b |-> <<U("B", -3)>>]
     @@ ("a-a" :> <<U("AA", -5)>>) @@ ("b-a" :> <<U("BA", -7), U("BA2", -9)>>)
     @@ ("a-b-a" :> <<U("ABA", -8), U("A1", -20)>>)
RaisedUnits == 42

T == Lattice(L, g)
Do(op, h) == g' = h /\ hist' = Append(hist, op)
Init == g = EmptyGrid /\ hist = <<>>
Ins == \E r \in {"a", "b", "x"} :
         Len(g.rd) < MaxReadings /\ Do([k |-> "ins", r |-> r], IF CanInsert(L, g, r) THEN Insert(g, r) ELSE g)
Bs == Do([k |-> "bs"], IF g.cur > 0 THEN DeleteBefore(g) ELSE g)
Del == Do([k |-> "del"], IF g.cur < Len(g.rd) THEN DeleteAfter(g) ELSE g)
Cur == \E c \in 0..Len(g.rd) : c # g.cur /\ Do([k |-> "cur", c |-> c], [g EXCEPT !.cur = c])
Choose1 == \E loc \in 0..Len(g.rd) : \E i \in DOMAIN Candidates(T, g, loc) : \E ty \in {1, 2} :
         LET c == Candidates(T, g, loc)[i] IN
         Do([k |-> "ovr", c |-> loc, r |-> c[1], v |-> c[2], ty |-> ty], ChooseFirst(T, g, loc, c[1], c[2], ty))
ChooseV == \E loc \in 0..Len(g.rd), v \in {"A1", "BA2", "zz"} :
         Do([k |-> "ovv", c |-> loc, v |-> v, ty |-> 1], ChooseFirst(T, g, loc, "*", v, 1))
Next == Ins \/ Bs \/ Del \/ Cur \/ Choose1 \/ ChooseV
Spec == Init /\ [][Next]_vars
View == g

OK == GridOK(T, g)
Covered == g.rd # <<>> => ValidWalk(T, g, BestWalk(T, g)) /\ WalkScore(T, g, BestWalk(T, g)) = BestScore(T, g)
\* No split of the readings scores higher than the conversion.
RECURSIVE Splits(_)
Splits(i) == IF i = Len(g.rd) THEN {<<>>}
             ELSE UNION {{<<<<i, n>>>> \o w : w \in Splits(i+n)} : n \in {k \in 1..MaxSpan : <<i, k>> \in DOMAIN T}}
NoBetter == \A w \in Splits(0) : WalkScore(T, g, w) <= BestScore(T, g)
\* A chosen phrase is on display in every best conversion.
ChosenOnDisplay == RaisedSuffices(T, g) =>
  \A w \in Splits(0) : WalkScore(T, g, w) = BestScore(T, g) => ChosenShown(g, w)
\* Every listed candidate can be chosen and then shows up at its place.
Selectable == \A loc \in 0..Len(g.rd) : \A i \in DOMAIN Candidates(T, g, loc) :
    LET c == Candidates(T, g, loc)[i]  h == ChooseFirst(T, g, loc, c[1], c[2], 1)
    IN \E o \in h.ov : Covers(o.p, o.n, Place(g, loc)) /\ o.v = c[2] /\ GReading(h, o.p, o.n) = c[1]
Bounded == Len(hist) <= MaxDepth
Emit == PrintT("SCN " \o ToJson([s |-> ToString(g), h |-> hist']))
NoEdit == g'.rd = g.rd
\* A choice is lost only to an overlapping choice or an edit inside it.
ChoiceKept == [][\A o \in g.ov :
    \/ \E q \in g'.ov : q.v = o.v /\ q.ty = o.ty /\ q.n = o.n
    \/ NoEdit /\ \E q \in g'.ov : Overlaps(q.p, q.n, o.p, o.n)
    \/ Len(g'.rd) > Len(g.rd) /\ o.p < g.cur /\ g.cur < o.p + o.n
    \/ Len(g'.rd) < Len(g.rd)]_vars
===========================================================================
