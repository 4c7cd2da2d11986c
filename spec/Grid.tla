------------------------------- MODULE Grid -------------------------------
(* The composition lattice (gramambular2's ReadingGrid): readings, cursor and
   the phrases the user chose.  The lattice content itself is a function of
   the readings and the language model L, a function from combined readings
   ("a", "a-b", ...) to sequences of [v |-> value, s |-> score] in descending
   score order.

   g == [rd |-> Seq(reading), cur |-> Nat, ov |-> set of overrides]
   override == [p |-> start (0-based), n |-> length, v |-> value, ty |-> 1|2]
     ty 1: chosen, score raised to Raised; ty 2: suggested, top unigram's score *)
EXTENDS Util, TLC
CONSTANT Raised          \* score of an explicitly chosen phrase, in score units

MaxSpan == 6
EmptyGrid == [rd |-> <<>>, cur |-> 0, ov |-> {}]
NoGram == <<>>

GReading(g, p, n) == JoinFrom(g.rd, p+1, n, "-")
Grams(L, r) == IF r \in DOMAIN L THEN L[r] ELSE NoGram
Known(L, r) == Grams(L, r) # NoGram

\* All phrases of the composition: a function from <<start, length>> to the
\* run's reading and its phrases.  (Everything below takes this lattice, T, as
\* its first argument; it is always Lattice(L, g).)
Cells(L, g) == {c \in (0..Len(g.rd)-1) \X (1..MaxSpan) :
                  c[1] + c[2] <= Len(g.rd) /\ Known(L, GReading(g, c[1], c[2]))}
Lattice(L, g) == TLCEval([c \in Cells(L, g) |->
                    LET r == GReading(g, c[1], c[2]) IN [r |-> r, u |-> L[r]]])

OvAt(g, c) == {o \in g.ov : o.p = c[1] /\ o.n = c[2]}
CellValue(T, g, c) == LET o == OvAt(g, c)
                      IN IF o = {} THEN T[c].u[1].v ELSE (CHOOSE x \in o : TRUE).v
CellScore(T, g, c) == LET o == OvAt(g, c)
                      IN IF o = {} \/ (CHOOSE x \in o : TRUE).ty = 2 THEN T[c].u[1].s ELSE Raised

Overlaps(p, n, q, m) == p < q + m /\ q < p + n
Covers(p, n, loc) == p <= loc /\ loc < p + n

------------------------------------------------------------------------
(* Editing *)
CanInsert(L, g, r) == r # "" /\ r # "-" /\ Known(L, r)
Insert(g, r) ==
  LET c == g.cur IN
  [rd |-> InsertAt(g.rd, c, r), cur |-> c + 1,
   ov |-> {[o EXCEPT !.p = IF @ >= c THEN @ + 1 ELSE @] :
              o \in {x \in g.ov : ~(x.p < c /\ c < x.p + x.n)}}]
\* Remove the reading at 0-based index i.
RemoveReading(g, i) ==
  [rd |-> RemoveAt0(g.rd, i), cur |-> IF i < g.cur THEN g.cur - 1 ELSE g.cur,
   ov |-> {[o EXCEPT !.p = IF @ > i THEN @ - 1 ELSE @] :
              o \in {x \in g.ov : ~Covers(x.p, x.n, i)}}]
DeleteBefore(g) == RemoveReading(g, g.cur - 1)
DeleteAfter(g) == RemoveReading(g, g.cur)

------------------------------------------------------------------------
(* Choosing.  The place at the very end refers to the last reading. *)
Place(g, loc) == IF loc = Len(g.rd) THEN loc - 1 ELSE loc
ValidPlace(g, loc) == loc >= 0 /\ loc <= Len(g.rd) /\ Len(g.rd) > 0
CellsCovering(T, g, loc) == IF ~ValidPlace(g, loc) THEN {}
                            ELSE {c \in DOMAIN T : Covers(c[1], c[2], Place(g, loc))}
HasValue(us, v) == \E i \in DOMAIN us : us[i].v = v
\* Phrases a choice of value v (with reading r, or any reading if r = "*") may fall on.
Choosable(T, g, loc, r, v) ==
  {c \in CellsCovering(T, g, loc) : (r = "*" \/ T[c].r = r) /\ HasValue(T[c].u, v)}
ChooseCell(g, c, v, ty) ==
  [g EXCEPT !.ov = {o \in @ : ~Overlaps(o.p, o.n, c[1], c[2])}
                     \cup {[p |-> c[1], n |-> c[2], v |-> v, ty |-> ty]}]
\* The order in which the implementation looks for the phrase to choose.
FirstCell(S, loc) ==
  CHOOSE c \in S : \A d \in S :
     \/ c = d
     \/ c[1] = loc /\ d[1] = loc /\ c[2] < d[2]
     \/ c[1] = loc /\ d[1] # loc
     \/ c[1] # loc /\ d[1] # loc /\ (c[1] < d[1] \/ (c[1] = d[1] /\ c[2] < d[2]))
ChooseFirst(T, g, loc, r, v, ty) ==
  LET S == Choosable(T, g, loc, r, v)
  IN IF S = {} THEN g ELSE ChooseCell(g, FirstCell(S, Place(g, loc)), v, ty)

\* All values selectable at a place, as <<reading, value>>, as a sequence:
\* longer phrases first, descending score within a phrase.
RECURSIVE SeqOfCells(_, _)
SeqOfCells(S, loc) ==   \* by length descending, then implementation order
  IF S = {} THEN <<>>
  ELSE LET n == MaxOf({c[2] : c \in S})
           W == {c \in S : c[2] = n}
           f == FirstCell(W, loc)
       IN <<f>> \o SeqOfCells(S \ {f}, loc)
CandOf(T, c) == [i \in DOMAIN T[c].u |-> <<T[c].r, T[c].u[i].v>>]
RECURSIVE CandFrom(_, _)
CandFrom(T, cs) == IF cs = <<>> THEN <<>> ELSE CandOf(T, Head(cs)) \o CandFrom(T, Tail(cs))
Candidates(T, g, loc) ==
  IF ~ValidPlace(g, loc) THEN <<>> ELSE CandFrom(T, SeqOfCells(CellsCovering(T, g, loc), Place(g, loc)))

------------------------------------------------------------------------
(* Conversion: best[i+1] is the best total score of a split of the readings
   from place i on; best[Len+1] = 0. *)
NoWay == -2000000000
Opts(T, g, acc, i) ==   \* acc[k] is the best score from place i+k on
  {n \in 1..MaxSpan : <<i, n>> \in DOMAIN T /\ acc[n] # NoWay}
RECURSIVE BestFrom(_, _, _, _)
BestFrom(T, g, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET opts == Opts(T, g, acc, i)
           b == IF opts = {} THEN NoWay ELSE MaxOf({CellScore(T, g, <<i, n>>) + acc[n] : n \in opts})
       IN BestFrom(T, g, i-1, <<b>> \o acc)
BestSuffix(T, g) == BestFrom(T, g, Len(g.rd)-1, <<0>>)
BestScore(T, g) == BestSuffix(T, g)[1]
\* Lengths of the phrases that can start a best split from place i on.
BestSteps(T, g, best, i) ==
  {n \in 1..MaxSpan : /\ <<i, n>> \in DOMAIN T /\ best[i+n+1] # NoWay
                      /\ CellScore(T, g, <<i, n>>) + best[i+n+1] = best[i+1]}

\* A best split as a sequence of <<start, length>>, and whether it is the only one.
RECURSIVE BestWalkFrom(_, _, _, _)
BestWalkFrom(T, g, best, i) ==
  IF i >= Len(g.rd) THEN <<>>
  ELSE LET n == CHOOSE k \in BestSteps(T, g, best, i) : TRUE
       IN <<<<i, n>>>> \o BestWalkFrom(T, g, best, i+n)
BestWalk(T, g) == BestWalkFrom(T, g, BestSuffix(T, g), 0)
RECURSIVE OneWay(_, _, _, _)
OneWay(T, g, best, i) ==
  \/ i >= Len(g.rd)
  \/ LET ns == BestSteps(T, g, best, i)
     IN Cardinality(ns) = 1 /\ OneWay(T, g, best, i + (CHOOSE k \in ns : TRUE))
UniqueBest(T, g) == OneWay(T, g, BestSuffix(T, g), 0)

\* A walk is a sequence of <<start, length>> covering everything in order.
RECURSIVE WalkCovers(_, _)
WalkCovers(w, i) == IF w = <<>> THEN i ELSE IF Head(w)[1] # i THEN -1 ELSE WalkCovers(Tail(w), i + Head(w)[2])
ValidWalk(T, g, w) == WalkCovers(w, 0) = Len(g.rd) /\ \A i \in DOMAIN w : w[i] \in DOMAIN T
WalkScore(T, g, w) == SumSeq([i \in DOMAIN w |-> CellScore(T, g, w[i])])

\* Index (0-based) of the phrase a place falls into; the end belongs to the last one.
RECURSIVE NodeIx(_, _, _)
NodeIx(w, i, loc) == IF Covers(w[i][1], w[i][2], loc) THEN i - 1 ELSE NodeIx(w, i+1, loc)
NodeIndexAt(w, total, loc) == IF w = <<>> \/ loc > total THEN -1 ELSE NodeIx(w, 1, Min(loc, total-1))

------------------------------------------------------------------------
(* Well-formedness, checked in every state of the model and of every trace. *)
GridOK(T, g) ==
  /\ g.cur \in 0..Len(g.rd)
  /\ \A o \in g.ov : /\ <<o.p, o.n>> \in DOMAIN T
                     /\ HasValue(T[<<o.p, o.n>>].u, o.v)
                     /\ o.ty \in {1, 2}
                     /\ \A q \in g.ov : q = o \/ ~Overlaps(o.p, o.n, q.p, q.n)

\* With the raised score large enough for the model at hand, a chosen phrase is
\* part of every best split.
LowestSingle(T, g) == MinOf({T[<<i, 1>>].u[1].s : i \in 0..Len(g.rd)-1})
RaisedSuffices(T, g) == g.rd # <<>> /\ Raised + 10 * LowestSingle(T, g) > 0
                        /\ \A c \in DOMAIN T : T[c].u[1].s <= 0
ChosenShown(g, w) == \A o \in g.ov : o.ty = 1 => <<o.p, o.n>> \in Range(w)
===========================================================================
