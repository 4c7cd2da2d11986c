------------------------------- MODULE Sorted -------------------------------
(* Sorted dictionaries: a file is a sequence of lines (sequences of bytes), in
   byte order, with or without a final newline.  Looking up a key gives the
   lines that begin with it, in file order.  The second half is the binary
   search, step by step, over the bytes of the file. *)
EXTENDS Util
NL == 10
SP == 32

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i+1)
Less(a, b) == LessFrom(a, b, 1)
InOrder(ls) == \A i \in 1..(Len(ls)-1) : ~Less(ls[i+1], ls[i])
WellFormed(ls) == InOrder(ls) /\ \A i \in DOMAIN ls : ls[i] # <<>> /\ \A j \in DOMAIN ls[i] : ls[i][j] > NL

Begins(line, key) == Len(line) >= Len(key) /\ SubSeq(line, 1, Len(key)) = key
Matching(ls, key) == SelectSeq(ls, LAMBDA x : Begins(x, key))
RECURSIVE OffsetOf(_, _)
OffsetOf(ls, i) == IF i <= 1 THEN 0 ELSE OffsetOf(ls, i-1) + Len(ls[i-1]) + 1
FirstIndex(ls, key) == LET S == {i \in DOMAIN ls : Begins(ls[i], key)} IN IF S = {} THEN 0 ELSE MinOf(S)
FirstOffset(ls, key) == IF key = <<>> THEN 0
                        ELSE IF FirstIndex(ls, key) = 0 THEN -1 ELSE OffsetOf(ls, FirstIndex(ls, key))

\* Fields of a line "key value score".
Cut(line) == LET S == {i \in DOMAIN line : line[i] = SP} IN IF S = {} THEN Len(line) + 1 ELSE MinOf(S)
KeyOf(line) == SubSeq(line, 1, Cut(line) - 1)
Rest(line) == SubSeq(line, Cut(line) + 1, Len(line))
ValueOf(line) == KeyOf(Rest(line))
HasValue(line) == Cut(line) < Len(line)
HasScore(line) == Cut(Rest(line)) < Len(Rest(line))
\* A run of spaces after the key counts as one separator.
RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[1] = SP THEN Trim(Tail(b)) ELSE b
Carrying(ls, v) == SelectSeq(ls, LAMBDA x : HasValue(x) /\ Begins(Trim(Rest(x)), v))
\* What a language model answers; sc[i] is the score of the i-th line.
Idx(ls, P(_)) == LET RECURSIVE F(_)
                     F(i) == IF i > Len(ls) THEN <<>> ELSE (IF P(ls[i]) THEN <<i>> ELSE <<>>) \o F(i+1)
                 IN F(1)
Unigrams(ls, sc, key) == LET I == Idx(ls, LAMBDA x : Begins(x, Append(key, SP)))
                         IN [j \in DOMAIN I |-> <<ValueOf(ls[I[j]]), sc[I[j]]>>]
Readings(ls, sc, v) == LET I == Idx(ls, LAMBDA x : HasValue(x) /\ Begins(Rest(x), Append(v, SP)))
                       IN [j \in DOMAIN I |-> <<KeyOf(ls[I[j]]), sc[I[j]]>>]

--------------------------------------------------------------------------
(* Binary search over bytes 0..n-1 of the content: probe the line around the
   middle of [top, bottom); a line too short to hold the key counts as smaller. *)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o Flat(Tail(ls))
Content(ls, term) == IF term /\ ls # <<>> THEN Append(Flat(ls), NL) ELSE Flat(ls)
At(c, p) == c[p+1]
LineStart(c, p) == LET S == {q \in 0..(p-1) : At(c, q) = NL} IN IF S = {} THEN 0 ELSE MaxOf(S) + 1
\* -1, 0, 1 as the bytes at p are smaller than, begin with, or are greater than key.
RECURSIVE CompareFrom(_, _, _, _)
CompareFrom(c, p, key, i) ==
  IF i > Len(key) THEN 0 ELSE IF p + i > Len(c) THEN -1
  ELSE IF c[p+i] # key[i] THEN (IF c[p+i] < key[i] THEN -1 ELSE 1) ELSE CompareFrom(c, p, key, i+1)
Compare(c, p, key) == CompareFrom(c, p, key, 1)
Probe(c, key, top, bottom) ==
  LET mid == top + ((bottom - top) \div 2)
      p == LineStart(c, mid)
      cmp == Compare(c, p, key)
      prev == LineStart(c, p - 1)
  IN IF cmp > 0 THEN [top |-> top, bottom |-> mid - 1, res |-> -2]
     ELSE IF cmp < 0 THEN [top |-> mid + 1, bottom |-> bottom, res |-> -2]
     ELSE IF p = 0 \/ Compare(c, prev, key) < 0 THEN [top |-> top, bottom |-> bottom, res |-> p]
     ELSE [top |-> top, bottom |-> mid - 1, res |-> -2]
===========================================================================
