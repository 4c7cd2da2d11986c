-------------------------------- MODULE Blob --------------------------------
(* User-editable files: the first two words of every line that is neither blank
   nor a comment.  Bytes are integers; a NUL byte ends the file. *)
EXTENDS Util
IsNL(c) == c \in {10, 13}
IsBlank(c) == c \in {32, 9}
IsWord(c) == ~IsNL(c) /\ ~IsBlank(c)
Hash == 35

--------------------------------------------------------------------------
(* What the file means. *)
UpTo(b, P(_)) == LET S == {i \in DOMAIN b : P(b[i])} IN IF S = {} THEN Len(b) ELSE MinOf(S) - 1
Effective(b) == SubSeq(b, 1, UpTo(b, LAMBDA c : c = 0))
DropWhile(b, P(_)) == LET S == {i \in DOMAIN b : ~P(b[i])} IN IF S = {} THEN <<>> ELSE SubSeq(b, MinOf(S), Len(b))
RECURSIVE LinesOf(_)
LinesOf(b) == IF b = <<>> THEN <<>>
              ELSE LET n == UpTo(b, IsNL) IN <<SubSeq(b, 1, n)>> \o LinesOf(SubSeq(b, n+2, Len(b)))
Word1(x) == SubSeq(x, 1, UpTo(x, IsBlank))
AfterWord(x) == DropWhile(SubSeq(x, UpTo(x, IsBlank) + 1, Len(x)), IsBlank)
Trimmed(x) == DropWhile(x, IsBlank)
Meant(b) == LET L == LinesOf(Effective(b))
                T == [i \in DOMAIN L |-> Trimmed(L[i])]
            IN SelectSeq(T, LAMBDA x : x # <<>> /\ x[1] # Hash)
RECURSIVE PairsOf(_)
PairsOf(xs) == IF xs = <<>> THEN <<>>
               ELSE IF AfterWord(xs[1]) = <<>> THEN <<>>
               ELSE <<[k |-> Word1(xs[1]), v |-> Word1(AfterWord(xs[1]))]>> \o PairsOf(Tail(xs))
\* All pairs, then "end" or "error".
Pairs(b) == PairsOf(Meant(b))
EndOf(b) == IF Len(Pairs(b)) = Len(Meant(b)) THEN "end" ELSE "error"
Reading(b) == LET M == Meant(b) P == PairsOf(M)
              IN [ps |-> P, st |-> IF Len(P) = Len(M) THEN "end" ELSE "error"]
\* Phrase lookups: user files list "phrase reading", replacements "from to".
PhrasesFor(ps, reading) == LET I == SelectSeq(ps, LAMBDA p : p.v = reading) IN [i \in DOMAIN I |-> I[i].k]
ReplacementFor(ps, x) == LET I == SelectSeq(ps, LAMBDA p : p.k = x) IN IF I = <<>> THEN <<>> ELSE I[Len(I)].v

--------------------------------------------------------------------------
(* The reader: one byte at a time.  st: where in a line we are; k, v: words so
   far; out: pairs delivered. *)
Reader0 == [st |-> "start", k |-> <<>>, v |-> <<>>, out |-> <<>>]
Deliver(r, st) == [st |-> st, k |-> <<>>, v |-> <<>>, out |-> Append(r.out, [k |-> r.k, v |-> r.v])]
Feed(r, c) ==
  CASE r.st \in {"end", "error"} -> r
    [] r.st = "start" -> IF c = 0 THEN [r EXCEPT !.st = "end"]
                         ELSE IF ~IsWord(c) THEN r
                         ELSE IF c = Hash THEN [r EXCEPT !.st = "rest"]
                         ELSE [r EXCEPT !.st = "key", !.k = <<c>>]
    [] r.st = "key" -> IF c = 0 \/ IsNL(c) THEN [r EXCEPT !.st = "error"]
                       ELSE IF IsBlank(c) THEN [r EXCEPT !.st = "gap"]
                       ELSE [r EXCEPT !.k = Append(@, c)]
    [] r.st = "gap" -> IF c = 0 \/ IsNL(c) THEN [r EXCEPT !.st = "error"]
                       ELSE IF IsBlank(c) THEN r
                       ELSE [r EXCEPT !.st = "val", !.v = <<c>>]
    [] r.st = "val" -> IF c = 0 THEN Deliver(r, "end")
                       ELSE IF IsNL(c) THEN Deliver(r, "start")
                       ELSE IF IsBlank(c) THEN Deliver(r, "rest")
                       ELSE [r EXCEPT !.v = Append(@, c)]
    [] r.st = "rest" -> IF c = 0 THEN [r EXCEPT !.st = "end"]
                        ELSE IF IsNL(c) THEN [r EXCEPT !.st = "start"] ELSE r
Finish(r) == Feed(r, 0)        \* the end of the file
===========================================================================
