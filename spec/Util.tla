------------------------------- MODULE Util -------------------------------
(* Operators shared by all component specifications. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(s, i, n, sep) ==        \* s[i] sep ... sep s[i+n-1]
  IF n <= 0 THEN "" ELSE IF n = 1 THEN s[i] ELSE s[i] \o sep \o JoinFrom(s, i+1, n-1, sep)
Join(s, sep) == JoinFrom(s, 1, Len(s), sep)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE ConcatStr(_)
ConcatStr(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatStr(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i+1, Len(s))   \* after i elements
RemoveAt0(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i+2, Len(s))              \* 0-based index i


Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Str(x) == x
Fld(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
If(c, s) == IF c THEN s ELSE {}
===========================================================================
