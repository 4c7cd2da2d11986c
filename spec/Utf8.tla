-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 text as an automaton over bytes (RFC 3629): where characters end, and
   what counting, cutting and splitting a byte string must give.  Text counts up
   to its first byte that cannot belong to a character. *)
EXTENDS Util

\* State: how many continuation bytes are missing and the range of the next one.
Start == [need |-> 0, lo |-> 0, hi |-> 0]
Dead == [need |-> -1, lo |-> 0, hi |-> 0]
Wait(n, lo, hi) == [need |-> n, lo |-> lo, hi |-> hi]
After(s, b) ==
  IF s.need = -1 THEN Dead
  ELSE IF s.need > 0 THEN IF b < s.lo \/ b > s.hi THEN Dead
                          ELSE IF s.need = 1 THEN Start ELSE Wait(s.need - 1, 128, 191)
  ELSE IF b <= 127 THEN Start
  ELSE IF b < 194 THEN Dead                      \* continuation, or overlong
  ELSE IF b <= 223 THEN Wait(1, 128, 191)
  ELSE IF b = 224 THEN Wait(2, 160, 191)         \* no overlong form
  ELSE IF b = 237 THEN Wait(2, 128, 159)         \* no surrogates
  ELSE IF b <= 239 THEN Wait(2, 128, 191)
  ELSE IF b = 240 THEN Wait(3, 144, 191)
  ELSE IF b <= 243 THEN Wait(3, 128, 191)
  ELSE IF b = 244 THEN Wait(3, 128, 143)         \* nothing beyond U+10FFFF
  ELSE Dead

RECURSIVE EndsFrom(_, _, _, _)
EndsFrom(bs, i, s, acc) ==       \* acc: the ends of the characters of bs[1..i]
  IF i = Len(bs) THEN acc
  ELSE LET n == After(s, bs[i+1]) IN
       IF n = Dead THEN acc
       ELSE EndsFrom(bs, i+1, n, IF n = Start THEN Append(acc, i+1) ELSE acc)
Ends(bs) == EndsFrom(bs, 0, Start, <<>>)

CountOf(bs) == Len(Ends(bs))
BeginOf(es, k) == IF k = 1 THEN 1 ELSE es[k-1] + 1
CharsOf(bs) == LET es == Ends(bs) IN [k \in DOMAIN es |-> SubSeq(bs, BeginOf(es, k), es[k])]
PrefixOf(bs, n) == LET es == Ends(bs) m == Min(n, Len(es)) IN IF m = 0 THEN <<>> ELSE SubSeq(bs, 1, es[m])

\* The code point a character stands for, and back.
Lead(c) == IF Len(c) = 1 THEN c[1] ELSE IF Len(c) = 2 THEN c[1] % 32 ELSE IF Len(c) = 3 THEN c[1] % 16 ELSE c[1] % 8
RECURSIVE Cont(_, _, _)
Cont(c, i, v) == IF i > Len(c) THEN v ELSE Cont(c, i+1, v * 64 + (c[i] % 64))
CodePoint(c) == Cont(c, 2, Lead(c))
Encode(p) == IF p < 128 THEN <<p>>
             ELSE IF p < 2048 THEN <<192 + (p \div 64), 128 + (p % 64)>>
             ELSE IF p < 65536 THEN <<224 + (p \div 4096), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
             ELSE <<240 + (p \div 262144), 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
Scalar(p) == (p >= 0 /\ p < 55296) \/ (p > 57343 /\ p <= 1114111)
===========================================================================
