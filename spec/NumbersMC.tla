------------------------------ MODULE NumbersMC ------------------------------
(* Numerals read back: an independent reader of Chinese and Suzhou numerals gets
   the number that was entered, for every entry over the digits and lengths
   given.  In particular no two numbers share a numeral. *)
EXTENDS Numbers, TLC, Json
CONSTANTS Digits, MaxInt, MaxDec, OneIn
VARIABLES int, dec, pt
vars == <<int, dec, pt>>
Init == int = <<>> /\ dec = <<>> /\ pt = FALSE
Next == \/ ~pt /\ Len(int) < MaxInt /\ \E d \in Digits : int' = Append(int, d) /\ UNCHANGED <<dec, pt>>
        \/ ~pt /\ int # <<>> /\ pt' = TRUE /\ UNCHANGED <<int, dec>>
        \/ pt /\ Len(dec) < MaxDec /\ \E d \in Digits : dec' = Append(dec, d) /\ UNCHANGED <<int, pt>>
Spec == Init /\ [][Next]_vars

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
IndexIn(x, seq) == LET S == {i \in DOMAIN seq : seq[i] = x} IN IF S = {} THEN -1 ELSE MinOf(S) - 1
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n-1)
RECURSIVE Value(_)
Value(ds) == IF ds = <<>> THEN 0 ELSE 10 * Value(SubSeq(ds, 1, Len(ds)-1)) + ds[Len(ds)]

\* The reader adds up: a digit waits for its unit, a section for its higher place.
RECURSIVE Read(_, _, _, _, _, _, _)
Read(cs, i, D, P, dig, sec, tot) ==
  IF i > Len(cs) THEN tot + sec + dig
  ELSE LET c == cs[i] d == IndexIn(c, D) p == IndexIn(c, P) h == IndexIn(c, HigherP) IN
       IF d >= 0 THEN Read(cs, i+1, D, P, d, sec, tot)
       ELSE IF p > 0 THEN Read(cs, i+1, D, P, 0, sec + dig * Pow10(p), tot)
       ELSE IF h > 0 THEN Read(cs, i+1, D, P, 0, 0, tot + (sec + dig) * Pow10(4*h))
       ELSE -1
SplitAt(cs, x) == IndexIn(x, cs)
ReadsBack(upper) ==
  LET D == IF upper THEN UpperD ELSE LowerD
      P == IF upper THEN UpperP ELSE LowerP
      cs == Chars(ChineseNumeral(int, dec, upper))
      k == SplitAt(cs, "點")
      whole == IF k < 0 THEN cs ELSE SubSeq(cs, 1, k)
      frac == IF k < 0 THEN <<>> ELSE SubSeq(cs, k+2, Len(cs))
  IN /\ Read(whole, 1, D, P, 0, 0, 0) = Value(int)
     /\ [i \in DOMAIN frac |-> IndexIn(frac[i], D)] = TrimEnd(dec)
Chinese == ReadsBack(FALSE) /\ ReadsBack(TRUE)

\* Suzhou: the digits in order, then the place of the first one.
SuzhouDigitOf(c) == LET v == IndexIn(c, VertD) h == IndexIn(c, HorzD) t == IndexIn(c, TensD)
                    IN IF v >= 0 THEN v ELSE IF h >= 0 THEN h ELSE t + 1
Suzhou ==
  \A vert \in BOOLEAN :
    LET text == SuzhouNumeral(int, dec, "", vert)
        cs == Chars(text)
        n == Len(TrimStart(int))
        tens == cs # <<>> /\ IndexIn(cs[1], TensD) >= 0
        digits == {i \in DOMAIN cs : IndexIn(cs[i], VertD) >= 0 \/ IndexIn(cs[i], HorzD) >= 0 \/ IndexIn(cs[i], TensD) >= 0}
        k == IF \E i \in DOMAIN cs : i \notin digits THEN MinOf({i \in DOMAIN cs : i \notin digits}) - 1 ELSE Len(cs)
        read == [i \in 1..k |-> SuzhouDigitOf(cs[i])]
        all == TrimStart(int) \o TrimEnd(dec)
    IN /\ cs # <<>>
       /\ IF n = 0 THEN read = <<0>> \o TrimEnd(dec)
          ELSE /\ IsPrefixOf(read, all)
               /\ \A i \in (k+1)..Len(all) : all[i] = 0
               /\ (tens => n = 2 /\ k = 1)
       \* no two neighbouring signs of the run kind point the same way
       /\ \A i \in 1..(k-1) : (read[i] \in {1,2,3} /\ read[i+1] \in {1,2,3}) => (IndexIn(cs[i], VertD) >= 0) # (IndexIn(cs[i+1], VertD) >= 0)
Emit == IF RandomElement(1..OneIn) = 1 THEN PrintT("SCN " \o ToJson([s |-> ToString(<<Len(int'), Len(dec')>>), h |-> [i |-> int', d |-> dec']])) ELSE TRUE
===========================================================================
