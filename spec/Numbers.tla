------------------------------ MODULE Numbers ------------------------------
(* What the number entry commits: Chinese numerals (lower-case and financial)
   and Suzhou numerals, as functions of the digits entered. *)
EXTENDS Util

LowerD == <<"〇", "一", "二", "三", "四", "五", "六", "七", "八", "九">>
UpperD == <<"零", "壹", "貳", "參", "肆", "伍", "陸", "柒", "捌", "玖">>
LowerP == <<"", "十", "百", "千">>
UpperP == <<"", "拾", "佰", "仟">>
HigherP == <<"", "萬", "億", "兆", "京", "垓", "秭", "穰", "溝", "澗", "正", "載">>
VertD == <<"〇", "〡", "〢", "〣", "〤", "〥", "〦", "〧", "〨", "〩">>
HorzD == <<"〇", "一", "二", "三">>
TensD == <<"〸", "〹", "〺">>
SuzhouUnits == <<"", "十", "百", "千">>
SuzhouHigher == <<"", "万", "億", "兆", "京", "垓", "秭", "穰">>

RECURSIVE TrimStart(_)
TrimStart(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN TrimStart(Tail(ds)) ELSE ds
RECURSIVE TrimEnd(_)
TrimEnd(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN TrimEnd(SubSeq(ds, 1, Len(ds)-1)) ELSE ds

\* ds[i] stands for ds[i] * 10^(Len(ds)-i); four digits form a section.
FromRight(ds, i) == Len(ds) - i
Section(ds, i) == FromRight(ds, i) \div 4
SectionEmpty(ds, s) == \A i \in DOMAIN ds : Section(ds, i) = s => ds[i] = 0
\* A digit is preceded by a zero sign if zeros precede it in its section, or its
\* section opens right after an empty one.
NeedsZero(ds, i) == i > 1 /\ ds[i-1] = 0
                    /\ (Section(ds, i-1) = Section(ds, i) \/ SectionEmpty(ds, Section(ds, i-1)))
DigitText(ds, i, D, P) ==
  (IF ds[i] = 0 THEN ""
   ELSE (IF NeedsZero(ds, i) THEN D[1] ELSE "") \o D[ds[i]+1] \o P[(FromRight(ds, i) % 4) + 1])
  \o (IF FromRight(ds, i) % 4 = 0 /\ ~SectionEmpty(ds, Section(ds, i))
      THEN HigherP[Section(ds, i) + 1] ELSE "")
ChineseNumeral(int, dec, upper) ==
  LET D == IF upper THEN UpperD ELSE LowerD
      P == IF upper THEN UpperP ELSE LowerP
      a == TrimStart(int)
      b == TrimEnd(dec)
  IN (IF a = <<>> THEN D[1] ELSE ConcatStr([i \in DOMAIN a |-> DigitText(a, i, D, P)]))
     \o (IF b = <<>> THEN "" ELSE "點" \o ConcatStr([i \in DOMAIN b |-> D[b[i]+1]]))

\* Within a run of ones, twos and threes vertical and horizontal signs alternate.
RECURSIVE RunBefore(_, _)
RunBefore(ds, i) == IF i < 1 \/ ds[i] \notin {1, 2, 3} THEN 0 ELSE 1 + RunBefore(ds, i-1)
SuzhouDigit(ds, i, vert) ==
  IF ds[i] \in {1, 2, 3}
  THEN IF (RunBefore(ds, i-1) % 2 = 0) = vert THEN VertD[ds[i]+1] ELSE HorzD[ds[i]+1]
  ELSE VertD[ds[i]+1]
PlaceName(p) == IF p % 4 = 0 THEN SuzhouHigher[p \div 4 + 1]
                ELSE SuzhouUnits[(p % 4) + 1] \o SuzhouHigher[p \div 4 + 1]
SuzhouNumeral(int, dec, unit, vert) ==
  LET a0 == TrimStart(int)
      b == TrimEnd(dec)
      a1 == IF b = <<>> THEN TrimEnd(a0) ELSE a0
      zeros == Len(a0) - Len(a1)
      a == IF a1 = <<>> THEN <<0>> ELSE a1
      ds == a \o b
      text == ConcatStr([i \in DOMAIN ds |-> SuzhouDigit(ds, i, vert)])
  IN IF Len(ds) = 1 /\ zeros = 0 THEN text \o unit
     ELSE IF Len(ds) = 1 /\ zeros = 1 /\ ds[1] \in {1, 2, 3} THEN TensD[ds[1]] \o unit
     ELSE text \o (IF Len(ds) > 1 THEN "\n" ELSE "") \o PlaceName(Len(a) + zeros - 1) \o unit

DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E d \in 1..10 : DigitChars[d] = ch
DigitOf(ch) == (CHOOSE d \in 1..10 : DigitChars[d] = ch) - 1
\* An entry is a sequence of characters: digits and at most one point.
PointAt(num) == LET P == {i \in DOMAIN num : num[i] = "."} IN IF P = {} THEN 0 ELSE MinOf(P)
IntDigits(num) == LET p == PointAt(num)
                      s == IF p = 0 THEN num ELSE SubSeq(num, 1, p-1)
                  IN [i \in DOMAIN s |-> DigitOf(s[i])]
DecDigits(num) == LET p == PointAt(num)
                      s == IF p = 0 THEN <<>> ELSE SubSeq(num, p+1, Len(num))
                  IN [i \in DOMAIN s |-> DigitOf(s[i])]
NumeralOf(num, style) ==
  CASE style = "LOWER" -> ChineseNumeral(IntDigits(num), DecDigits(num), FALSE)
    [] style = "UPPER" -> ChineseNumeral(IntDigits(num), DecDigits(num), TRUE)
    [] style = "SUZHOU" -> SuzhouNumeral(IntDigits(num), DecDigits(num), "單位", TRUE)
===========================================================================
