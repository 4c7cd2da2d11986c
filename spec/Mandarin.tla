------------------------------ MODULE Mandarin ------------------------------
(* Bopomofo syllables, keyboards, Hanyu Pinyin, and the buffer of the unfinished
   syllable.  A syllable is <<consonant, middle vowel, vowel, tone mark>>, each
   0 (none) or a number in MandarinTables!Names. *)
EXTENDS Util, MandarinTables
Nil == <<0, 0, 0, 0>>
Over(a, b) == [i \in 1..4 |-> IF b[i] # 0 THEN b[i] ELSE a[i]]
Comp(c) == [i \in 1..4 |-> IF i = c[1] THEN c[2] ELSE 0]
Put(s, c) == [s EXCEPT ![c[1]] = c[2]]
\* Which kinds a syllable has, as a number in which later kinds weigh more.
Bit(x, w) == IF x # 0 THEN w ELSE 0
Kinds(s) == Bit(s[1], 1) + Bit(s[2], 2) + Bit(s[3], 4) + Bit(s[4], 8)
Toned(s, t) == [s EXCEPT ![4] = t]
RECURSIVE ShowFrom(_, _)
ShowFrom(s, i) == IF i > 4 THEN "" ELSE (IF s[i] # 0 THEN Names[i][s[i]] ELSE "") \o ShowFrom(s, i + 1)
Show(s) == ShowFrom(s, 1)
CompNamed(n) == CHOOSE c \in UNION {{i} \X (DOMAIN Names[i]) : i \in 1..4} : Names[c[1]][c[2]] = n
AllComps == UNION {{i} \X (DOMAIN Names[i]) : i \in 1..4}
CompOf == [n \in {Names[c[1]][c[2]] : c \in AllComps} |-> CompNamed(n)]

---------------------------------------------------------------------------
(* Keyboards. *)
KeyOf == [lay \in LayoutNames |-> [c \in AllComps |->
            CHOOSE k \in Keys[lay] : \E i \in DOMAIN KeyComps[lay][k] : KeyComps[lay][k][i] = c]]
Shared(lay) == \E k \in Keys[lay] : Len(KeyComps[lay][k]) > 1
\* The keys of a syllable, in order.
KeysOf(lay, s) == Concat([i \in 1..4 |-> IF s[i] # 0 THEN <<KeyOf[lay][<<i, s[i]>>]>> ELSE <<>>])
JQX(c) == c[1] = 1 /\ c[2] \in 12..14
ZCSR(c) == c[1] = 1 /\ c[2] \in 15..21
Eh == <<3, 4>>
IorUE(lay) == {KeyOf[lay][<<2, 1>>], KeyOf[lay][<<2, 3>>]}
ToneKeys(lay) == {KeyOf[lay][<<4, i>>] : i \in 1..4}

\* What the i-th key of a sequence adds to the syllable a composed so far.
\* A key with several components stands for the one that fits.
Adds(lay, ks, i, a) ==
  LET cs == KeyComps[lay][ks[i]]
      head == cs[1]
      follow == cs[2]
      ending == IF Len(cs) > 2 THEN cs[3] ELSE follow
      before == \E j \in 1..(i-1) : ks[j] \in IorUE(lay)
      ahead == \E j \in (i+1)..Len(ks) : ks[j] \in IorUE(lay)
      closing == i = Len(ks) \/ ks[i+1] \in ToneKeys(lay)
      jqx == IF JQX(head) THEN head ELSE follow
      other == IF JQX(head) THEN follow ELSE head
  IN CASE Len(cs) = 1 -> Put(a, head)
       [] (head = Eh) # (follow = Eh) -> Put(a, IF (head = Eh) = before THEN head ELSE follow)
       [] JQX(head) # JQX(follow) ->
            IF a # Nil THEN (IF ending # follow THEN Put(a, ending) ELSE a)
            ELSE Put(a, IF ahead THEN jqx ELSE other)
       [] Len(ks) = 1 ->
            IF head[1] = 3 \/ follow[1] = 4 \/ ZCSR(head) THEN Put(a, head)
            ELSE IF follow[1] = 3 \/ ending[1] = 4 THEN Put(a, follow) ELSE Put(a, ending)
       [] a[head[1]] = 0 /\ ~closing -> Put(a, head)
       [] closing /\ ZCSR(head) /\ a = Nil -> Put(a, head)
       [] Kinds(a) < Kinds(Comp(follow)) -> Put(a, follow)
       [] OTHER -> Put(a, ending)
RECURSIVE FromKeysAt(_, _, _, _)
FromKeysAt(lay, ks, i, a) ==
  IF i > Len(ks) THEN a
  ELSE FromKeysAt(lay, ks, i + 1, IF ks[i] \in Keys[lay] THEN Adds(lay, ks, i, a) ELSE a)
\* In the Hsu keyboard a lone eng is er, and gi, giu are ji, jiu.
HsuTouch(s) == IF s[3] = 12 /\ s[1] = 0 /\ s[2] = 0 THEN [s EXCEPT ![3] = 13]
               ELSE IF s[1] = 9 /\ s[2] \in {1, 3} THEN [s EXCEPT ![1] = 12] ELSE s
FromKeys(lay, ks) == LET s == FromKeysAt(lay, ks, 1, Nil) IN IF lay = "Hsu" THEN HsuTouch(s) ELSE s

---------------------------------------------------------------------------
(* Hanyu Pinyin, in the tolerant spelling the code documents. *)
Rest(p, n) == SubSeq(p, n + 1, Len(p))
\* The first of the prefixes rs (sequence of [p, to]) that p starts with, or 0.
FirstOf(p, rs) == LET I == {i \in DOMAIN rs : StartsWith(p, rs[i].p)} IN IF I = {} THEN 0 ELSE MinOf(I)
R(p, m, v) == [p |-> p, m |-> m, v |-> v]
YRules == <<R("yuan", 3, 9), R("ying", 1, 12), R("yung", 3, 12), R("yong", 3, 12), R("yue", 3, 4),
            R("yun", 3, 10), R("you", 1, 8), R("yu", 3, 0)>>
Simple == "bpmfdtnlgkhjqx"
Independent == <<[p |-> "zh", c |-> 15], [p |-> "ch", c |-> 16], [p |-> "sh", c |-> 17], [p |-> "r", c |-> 18],
                 [p |-> "z", c |-> 19], [p |-> "c", c |-> 20], [p |-> "s", c |-> 21]>>
Finals == <<R("veng", 3, 12), R("iong", 3, 12), R("ing", 1, 12), R("ien", 1, 10), R("iou", 1, 8), R("uen", 2, 10),
            R("ven", 3, 10), R("uei", 2, 6), R("ung", 2, 12), R("ong", 2, 12), R("un", 2, 10), R("iu", 1, 8),
            R("in", 1, 10), R("vn", 3, 10), R("ui", 2, 6), R("ue", 3, 4), R("ü", 3, 0)>>
Vowels == <<R("ang", 0, 11), R("eng", 0, 12), R("err", 0, 13), R("ai", 0, 5), R("ei", 0, 6), R("ao", 0, 7), R("ou", 0, 8),
            R("an", 0, 9), R("en", 0, 10), R("er", 0, 13), R("a", 0, 1), R("o", 0, 2), R("e", 0, 3)>>
Char1(p) == IF p = "" THEN "" ELSE SubSeq(p, 1, 1)
PosIn(ch, s) == LET I == {i \in 1..Len(s) : SubSeq(s, i, i) = ch} IN IF ch = "" \/ I = {} THEN 0 ELSE MinOf(I)
\* Each step takes and gives [p: what is left, s: the syllable, ind: an independent consonant was read].
PyY(x) == LET i == FirstOf(x.p, YRules)
          IN IF i = 0 THEN x ELSE [x EXCEPT !.p = Rest(x.p, Len(YRules[i].p)), !.s = <<0, YRules[i].m, YRules[i].v, 0>>]
PyFirst(x) == LET c == Char1(x.p) n == PosIn(c, Simple)
              IN IF n # 0 THEN [x EXCEPT !.p = Rest(x.p, 1), !.s[1] = n]
                 ELSE IF c = "w" THEN [x EXCEPT !.p = Rest(x.p, 1), !.s[2] = 2]
                 ELSE IF c = "y" THEN [x EXCEPT !.p = Rest(x.p, 1), !.s[2] = IF x.s[2] = 0 /\ x.s[3] = 0 THEN 1 ELSE x.s[2]]
                 ELSE x
PyInd(x) == LET i == FirstOf(x.p, Independent)
            IN IF i = 0 THEN x ELSE [x EXCEPT !.p = Rest(x.p, Len(Independent[i].p)), !.s[1] = Independent[i].c, !.ind = TRUE]
Umlauts(s) == s[1] \in 12..14
PyFinal(x) == LET i == FirstOf(x.p, Finals)
                  r == Finals[i]
                  m == IF r.p \in {"ung", "ong"} /\ x.s[1] = 4 THEN x.s[2]
                       ELSE IF r.p = "un" /\ Umlauts(x.s) THEN 3 ELSE r.m
              IN IF i = 0 THEN x ELSE [x EXCEPT !.p = Rest(x.p, Len(r.p)), !.s[2] = m, !.s[3] = IF r.v # 0 THEN r.v ELSE x.s[3]]
PyMiddle(x) == LET c == Char1(x.p)
               IN CASE c = "i" -> [x EXCEPT !.p = Rest(x.p, 1), !.s[2] = IF x.ind THEN 0 ELSE 1]
                    [] c = "u" -> [x EXCEPT !.p = Rest(x.p, 1), !.s[2] = IF Umlauts(x.s) THEN 3 ELSE 2]
                    [] c = "v" -> [x EXCEPT !.p = Rest(x.p, 1), !.s[2] = 3]
                    [] OTHER -> x
PyVowel(x) == LET i == FirstOf(x.p, Vowels)
                  v == IF Vowels[i].p = "e" /\ x.s[2] # 0 THEN 4 ELSE Vowels[i].v
              IN IF i = 0 THEN x ELSE [x EXCEPT !.p = Rest(x.p, Len(Vowels[i].p)), !.s[3] = v]
PyTone(x) == LET n == PosIn(Char1(x.p), "2345") IN IF n = 0 THEN x ELSE [x EXCEPT !.s[4] = n]
FromPinyin(p) == PyTone(PyVowel(PyMiddle(PyFinal(PyInd(PyFirst(PyY([p |-> p, s |-> Nil, ind |-> FALSE]))))))).s

---------------------------------------------------------------------------
(* The buffer: b.lay the keyboard, b.s the syllable, b.py the letters typed. *)
Letters == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower(k) == LET n == PosIn(k, Upper) IN IF n = 0 THEN k ELSE SubSeq(Letters, n, n)
IsLetter(k) == PosIn(k, Letters) # 0 \/ PosIn(k, Upper) # 0
IsTone(k) == PosIn(k, "2345") # 0
Buffer0(lay) == [lay |-> lay, s |-> Nil, py |-> ""]
Valid(b, k) ==
  IF b.lay # "Pinyin" THEN k \in Keys[b.lay]
  ELSE IF IsLetter(k) THEN b.py = "" \/ ~IsTone(SubSeq(b.py, Len(b.py), Len(b.py)))
  ELSE IsTone(k) /\ b.py # ""
Spell(b, py) == [b EXCEPT !.py = py, !.s = FromPinyin(py)]
Type(b, k) == IF ~Valid(b, k) THEN b
              ELSE IF b.lay = "Pinyin" THEN Spell(b, b.py \o Lower(k))
              ELSE [b EXCEPT !.s = FromKeys(b.lay, Append(KeysOf(b.lay, b.s), k))]
Back(b) == IF b.lay = "Pinyin" THEN (IF b.py = "" THEN b ELSE Spell(b, SubSeq(b.py, 1, Len(b.py) - 1)))
           ELSE LET ks == KeysOf(b.lay, b.s)
                IN IF ks = <<>> THEN b ELSE [b EXCEPT !.s = FromKeys(b.lay, SubSeq(ks, 1, Len(ks) - 1))]
Cleared(b) == Buffer0(b.lay)
\* Between Bopomofo keyboards the syllable stays; letters and components cannot
\* be carried over into each other.
Switch(b, lay) == IF (lay = "Pinyin") # (b.lay = "Pinyin") THEN Buffer0(lay) ELSE [b EXCEPT !.lay = lay]
Text(b) == IF b.lay = "Pinyin" THEN b.py ELSE Show(b.s)
BEmpty(b) == b.s = Nil
Apply(b, e) == CASE e.k = "key" -> Type(b, e.c)
                 [] e.k = "bs" -> Back(b)
                 [] e.k = "clear" -> Cleared(b)
                 [] e.k = "layout" -> Switch(b, e.to)
===========================================================================
