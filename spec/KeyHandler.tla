---------------------------- MODULE KeyHandler ----------------------------
(* What the input method does with keys: the composition with its unfinished
   syllable, the candidate, marking, associated-phrase, feature and number
   states, what is delivered to the application and what is learnt.

   D == data: [u     |-> language model (reading -> phrases, see Grid),
               ch    |-> value -> sequence of its characters,
               assoc |-> Seq([rd |-> Seq(reading), ch |-> Seq(character)]), best first]
   k == [mode, cfg, c, rb, st, uom, now]
     c   the composition: [g |-> grid, T |-> Lattice, w |-> conversion, tie]
     rb  the unfinished syllable: the buffer of Mandarin, [lay, s, py]
     st  what the user sees *)
EXTENDS UOM, Numbers
CONSTANTS Capacity,      \* contexts remembered
          LearnAbove     \* phrases scored at or below this are not learnt

---------------------------------------------------------------------------
(* Composition *)
EmptyComp == [g |-> EmptyGrid, T |-> <<>>, w |-> <<>>, tie |-> FALSE]
Comp(D, g) ==
  IF g.rd = <<>> THEN [EmptyComp EXCEPT !.g = g]
  ELSE LET T == Lattice(D.u, g)
           b == TLCEval(BestSuffix(T, g))
       IN TLCEval([g |-> g, T |-> T, w |-> BestWalkFrom(T, g, b, 0), tie |-> ~OneWay(T, g, b, 0)])
At(c, cur) == [c EXCEPT !.g.cur = cur]
Cursor(k) == k.c.g.cur
Length(k) == Len(k.c.g.rd)
Val(c, i) == CellValue(c.T, c.g, c.w[i])
ValChars(D, c, i) == D.ch[Val(c, i)]

\* The text before and after a place.  Inside a phrase with fewer characters
\* than readings, the place is at most at the end of its characters.
HeadPart(D, c, i, cur) ==
  LET p == c.w[i][1]  n == c.w[i][2] IN
  IF p + n <= cur THEN Val(c, i) ELSE IF p >= cur THEN ""
  ELSE LET cs == ValChars(D, c, i) IN ConcatStr(SubSeq(cs, 1, Min(cur - p, Len(cs))))
TailPart(D, c, i, cur) ==
  LET p == c.w[i][1]  n == c.w[i][2] IN
  IF p + n <= cur THEN "" ELSE IF p >= cur THEN Val(c, i)
  ELSE LET cs == ValChars(D, c, i) IN ConcatStr(SubSeq(cs, Min(cur - p, Len(cs)) + 1, Len(cs)))
HeadAt(D, c, cur) == ConcatStr([i \in DOMAIN c.w |-> HeadPart(D, c, i, cur)])
TailAt(D, c, cur) == ConcatStr([i \in DOMAIN c.w |-> TailPart(D, c, i, cur)])
TipAt(D, c, cur) ==
  LET B == {i \in DOMAIN c.w : c.w[i][1] < cur /\ cur < c.w[i][1] + c.w[i][2]
                               /\ Len(ValChars(D, c, i)) < c.w[i][2]}
  IN IF B = {} THEN "" ELSE "between " \o c.g.rd[cur] \o " and " \o c.g.rd[cur+1]

\* The place whose phrases are offered, for a cursor position.
Actual(k, idx) ==
  LET n == Length(k) IN
  IF idx > n THEN Max(n - 1, 0)
  ELSE IF idx = n /\ idx > 0 THEN idx - 1
  ELSE IF ~k.cfg.selAfter /\ idx > 0 THEN idx - 1
  ELSE idx
HereIdx(k) == Actual(k, Cursor(k))
CandsHere(k) == Candidates(k.c.T, k.c.g, HereIdx(k))

---------------------------------------------------------------------------
(* The unfinished syllable, on any of the keyboards *)
Ma == INSTANCE Mandarin
Keyboard(layout) == IF layout = "HanyuPinyin" THEN "Pinyin" ELSE layout
NewRb(layout) == Ma!Buffer0(Keyboard(layout))
RbText(rb) == Ma!Text(rb)
RbEmpty(rb) == Ma!BEmpty(rb)
RbReading(rb) == Ma!Show(rb.s)
Toned(rb) == rb.s[4] # 0
ToneOnly(rb) == Toned(rb) /\ rb.s[1] = 0 /\ rb.s[2] = 0 /\ rb.s[3] = 0
RbKey(rb, s) == Ma!Valid(rb, s)
NoRb(k) == [k EXCEPT !.rb = Ma!Cleared(@)]
Configured(k, cfg) == [k EXCEPT !.cfg = cfg, !.rb = Ma!Switch(@, Keyboard(cfg.layout))]

---------------------------------------------------------------------------
(* What is on display *)
EmptySt == [t |-> "Empty"]
InpSt(D, k) == [t |-> "Inputting", h |-> HeadAt(D, k.c, Cursor(k)) \o RbText(k.rb),
                l |-> TailAt(D, k.c, Cursor(k)), tip |-> TipAt(D, k.c, Cursor(k))]
ChooseSt(D, k, oc) ==
  LET s == InpSt(D, k) IN [t |-> "Choosing", h |-> s.h, l |-> s.l, oc |-> oc, cands |-> CandsHere(k)]
KnownPhrase(D, r, v) == r \in DOMAIN D.u /\ HasValue(D.u[r], v)
MarkSt(D, k, b) ==
  LET cur == Cursor(k)
      lo == Min(b, cur)  hi == Max(b, cur)
      head == HeadAt(D, k.c, lo)
      upto == HeadAt(D, k.c, hi)
      marked == SubSeq(upto, Len(head) + 1, Len(upto))
      n == hi - lo
      r == JoinFrom(k.c.g.rd, lo + 1, n, "-")
      status == IF n < 2 THEN "need 2" ELSE IF n > 6 THEN "max 6"
                ELSE IF KnownPhrase(D, r, marked) THEN "exists" ELSE "add"
  IN [t |-> "Marking", h |-> head, m |-> marked, l |-> TailAt(D, k.c, hi), rd |-> r,
      acc |-> status = "add", b |-> b, up |-> HeadAt(D, k.c, cur),
      ms |-> <<marked, JoinFrom(k.c.g.rd, lo + 1, n, " "), status>>,
      tip |-> marked \o "|" \o JoinFrom(k.c.g.rd, lo + 1, n, " ") \o "|" \o status]
Shown(s) == IF s.t = "Marking" THEN s.h \o s.m \o s.l ELSE s.h \o s.l
NotEmpty(s) == s.t \in {"Inputting", "Choosing", "Marking", "Assoc", "SelDict", "CharInfo"}
Pending(k) == IF NotEmpty(k.st) THEN Shown(k.st) ELSE ""

---------------------------------------------------------------------------
(* Results of a step: the new state, the text delivered, whether an error was
   signalled ("y", "n", or "?" where it does not matter), whether the key was
   consumed, and the phrases added to the user's dictionary. *)
Res(k, com, err, ret) == [k |-> k, com |-> com, err |-> err, ret |-> ret, add |-> <<>>]
To(k, s) == [k EXCEPT !.st = s]
Show(D, k) == To(k, InpSt(D, k))
Ok(k) == Res(k, "", "n", TRUE)
Refuse(k) == Res(k, "", "y", TRUE)
Pass(k) == Res(k, "", "n", FALSE)
Clear(k) == [NoRb(k) EXCEPT !.c = EmptyComp]
Idle(k) == To(Clear(k), EmptySt)
SetGrid(D, k, g) == [k EXCEPT !.c = Comp(D, g)]
SetCur(k, cur) == [k EXCEPT !.c = At(@, cur)]
Known1(D, r) == r \in DOMAIN D.u

---------------------------------------------------------------------------
(* Associated phrases *)
\* of the entries with the same text only the best one counts
RECURSIVE EachOnceFrom(_, _, _)
EachOnceFrom(f, i, seen) ==
  IF i > Len(f) THEN <<>>
  ELSE LET v == ConcatStr(f[i].ch) IN
       IF v \in seen THEN EachOnceFrom(f, i+1, seen) ELSE <<f[i]>> \o EachOnceFrom(f, i+1, seen \cup {v})
EachOnce(f) == EachOnceFrom(f, 1, {})
FindAssoc(D, cs, rds) ==
  IF cs = <<>> \/ Len(cs) # Len(rds) THEN <<>>
  ELSE EachOnce(SelectSeq(D.assoc, LAMBDA e : Len(e.ch) > Len(cs) /\ IsPrefixOf(cs, e.ch) /\ IsPrefixOf(rds, e.rd)))
AssocCand(e) == <<Join(e.rd, "-"), ConcatStr(e.ch)>>
AssocSt(D, prev, pc, rds, cs, found, si, sh) ==
  [t |-> "Assoc", h |-> prev.h, l |-> prev.l, pc |-> pc, pr |-> Join(rds, "-"), pv |-> ConcatStr(cs),
   si |-> si, sh |-> sh, cands |-> [i \in DOMAIN found |-> AssocCand(found[i])], prev |-> prev, es |-> found,
   pn |-> Len(rds)]
\* The list for the phrase ending at the cursor: its longest suffix that has
\* associated phrases.
RECURSIVE SuffixAssoc(_, _, _, _, _)
SuffixAssoc(D, cs, rds, len, max) ==
  IF len = 0 THEN <<0, <<>> >>
  ELSE LET f == FindAssoc(D, SubSeq(cs, max-len+1, max), SubSeq(rds, max-len+1, max))
       IN IF f # <<>> THEN <<len, f>> ELSE SuffixAssoc(D, cs, rds, len-1, max)
OfferAssoc(D, k, auto) ==
  LET err == Res(k, "", IF auto THEN "?" ELSE "y", TRUE) IN
  IF Cursor(k) < 1 \/ k.st.t # "Inputting" THEN err
  ELSE LET i == NodeIndexAt(k.c.w, Length(k), Cursor(k) - 1) + 1
           p == k.c.w[i][1]  n == k.c.w[i][2]
           cs == ValChars(D, k.c, i)
           rds == SubSeq(k.c.g.rd, p+1, p+n)
           max == Cursor(k) - p
       IN IF Len(cs) # n THEN err
          ELSE LET r == SuffixAssoc(D, cs, rds, max, max)
               IN IF r[1] = 0 THEN err
                  ELSE Ok(To(k, AssocSt(D, InpSt(D, k), Cursor(k) - 1, SubSeq(rds, max-r[1]+1, max),
                                        SubSeq(cs, max-r[1]+1, max), r[2], 0, auto)))

\* Accepting one: the characters of the phrase the prefix lies in are pinned,
\* then the prefix, then the missing readings are inserted after it with their
\* characters, and finally the whole phrase is chosen if there is such a phrase.
RECURSIVE PinChars(_, _, _, _)
PinChars(T, g, p, cs) ==
  IF cs = <<>> THEN g ELSE PinChars(T, ChooseFirst(T, g, p, "*", Head(cs), 1), p+1, Tail(cs))
RECURSIVE InsertRest(_, _, _, _)
InsertRest(D, g, rds, cs) ==
  IF rds = <<>> \/ ~CanInsert(D.u, g, Head(rds)) THEN g
  ELSE LET g1 == Insert(g, Head(rds))
       IN InsertRest(D, ChooseFirst(Lattice(D.u, g1), g1, g1.cur - 1, "*", Head(cs), 1), Tail(rds), Tail(cs))
AcceptAssoc(D, k, s, e) ==
  LET T == k.c.T  g == k.c.g
      a == Place(g, s.pc)
      i == NodeIndexAt(k.c.w, Len(g.rd), a) + 1
      p == k.c.w[i][1]  n == k.c.w[i][2]
      cs == ValChars(D, k.c, i)
      g1 == IF Len(cs) = n THEN PinChars(T, g, p, cs) ELSE g
      have == Choosable(T, g1, a, s.pr, s.pv) # {}
      g2 == IF have THEN ChooseFirst(T, g1, a, s.pr, s.pv, 1) ELSE g1
      w2 == Comp(D, g2).w
      i2 == NodeIndexAt(w2, Len(g.rd), a) + 1
      end == IF have THEN w2[i2][1] + w2[i2][2] ELSE a + 1
      g3 == InsertRest(D, [g2 EXCEPT !.cur = end], SubSeq(e.rd, s.pn+1, Len(e.rd)), SubSeq(e.ch, s.pn+1, Len(e.ch)))
      g4 == ChooseFirst(Lattice(D.u, g3), g3, a, "*", ConcatStr(e.ch), 1)
  IN Ok(Show(D, SetGrid(D, k, g4)))

\* Plain mode: the remainders of the associated phrases.
PlainAssocSt(D, k, r, v, com) ==
  LET n == Len(D.ch[v])
      f == IF k.cfg.assoc THEN FindAssoc(D, D.ch[v], <<r>>) ELSE <<>>
      rest(e) == <<JoinFrom(e.rd, n+1, Len(e.rd)-n, "-"), ConcatStr(SubSeq(e.ch, n+1, Len(e.ch)))>>
  IN Res(IF f = <<>> THEN Idle(k) ELSE To(Clear(k), [t |-> "AssocPlain", cands |-> [i \in DOMAIN f |-> rest(f[i])]]),
         com, "n", TRUE)

---------------------------------------------------------------------------
(* Choosing a candidate *)
Pin(D, k, oc, cand, settle) ==
  LET a == HereIdx(k)
      g == k.c.g
      g1 == ChooseFirst(k.c.T, g, a, cand[1], cand[2], 1)
      c1 == Comp(D, g1)
      i == NodeIndexAt(c1.w, Len(g.rd), a) + 1
      x == c1.w[i]
      score == LET v == Val(c1, i)  us == c1.T[x].u IN us[CHOOSE j \in DOMAIN us : us[j].v = v].s
      u1 == IF score > LearnAbove THEN Learn(k.uom, Capacity, c1.T, g1, k.c.w, c1.w, a, k.now) ELSE k.uom
  IN IF Choosable(k.c.T, g, a, cand[1], cand[2]) = {} THEN k
     ELSE [k EXCEPT !.c = At(c1, IF settle /\ k.cfg.moveAfter THEN x[1] + x[2] ELSE oc), !.uom = u1]
SelectCandidate(D, k, i) ==       \* i is 1-based
  LET cand == k.st.cands[i] IN
  IF k.mode = "plain" THEN PlainAssocSt(D, k, cand[1], cand[2], cand[2])
  ELSE LET k1 == Show(D, Pin(D, k, k.st.oc, cand, TRUE))
       IN IF k.cfg.assoc THEN OfferAssoc(D, k1, TRUE) ELSE Ok(k1)
CancelPanel(D, k, oc) ==
  IF k.mode = "plain" \/ k.c.g.rd = <<>> THEN Ok(Idle(k))
  ELSE Ok(Show(D, SetCur(k, oc)))

---------------------------------------------------------------------------
(* Typing *)
Suggested(D, k) ==        \* after a syllable: apply what was learnt
  LET a == HereIdx(k)
      i == NodeIndexAt(k.c.w, Length(k), a) + 1
      s == Suggest(k.uom, Context(k.c.T, k.c.g, k.c.w, i), k.now)
  IN IF s.tie THEN [k EXCEPT !.c.tie = TRUE]
     ELSE IF s.v = "" THEN k
     ELSE SetGrid(D, k, ChooseFirst(k.c.T, k.c.g, a, "*", s.v, IF s.f THEN 1 ELSE 2))
Compose(D, k) ==
  LET r == RbReading(k.rb)
      k0 == NoRb(k)
  IN IF ~Known1(D, r)
     THEN Res(IF Length(k) = 0 THEN Idle(k0) ELSE Show(D, k0), "", "y", TRUE)
     ELSE LET k1 == SetGrid(D, k0, Insert(k0.c.g, r)) IN
          IF k.mode = "plain"
          THEN LET cs == CandsHere(k1) IN
               IF Len(cs) = 1 THEN PlainAssocSt(D, k1, cs[1][1], cs[1][2], cs[1][2])
               ELSE Ok(To(k1, ChooseSt(D, k1, Cursor(k1))))
          ELSE LET k2 == Show(D, Suggested(D, k1)) IN
               IF k.cfg.assoc /\ ~k2.c.tie THEN OfferAssoc(D, k2, TRUE) ELSE Ok(k2)

\* A punctuation or letter entry of the language model.
NoEntry == [no |-> TRUE]
Punct(D, k, r) ==
  IF ~RbEmpty(k.rb) THEN Refuse(Show(D, k))
  ELSE LET k1 == SetGrid(D, k, Insert(k.c.g, r)) IN
       IF k.mode = "plain"
       THEN LET cs == CandsHere(k1) IN
            IF Len(cs) = 1 THEN Res(Idle(k1), cs[1][2], "n", TRUE)
            ELSE Ok(To(k1, ChooseSt(D, k1, Cursor(k1))))
       ELSE LET k2 == Show(D, k1) IN IF k.cfg.assoc THEN OfferAssoc(D, k2, TRUE) ELSE Ok(k2)
PunctKeys(k, e) ==
  IF e.ct THEN <<"_ctrl_punctuation_" \o e.c>>
  ELSE (IF k.cfg.half THEN <<"_half_punctuation_" \o k.cfg.layout \o "_" \o e.c, "_half_punctuation_" \o e.c>> ELSE <<>>)
       \o <<"_punctuation_" \o k.cfg.layout \o "_" \o e.c, "_punctuation_" \o e.c>>
PunctHit(D, k, e) ==
  LET ks == PunctKeys(k, e)
      S == {i \in DOMAIN ks : Known1(D, ks[i])}
  IN IF S = {} THEN "" ELSE ks[MinOf(S)]

Named == {"TAB", "BS", "RET", "ESC", "DEL", "LEFT", "RIGHT", "UP", "DOWN", "HOME", "END", "UNK"}
IsAscii(e) == e.c \notin {"LEFT", "RIGHT", "UP", "DOWN", "HOME", "END", "UNK"}
Printable(e) == e.c \notin Named
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Simple(e) == IF e.ct \/ e.sh \/ e.np THEN "" ELSE e.c

OpenCandidates(D, k) ==
  LET oc == Cursor(k)
      k1 == IF oc = Length(k) /\ oc > 0 /\ k.cfg.selAfter /\ k.cfg.moveAfter THEN SetCur(k, oc - 1) ELSE k
  IN Ok(To(k1, ChooseSt(D, k1, oc)))
\* Symbol entries that open their list at once.
InsertAndOpen(D, k, r) ==
  LET k1 == SetGrid(D, k, Insert(k.c.g, r))
      oc == Cursor(k1)
      k2 == IF k.cfg.selAfter THEN SetCur(k1, oc - 1) ELSE k1
  IN Ok(To(k2, ChooseSt(D, k2, oc)))

Escape(D, k) ==
  IF ~NotEmpty(k.st) THEN Pass(k)
  ELSE IF k.cfg.escClear THEN Ok(Idle(k))
  ELSE LET k1 == NoRb(k) IN
       IF Length(k) = 0 THEN Ok(Idle(k1)) ELSE Ok(Show(D, k1))

TabKey(D, k, e) ==
  IF RbEmpty(k.rb) /\ k.c.w = <<>> THEN Pass(k)
  ELSE IF k.st.t # "Inputting" \/ ~RbEmpty(k.rb) THEN Refuse(k)
  ELSE LET cs == CandsHere(k)
           n == Len(cs)
           x == k.c.w[NodeIndexAt(k.c.w, Length(k), HereIdx(k)) + 1]
           now == <<k.c.T[x].r, CellValue(k.c.T, k.c.g, x)>>
           pos == {i \in 1..n : cs[i] = now}
           i == IF pos = {} THEN n ELSE MinOf(pos)                  \* 1-based
           next == IF OvAt(k.c.g, x) = {}
                   THEN IF cs[1] = now THEN (IF e.sh THEN n ELSE 2) ELSE 1
                   ELSE IF e.sh THEN (IF i = 1 THEN n ELSE i - 1) ELSE i + 1
           j == IF next > n THEN 1 ELSE next
       IN Ok(Show(D, Pin(D, k, Cursor(k), cs[j], FALSE)))

CursorKey(D, k, e) ==
  IF k.st.t \notin {"Inputting", "Marking"} THEN Pass(k)
  ELSE IF ~RbEmpty(k.rb) THEN Refuse(Show(D, k))
  ELSE LET cur == Cursor(k)
           b == IF k.st.t = "Marking" THEN k.st.b ELSE cur
           new == CASE e.c = "LEFT" -> Max(cur - 1, 0)
                    [] e.c = "RIGHT" -> Min(cur + 1, Length(k))
                    [] e.c = "HOME" -> 0
                    [] e.c = "END" -> Length(k)
           k1 == SetCur(k, new)
           err == IF e.c \in {"LEFT", "RIGHT"} /\ new = cur THEN "y" ELSE "n"
       IN Res(To(k1, IF e.sh /\ new # b THEN MarkSt(D, k1, b) ELSE InpSt(D, k1)), "", err, TRUE)

DeleteKey(D, k, e) ==
  IF ~NotEmpty(k.st) THEN Pass(k)
  ELSE LET g == k.c.g
           k1 == IF ToneOnly(k.rb) THEN NoRb(k)
                 ELSE IF ~RbEmpty(k.rb) THEN (IF e.c = "BS" THEN [k EXCEPT !.rb = Ma!Back(@)] ELSE k)
                 ELSE IF e.c = "BS" /\ g.cur > 0 THEN SetGrid(D, k, DeleteBefore(g))
                 ELSE IF e.c = "DEL" /\ g.cur < Len(g.rd) THEN SetGrid(D, k, DeleteAfter(g))
                 ELSE k
           err == IF k1 = k THEN "y" ELSE "n"
       IN Res(IF RbEmpty(k1.rb) /\ Length(k1) = 0 THEN Idle(k1) ELSE Show(D, k1), "", err, TRUE)

Ruby(c) == ConcatStr([i \in DOMAIN c.w |->
  LET r == c.T[c.w[i]].r  v == Val(c, i) IN
  IF IsPunct(r) THEN v
  ELSE "<ruby>" \o v \o "<rp>(</rp><rt>" \o JoinFrom(c.g.rd, c.w[i][1]+1, c.w[i][2], " ") \o "</rt><rp>)</rp></ruby>"])

EnterKey(D, k, e) ==
  IF ~NotEmpty(k.st) THEN Pass(k)
  ELSE IF ~RbEmpty(k.rb) THEN Refuse(Show(D, k))
  ELSE IF e.sh /\ k.mode = "mc" THEN OfferAssoc(D, k, FALSE)
  ELSE IF e.ct /\ k.mode = "mc"
       THEN CASE k.cfg.ctrlEnter = 1 -> Res(Idle(k), Join(k.c.g.rd, "-"), "n", TRUE)
              [] k.cfg.ctrlEnter = 2 -> Res(Idle(k), Ruby(k.c), "n", TRUE)
              [] OTHER -> Pass(k)
  ELSE IF k.st.t = "Marking"
       THEN IF ~k.st.acc THEN Refuse(To(k, MarkSt(D, k, k.st.b)))
            ELSE LET k1 == IF k.st.b = Length(k) THEN SetCur(k, Length(k)) ELSE k
                 IN [Ok(Show(D, k1)) EXCEPT !.add = <<<<k.st.rd, k.st.m>>>>]
  ELSE Res(Idle(k), Shown(InpSt(D, k)), "n", TRUE)

ShiftSpace(D, k) ==
  IF k.cfg.lower /\ k.mode = "mc" THEN Ok(Show(D, SetGrid(D, k, Insert(k.c.g, " "))))
  ELSE Res(Idle(k), Shown(InpSt(D, k)) \o " ", "n", TRUE)

OtherKey(D, k, e) ==
  LET hit == IF Printable(e) THEN PunctHit(D, k, e) ELSE ""
      none == IF ~NotEmpty(k.st) THEN Pass(k)
              ELSE IF k.st.t = "Marking" THEN Res(k, "", "n", TRUE)
              ELSE Refuse(Show(D, k))
  IN IF IsAscii(e) /\ e.ct /\ hit = "" THEN Pass(k)
     ELSE IF hit # "" THEN Punct(D, k, hit)
     ELSE IF Simple(e) \in Upper
          THEN IF k.cfg.lower
               THEN IF Known1(D, "_letter_" \o e.c) THEN Punct(D, k, "_letter_" \o e.c) ELSE Ok(k)
               ELSE IF ~NotEmpty(k.st) THEN Pass(k)
               ELSE Res(Idle(k), Shown(InpSt(D, k)) \o e.c, "n", TRUE)
     ELSE none

FeatureNames == <<"日期與時間", "標題數字", "中文數字", "大寫數字", "蘇州碼">>
DateMacros == <<"MACRO@DATE_TODAY_SHORT", "MACRO@DATE_TODAY_MEDIUM", "MACRO@DATE_TODAY_MEDIUM_ROC",
  "MACRO@DATE_TODAY_MEDIUM_CHINESE", "MACRO@DATE_TODAY_MEDIUM_JAPANESE", "MACRO@THIS_YEAR_PLAIN",
  "MACRO@THIS_YEAR_PLAIN_WITH_ERA", "MACRO@THIS_YEAR_ROC", "MACRO@THIS_YEAR_JAPANESE",
  "MACRO@DATE_TODAY_WEEKDAY_SHORT", "MACRO@DATE_TODAY_WEEKDAY", "MACRO@DATE_TODAY2_WEEKDAY",
  "MACRO@DATE_TODAY_WEEKDAY_JAPANESE", "MACRO@TIME_NOW_SHORT", "MACRO@TIME_NOW_MEDIUM",
  "MACRO@THIS_YEAR_GANZHI", "MACRO@THIS_YEAR_CHINESE_ZODIAC">>
FeatureSt == [t |-> "Feature"]
MenuSt(i) ==
  CASE i = 1 -> [t |-> "DateMacro", menu |-> DateMacros]
    [] i = 2 -> [t |-> "EN", num |-> <<>>]
    [] i = 3 -> [t |-> "CN", num |-> <<>>, style |-> "LOWER"]
    [] i = 4 -> [t |-> "CN", num |-> <<>>, style |-> "UPPER"]
    [] i = 5 -> [t |-> "CN", num |-> <<>>, style |-> "SUZHOU"]

MaxDigits == 20
ChineseNumberKey(k, e) ==
  LET num == k.st.num IN
  IF e.c = "ESC" THEN Ok(To(k, EmptySt))
  ELSE IF e.c \in {"BS", "DEL"}
       THEN IF num = <<>> THEN Refuse(k) ELSE Ok(To(k, [k.st EXCEPT !.num = SubSeq(@, 1, Len(@)-1)]))
  ELSE IF e.c = "RET"
       THEN Res(To(k, EmptySt), IF num = <<>> THEN "" ELSE NumeralOf(num, k.st.style), "n", TRUE)
  ELSE IF IsDigit(e.c) THEN IF Len(num) > MaxDigits THEN Refuse(k) ELSE Ok(To(k, [k.st EXCEPT !.num = Append(@, e.c)]))
  ELSE IF e.c = "." /\ num # <<>> /\ PointAt(num) = 0 /\ Len(num) <= MaxDigits
       THEN Ok(To(k, [k.st EXCEPT !.num = Append(@, e.c)]))
  ELSE Refuse(k)
EnclosingNumberKey(D, k, e) ==
  LET num == k.st.num
      r == "_number_" \o ConcatStr(num)
  IN
  IF e.c = "ESC" THEN Ok(To(k, EmptySt))
  ELSE IF e.c \in {"BS", "DEL"}
       THEN IF num = <<>> THEN Refuse(k) ELSE Ok(To(k, [k.st EXCEPT !.num = SubSeq(@, 1, Len(@)-1)]))
  ELSE IF e.c \in {"RET", " "}
       THEN IF num = <<>> THEN Ok(To(k, EmptySt))
            ELSE IF ~Known1(D, r) THEN Refuse(k)
            ELSE IF Len(D.u[r]) = 1 THEN Res(To(k, EmptySt), D.u[r][1].v, "n", TRUE)
            ELSE InsertAndOpen(D, k, r)
  ELSE IF IsDigit(e.c) THEN IF Len(num) > 2 THEN Refuse(k) ELSE Ok(To(k, [k.st EXCEPT !.num = Append(@, e.c)]))
  ELSE Refuse(k)

DictSt(k, phrase, si) ==
  [t |-> "SelDict", h |-> IF k.st.t = "Marking" THEN k.st.up ELSE k.st.h,
   l |-> LET x == Shown(k.st) n == Len(IF k.st.t = "Marking" THEN k.st.up ELSE k.st.h) IN SubSeq(x, n+1, Len(x)),
   ph |-> phrase, si |-> si, prev |-> k.st]

HandleKey(D, k0, e) ==
  LET k == IF k0.st.t = "AssocPlain" THEN To(k0, EmptySt) ELSE k0    \* the list closes first
      s == Simple(e)
      valid == s # "" /\ RbKey(k.rb, s)
      rb1 == IF valid THEN Ma!Type(k.rb, s) ELSE k.rb
      k1 == [k EXCEPT !.rb = rb1]
  IN
  IF e.c = "\\" /\ e.ct THEN Res(To(Clear(k), FeatureSt), Pending(k), "n", TRUE)
  ELSE IF k.st.t = "CN" THEN ChineseNumberKey(k, e)
  ELSE IF k.st.t = "EN" THEN EnclosingNumberKey(D, k, e)
  ELSE IF valid /\ ~Toned(rb1) THEN Ok(Show(D, k1))
  ELSE IF (Toned(rb1) /\ ~ToneOnly(rb1)) \/ (~RbEmpty(rb1) /\ s = " ") THEN Compose(D, k1)
  ELSE IF valid THEN Ok(Show(D, k1))
  ELSE IF e.c = " " /\ e.sh THEN ShiftSpace(D, k)
  ELSE IF (s = " " \/ e.c = "DOWN") /\ NotEmpty(k.st) /\ RbEmpty(k.rb) THEN OpenCandidates(D, k)
  ELSE IF s = "ESC" THEN Escape(D, k)
  ELSE IF e.c = "TAB" THEN TabKey(D, k, e)
  ELSE IF e.c \in {"LEFT", "RIGHT", "HOME", "END"} THEN CursorKey(D, k, e)
  ELSE IF e.c \in {"BS", "DEL"} THEN DeleteKey(D, k, e)
  ELSE IF e.c = "RET" THEN EnterKey(D, k, e)
  ELSE IF s = "?" /\ k.st.t = "Marking" THEN Ok(To(k, DictSt(k, k.st.m, 0)))
  ELSE IF s = "`" /\ Known1(D, "_punctuation_list")
       THEN IF RbEmpty(k.rb) THEN InsertAndOpen(D, k, "_punctuation_list") ELSE Refuse(k)
  ELSE OtherKey(D, k, e)

---------------------------------------------------------------------------
(* What can be done with a list on display.  i is 0-based, as in the op. *)
ListSize(s) == IF s.t \in {"Choosing", "Assoc", "AssocPlain"} THEN Len(s.cands)
               ELSE IF s.t = "Feature" THEN Len(FeatureNames) ELSE IF s.t = "DateMacro" THEN Len(s.menu)
               ELSE IF s.t = "SelDict" THEN 1 ELSE 0
HandleSel(D, k, i) ==
  LET s == k.st IN
  CASE s.t = "Choosing" -> SelectCandidate(D, k, i+1)
    [] s.t = "Assoc" -> AcceptAssoc(D, k, s, s.es[i+1])
    [] s.t = "AssocPlain" ->
         \* the remainder is committed and may itself be continued
         LET r == s.cands[i+1][1]  v == s.cands[i+1][2]
             cs == IF v \in DOMAIN D.ch THEN D.ch[v] ELSE <<>>
             f == IF k.cfg.assoc
                  THEN EachOnce(SelectSeq(D.assoc, LAMBDA x : /\ Len(x.ch) > Len(cs) /\ cs # <<>>
                                    /\ IsPrefixOf(cs, x.ch) /\ Join(SubSeq(x.rd, 1, Len(cs)), "-") = r))
                  ELSE <<>>
             n == Len(cs)
             rest(x) == <<JoinFrom(x.rd, n+1, Len(x.rd)-n, "-"), ConcatStr(SubSeq(x.ch, n+1, Len(x.ch)))>>
         IN Res(IF f = <<>> THEN Idle(k) ELSE To(Clear(k), [t |-> "AssocPlain", cands |-> [j \in DOMAIN f |-> rest(f[j])]]),
                v, "n", TRUE)
    [] s.t = "Feature" -> Ok(To(k, MenuSt(i+1)))
    [] s.t = "DateMacro" -> Res(To(k, EmptySt), s.menu[i+1], "n", TRUE)
    [] s.t = "SelDict" -> Ok(To(k, [t |-> "CharInfo", h |-> s.h, l |-> s.l, ph |-> s.ph, prev |-> s]))
HandleCancel(D, k) ==
  LET s == k.st IN
  CASE s.t = "Choosing" -> CancelPanel(D, k, s.oc)
    [] s.t \in {"AssocPlain", "Feature", "DateMacro"} -> CancelPanel(D, k, 0)
    [] s.t \in {"Assoc", "SelDict", "CharInfo"} -> Ok(To(k, s.prev))
HandleMove(D, k, d) ==
  LET k1 == SetCur(k, Max(0, Min(Length(k), Cursor(k) + d)))
  IN Ok(To(k1, ChooseSt(D, k1, Cursor(k1))))
ReadingsOfCand(k, cand) ==
  LET c == CHOOSE x \in DOMAIN k.c.T : k.c.T[x].r = cand[1]
  IN SubSeq(k.c.g.rd, c[1]+1, c[1]+c[2])
HandleAssocFrom(D, k, i) ==
  LET cand == k.st.cands[i+1]
      cs == D.ch[cand[2]]
      rds == ReadingsOfCand(k, cand)
      f == FindAssoc(D, cs, rds)
  IN IF f = <<>> THEN Ok(k) ELSE Ok(To(k, AssocSt(D, k.st, Actual(k, k.st.oc), rds, cs, f, i, FALSE)))
HandleDict(D, k, i) == Ok(To(k, DictSt(k, k.st.cands[i+1][2], i)))
\* Plain mode: a key that starts the next syllable or symbol takes the
\* highlighted candidate first.
HandleTrad(D, k, e) ==
  LET takes == \/ (Len(e.c) = 1 /\ RbKey(k.rb, e.c))
               \/ Known1(D, "_punctuation_" \o k.cfg.layout \o "_" \o e.c)
               \/ Known1(D, "_punctuation_" \o e.c)
               \/ (e.c \in Upper /\ Known1(D, "_letter_" \o e.c))
  IN IF ~takes THEN Pass(k)
     ELSE LET cand == k.st.cands[e.i+1]
              r1 == PlainAssocSt(D, k, cand[1], cand[2], cand[2])
              r2 == HandleKey(D, To(Clear(r1.k), EmptySt), e)
              touched == r2.ret     \* otherwise the follow-up list stays
          IN Res(IF touched THEN r2.k ELSE [r2.k EXCEPT !.st = r1.k.st], r1.com \o r2.com, r2.err, TRUE)
HandleReset(k, commit) == Res(Idle(k), IF commit THEN Pending(k) ELSE "", "n", TRUE)

IsList(s) == s.t \in {"Choosing", "Assoc", "AssocPlain", "Feature", "DateMacro", "SelDict", "CharInfo"}
KeyAllowed(s) == ~IsList(s) \/ s.t = "AssocPlain" \/ (s.t = "Assoc" /\ s.sh)
Applies(k, e) ==
  CASE e.k = "key" -> KeyAllowed(k.st)
    [] e.k = "sel" -> IsList(k.st) /\ ListSize(k.st) > 0
    [] e.k = "cancel" -> IsList(k.st) /\ ~(k.st.t = "Assoc" /\ k.st.sh)
    [] e.k \in {"move", "assoc", "dict"} -> k.st.t = "Choosing" /\ k.mode = "mc" /\ ListSize(k.st) > 0
    [] e.k = "trad" -> k.st.t = "Choosing" /\ k.mode = "plain" /\ ListSize(k.st) > 0
    [] OTHER -> TRUE
Idx(k, e) == e.i % ListSize(k.st)
Apply(D, k, e) ==
  CASE e.k = "key" -> HandleKey(D, k, e)
    [] e.k = "sel" -> HandleSel(D, k, Idx(k, e))
    [] e.k = "cancel" -> HandleCancel(D, k)
    [] e.k = "move" -> HandleMove(D, k, e.d)
    [] e.k = "assoc" -> HandleAssocFrom(D, k, Idx(k, e))
    [] e.k = "dict" -> HandleDict(D, k, Idx(k, e))
    [] e.k = "trad" -> HandleTrad(D, k, [e EXCEPT !.i = @ % ListSize(k.st)])
    [] e.k = "reset" -> HandleReset(k, e.commit)
    [] e.k = "cfg" -> Ok(Configured(k, e.cfg))
    [] e.k = "tick" -> Ok([k EXCEPT !.now = @ + e.d])

InitK(mode, cfg) == [mode |-> mode, cfg |-> cfg, c |-> EmptyComp, rb |-> NewRb(cfg.layout), st |-> EmptySt,
                     uom |-> EmptyUom, now |-> 1000]

---------------------------------------------------------------------------
(* Well-formedness, checked in every state of the model *)
KOK(D, k) ==
  /\ GridOK(k.c.T, k.c.g)
  /\ UomOK(k.uom, Capacity)
  /\ k.c.T = Lattice(D.u, k.c.g)
  /\ k.c.g.rd # <<>> => ValidWalk(k.c.T, k.c.g, k.c.w)
  \* the display is a function of the composition
  /\ k.st.t = "Inputting" => k.st = InpSt(D, k) /\ (k.c.g.rd # <<>> \/ ~RbEmpty(k.rb))
  /\ k.st.t = "Marking" => /\ k.st = MarkSt(D, k, k.st.b) /\ k.st.b # Cursor(k)
                           /\ Shown(k.st) = Shown(InpSt(D, k)) /\ RbEmpty(k.rb)
                           /\ (k.st.acc => Len(k.st.rd) > 0)
  /\ k.st.t = "Choosing" => RbEmpty(k.rb) /\ Shown(k.st) = Shown(InpSt(D, k)) /\ k.st.cands # <<>>
  /\ k.st.t \in {"Assoc", "SelDict", "CharInfo"} => Shown(k.st) = Shown(InpSt(D, k))
  \* nothing is composed behind an idle display
  /\ ~NotEmpty(k.st) => k.c.g.rd = <<>> /\ RbEmpty(k.rb)
  /\ k.mode = "plain" => k.uom = EmptyUom /\ Len(k.c.g.rd) <= 1 /\ k.st.t \notin {"Assoc"}
===========================================================================
