------------------------------ MODULE Engine ------------------------------
(* The whole input method as the user meets it through the framework: physical
   keys, the candidate window with its pages, highlight and selection keys,
   the dictionary menu, focus changes, resets and input method switches.

   Everything about composing is KeyHandler.tla; this module adds what lies
   between it and the framework.

   X == [mc, plain  |-> data of the two modes (see KeyHandler),
         dict       |-> Seq([name, pre, post, fixed]) configured lookup services,
         enc        |-> character -> its percent-encoding,
         bytes      |-> character -> length in UTF-8,
         wide       |-> set of characters outside the basic plane]
   s == [k, im, dcfg, hi, keys, hint, pre, uf, foc]
     im    "mc", "plain", "other"
     dcfg  the stored configuration; k.cfg is what was applied on activation
     hi    0-based highlighted entry of the list on display
     keys, hint   the selection keys and layout setting when the list was opened
   pre, uf      the client shows the pre-edit itself / delivers it itself
   foc   whether the client has the focus
   files the user's files: [user, excl |-> Seq([v, k]), repl |-> Seq([v, to]), ug, rg |-> first or last file is gone]
   dirty, due   they have changed since they were read; they have been read since the composition began,
         and what they say is in effect from the next one on
   dat   <<>>, or <<[mc, plain |-> data with the user's files in effect]>>
   lab   what the status menu says of half width and associated phrases (on: it has said so)
   bg    [im, pre, uf] of another application, which does not have the focus *)
EXTENDS KeyHandler

Dat(X, s) == LET d == IF s.dat = <<>> THEN X ELSE s.dat[1] IN IF s.k.mode = "plain" THEN d.plain ELSE d.mc
LMM == INSTANCE LM

---------------------------------------------------------------------------
(* Physical keys.  e == [k |-> "key", n, sh, ct, alt, sup, caps, num, rel]:
   n is the character the key produces or its name. *)
Digits9 == <<"1","2","3","4","5","6","7","8","9">>
AsdfRow == <<"a","s","d","f","g","h","j","k","l">>
AsdfTwo == <<"a","s","d","f","z","x","c","v","b">>
ShiftDigits == <<"!","@","#","$","%","^","&","*","(">>
PadDigits == <<"KP_1","KP_2","KP_3","KP_4","KP_5","KP_6","KP_7","KP_8","KP_9">>
PadChar == [KP_0 |-> "0", KP_1 |-> "1", KP_2 |-> "2", KP_3 |-> "3", KP_4 |-> "4", KP_5 |-> "5", KP_6 |-> "6",
            KP_7 |-> "7", KP_8 |-> "8", KP_9 |-> "9", KP_Decimal |-> ".", KP_Add |-> "+", KP_Subtract |-> "-",
            KP_Multiply |-> "*", KP_Divide |-> "/"]
PadNamed == [KP_Enter |-> "RET", KP_Left |-> "LEFT", KP_Right |-> "RIGHT", KP_Up |-> "UP", KP_Down |-> "DOWN",
             KP_Home |-> "HOME", KP_End |-> "END", KP_Delete |-> "DEL"]
Unnamed == {"PGUP", "PGDN", "KP_PgUp", "KP_PgDn", "F5", "INS", "Shift", "Control"}
\* Keys without a meaning here are named "X:..", modifier keys among them "M:..".
Odd(e) == StartsWith(e.n, "X:") \/ StartsWith(e.n, "M:")
Shiftless == {"BS", "ESC", "DEL"}      \* the framework drops Shift here
Modifier(e) == e.n \in {"Shift", "Control"} \/ StartsWith(e.n, "M:")
CtrlPunct == {",", ".", "/", ";", "'", "\\"}
KH(c, sh, ct, np) == [k |-> "key", c |-> c, sh |-> sh, ct |-> ct, np |-> np]
UnknownKey == KH("UNK", FALSE, FALSE, FALSE)
\* What a key means to the composition.
Interp(e) ==
  IF e.n \in DOMAIN PadChar THEN KH(PadChar[e.n], FALSE, e.ct, TRUE)
  ELSE IF e.n \in DOMAIN PadNamed THEN KH(PadNamed[e.n], FALSE, e.ct, TRUE)
  ELSE IF e.n \in Unnamed \/ Odd(e) THEN UnknownKey
  ELSE IF e.n \in Named \/ e.n = " " THEN KH(e.n, e.sh /\ e.n \notin Shiftless, e.ct, FALSE)
  ELSE IF ~e.ct THEN KH(e.n, FALSE, FALSE, FALSE)
  ELSE IF e.n \in CtrlPunct THEN KH(e.n, FALSE, TRUE, FALSE)
  ELSE IF e.n = "1" THEN KH("!", FALSE, TRUE, FALSE)
  ELSE UnknownKey
NotOurs(e) == e.rel \/ e.alt \/ e.sup \/ e.caps
Is(e, n) == e.n = n /\ ~e.sh /\ ~e.ct
PosIn(x, q) == LET P == {i \in DOMAIN q : q[i] = x} IN IF P = {} THEN 0 ELSE MinOf(P)
KeySet(c) == SubSeq(CASE c.keys = "asdfghjkl" -> AsdfRow [] c.keys = "asdfzxcvb" -> AsdfTwo [] OTHER -> Digits9, 1, c.count)
\* 1-based position named by a selection key, 0 if it is none
SelPos(s, e) == IF e.ct \/ e.sh THEN 0
                ELSE IF e.n \in Range(s.keys) THEN PosIn(e.n, s.keys)
                ELSE IF s.keys[1] = "1" THEN PosIn(e.n, SubSeq(PadDigits, 1, Len(s.keys))) ELSE 0

---------------------------------------------------------------------------
(* Characters of a text *)
RECURSIVE CharsFrom(_, _, _)
CharsFrom(X, t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET two == SubSeq(t, i, Min(i+1, Len(t)))
           c == IF two \in X.wide THEN two ELSE SubSeq(t, i, i)
       IN <<c>> \o CharsFrom(X, t, i + Len(c))
Chars(X, t) == CharsFrom(X, t, 1)
Encoded(X, t) == LET cs == Chars(X, t) IN ConcatStr([i \in DOMAIN cs |-> X.enc[cs[i]]])
ByteLength(X, t) == LET cs == Chars(X, t) IN SumSeq([i \in DOMAIN cs |-> X.bytes[cs[i]]])

---------------------------------------------------------------------------
(* The window *)
EngListSize(X, st) == IF st.t = "SelDict" THEN 1 + Len(X.dict) ELSE IF st.t = "CharInfo" THEN 2 ELSE ListSize(st)
ShiftList(st) == st.t = "AssocPlain" \/ (st.t = "Assoc" /\ st.sh)
\* As many entries as there are selection keys.
PageSize(s) == IF ShiftList(s.k.st) THEN 9 ELSE Len(s.keys)
Page(s) == s.hi \div PageSize(s)
OnPage(X, s, pg) == Min(PageSize(s), EngListSize(X, s.k.st) - PageSize(s) * pg)
Pages(X, s) == (EngListSize(X, s.k.st) + PageSize(s) - 1) \div PageSize(s)
Replaced(t, x, y) == LET c == [i \in 1..Len(t) |-> IF SubSeq(t, i, i) = x THEN y ELSE SubSeq(t, i, i)] IN ConcatStr(c)
ItemText(X, st, i) ==       \* 1-based; "?" where the text is not specified here
  CASE st.t = "Choosing" -> LET c == st.cands[i] IN
                            IF Cardinality({j \in DOMAIN st.cands : st.cands[j][2] = c[2]}) > 1
                            THEN c[2] \o " (" \o Replaced(c[1], "-", " ") \o ")" ELSE c[2]
    [] st.t \in {"Assoc", "AssocPlain"} -> st.cands[i][2]
    [] st.t = "Feature" -> FeatureNames[i]
    [] st.t = "DateMacro" -> "?"
    [] st.t = "SelDict" -> IF i = 1 THEN "Character Information"
                           ELSE "Look up \"" \o st.ph \o "\" in " \o X.dict[i-1].name
    [] st.t = "CharInfo" -> IF i = 1 THEN "UTF8 String Length: " \o ToString(ByteLength(X, st.ph))
                            ELSE "Code Point Count: " \o ToString(Len(Chars(X, st.ph)))
Label(s, pos) == (IF ShiftList(s.k.st) THEN "⇧" \o Digits9[pos] ELSE s.keys[pos]) \o ". "
Layout(X, s) ==
  CASE s.k.st.t \in {"SelDict", "CharInfo", "Feature", "DateMacro"} -> "v"
    [] s.k.st.t = "Choosing" /\ (\E c \in Range(s.k.st.cands) : Len(Chars(X, c[2])) > 8) -> "v"
    [] OTHER -> CASE s.dcfg.hint = "Vertical" -> "v" [] s.dcfg.hint = "Horizontal" -> "h" [] OTHER -> "n"

\* The text shown at the cursor, its highlighted part, and the line below it.
Pre(st) ==
  CASE st.t = "Marking" -> [h |-> st.up, l |-> SubSeq(Shown(st), Len(st.up)+1, Len(Shown(st))), hl |-> st.m]
    [] st.t = "CN" -> [h |-> (CASE st.style = "LOWER" -> "[中文數字] " [] st.style = "UPPER" -> "[大寫數字] "
                                [] st.style = "SUZHOU" -> "[蘇州碼] ") \o ConcatStr(st.num), l |-> "", hl |-> ""]
    [] st.t = "EN" -> [h |-> "[標題數字] " \o ConcatStr(st.num), l |-> "", hl |-> ""]
    [] NotEmpty(st) -> [h |-> st.h, l |-> st.l, hl |-> ""]
    [] OTHER -> [h |-> "", l |-> "", hl |-> ""]
MarkStatus(x) == CASE x = "need 2" -> "2 syllables required" [] x = "max 6" -> "6 syllables maximum"
                   [] x = "exists" -> "phrase already exists" [] x = "add" -> "press Enter to add the phrase"
RECURSIVE Aux(_)
Aux(st) ==
  CASE st.t = "Inputting" -> IF st.tip = "" THEN "" ELSE "Cursor is between syllables " \o SubSeq(st.tip, 9, Len(st.tip))
    [] st.t = "Marking" -> "Marked: " \o st.ms[1] \o ", syllables: " \o st.ms[2] \o ", " \o MarkStatus(st.ms[3])
    [] st.t \in {"Assoc", "SelDict", "CharInfo"} -> Aux(st.prev)
    [] OTHER -> ""

---------------------------------------------------------------------------
(* Results: the new state, the text delivered, the processes started, whether
   the framework sees the key as taken, the phrases added. *)
R(s, com, proc, acc, add) == [s |-> s, com |-> com, proc |-> proc, acc |-> acc, add |-> add]
Hook(c) == IF c.hookp = "" THEN "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh" ELSE c.hookp
Editor(c) == IF c.open = "" THEN "xdg-open" ELSE c.open
Hooks(s, add) == IF s.dcfg.hook THEN [i \in DOMAIN add |-> <<"/bin/sh", Hook(s.dcfg), add[i][2]>>] ELSE <<>>
\* After a step of the composition: lists open at their first entry.
Enter(s, k) == [s EXCEPT !.k = k, !.hi = 0, !.hint = s.dcfg.hint, !.keys = IF IsList(k.st) /\ ~ShiftList(k.st) THEN KeySet(s.dcfg) ELSE @]
FromKH(s, r, acc) == R(Enter(s, r.k), r.com, Hooks(s, r.add), acc, r.add)
Stay(s) == R(s, "", <<>>, TRUE, <<>>)
At0(s, hi) == Stay([s EXCEPT !.hi = hi])

Pick(X, s, i) ==          \* 0-based entry of the list
  LET D == Dat(X, s)  st == s.k.st IN
  IF st.t = "CharInfo" THEN Stay(s)
  ELSE IF st.t = "SelDict" /\ i > 0
  THEN LET d == X.dict[i] IN
       R(Enter(s, Idle(s.k)), Pending(s.k), << <<"xdg-open", IF d.fixed THEN d.pre ELSE d.pre \o Encoded(X, st.ph) \o d.post>> >>, TRUE, <<>>)
  ELSE FromKH(s, HandleSel(D, s.k, i), TRUE)

Cancel(X, s) ==
  LET st == s.k.st
      r == FromKH(s, HandleCancel(Dat(X, s), s.k), TRUE)
      back == CASE st.t \in {"SelDict", "Assoc"} /\ r.s.k.st.t = "Choosing" -> st.si [] OTHER -> 0
  IN [r EXCEPT !.s.hi = back]

\* Moving the highlight; every move wraps around.
Turn(X, s, d) == LET n == EngListSize(X, s.k.st) IN At0(s, (s.hi + d + n) % n)
NextPage(X, s) == LET n == Pages(X, s)  p == Page(s) IN
                  IF n <= 1 THEN Stay(s) ELSE At0(s, PageSize(s) * ((p + 1) % n))
PrevPage(X, s) == LET n == Pages(X, s)  p == Page(s) IN
                  IF n <= 1 THEN Turn(X, s, 1)      \* (see EngineTrace: either is accepted)
                  ELSE At0(s, PageSize(s) * ((p + n - 1) % n))

\* Shift is part of a printable character, and has no meaning on the keypad.
OnPad(e) == e.n \in DOMAIN PadChar \/ e.n \in DOMAIN PadNamed \/ e.n \in {"KP_PgUp", "KP_PgDn"}
Norm(e) == [e EXCEPT !.sh = @ /\ (e.n \in Named \/ e.n \in Unnamed \/ Odd(e) \/ e.n = " ")
                                /\ ~OnPad(e) /\ e.n \notin Shiftless]
PageKey(e, vertical) ==
  IF e.sh \/ e.ct THEN ""
  ELSE IF vertical
  THEN CASE e.n \in {"DOWN", "KP_Down"} -> "next" [] e.n \in {"UP", "KP_Up"} -> "prev"
         [] e.n \in {"RIGHT", "PGDN", "KP_Right", "KP_PgDn"} -> "pgnext"
         [] e.n \in {"LEFT", "PGUP", "KP_Left", "KP_PgUp"} -> "pgprev"
         [] OTHER -> ""
  ELSE CASE e.n \in {"RIGHT", "KP_Right"} -> "next" [] e.n \in {"LEFT", "KP_Left"} -> "prev"
         [] e.n \in {"DOWN", "KP_Down", "PGDN", "KP_PgDn"} -> "pgnext"
         [] e.n \in {"UP", "KP_Up", "PGUP", "KP_PgUp"} -> "pgprev"
         [] OTHER -> ""

\* A key while a list is on display.  All such keys are taken.
ToKeyHandler(X, s, e) ==
  LET r == HandleKey(Dat(X, s), s.k, Interp(e)) IN
  IF r.k.st = s.k.st THEN R([s EXCEPT !.k = r.k], r.com, <<>>, TRUE, <<>>) ELSE FromKH(s, r, TRUE)
ListKey(X, s, e0) ==
  LET D == Dat(X, s)
      st == s.k.st
      e == Norm(e0)
      mc == s.k.mode = "mc"
      here == OnPage(X, s, Page(s))
      base == PageSize(s) * Page(s)
      sp == SelPos(s, e)
      back == mc /\ st.t = "Choosing" /\ ((s.dcfg.jk /\ Is(e, "j")) \/ (e.n = "LEFT" /\ e.sh /\ ~e.ct))
      forth == mc /\ st.t = "Choosing" /\ ((s.dcfg.jk /\ Is(e, "k")) \/ (e.n = "RIGHT" /\ e.sh /\ ~e.ct))
      pk == PageKey(e, Layout(X, s) = "v")
  IN
  IF ShiftList(st) /\ e0.sh /\ e0.n \in Range(ShiftDigits)
  THEN IF PosIn(e0.n, ShiftDigits) <= here THEN Pick(X, s, base + PosIn(e0.n, ShiftDigits) - 1) ELSE Stay(s)
  ELSE IF ~ShiftList(st) /\ sp > 0 /\ sp <= here THEN Pick(X, s, base + sp - 1)
  ELSE IF back THEN FromKH(s, HandleMove(D, s.k, -1), TRUE)
  ELSE IF forth THEN FromKH(s, HandleMove(D, s.k, 1), TRUE)
  ELSE IF mc /\ Is(e, "?") /\ st.t = "Choosing" THEN FromKH(s, HandleDict(D, s.k, s.hi), TRUE)
  ELSE IF mc /\ Is(e, "?") /\ st.t \in {"SelDict", "CharInfo"} THEN Cancel(X, s)
  ELSE IF mc /\ e.n = "RET" /\ e.sh /\ st.t = "Choosing"
  THEN LET r == HandleAssocFrom(D, s.k, s.hi) IN IF r.k = s.k THEN Stay(s) ELSE FromKH(s, r, TRUE)
  ELSE IF e.n = "RET" /\ ~e.ct /\ e.sh = ShiftList(st) THEN Pick(X, s, s.hi)
  ELSE IF Is(e, "ESC") \/ Is(e, "BS")
  THEN IF st.t = "Assoc" /\ st.sh THEN ToKeyHandler(X, s, e0) ELSE Cancel(X, s)
  ELSE IF Is(e, " ") THEN IF st.t = "Assoc" /\ st.sh THEN ToKeyHandler(X, s, e0) ELSE NextPage(X, s)
  ELSE IF pk = "next" THEN Turn(X, s, 1)
  ELSE IF pk = "prev" THEN Turn(X, s, -1)
  ELSE IF pk = "pgnext" THEN NextPage(X, s)
  ELSE IF pk = "pgprev" THEN PrevPage(X, s)
  ELSE IF Modifier(e) THEN Stay(s)
  ELSE IF st.t \in {"Assoc", "AssocPlain"} THEN ToKeyHandler(X, s, e0)
  ELSE IF st.t = "Choosing" /\ ~mc
  THEN LET x == Interp(e0)
           r == HandleTrad(D, s.k, [k |-> "trad", c |-> x.c, sh |-> x.sh, ct |-> x.ct, np |-> x.np, i |-> s.hi])
       IN IF r.ret THEN FromKH(s, r, TRUE) ELSE Stay(s)
  ELSE Stay(s)

Nothing(s, acc) == R(s, "", <<>>, acc, <<>>)
KeyEvent(X, s, e) ==
  IF s.im = "other" \/ NotOurs(e) THEN Nothing(s, FALSE)
  ELSE IF IsList(s.k.st) THEN ListKey(X, s, e)
  ELSE LET r == HandleKey(Dat(X, s), s.k, Interp(e)) IN FromKH(s, r, r.ret)

---------------------------------------------------------------------------
(* Interruptions *)
Applied(s) == IF s.im = "other" THEN s
              ELSE [s EXCEPT !.k = Configured([@ EXCEPT !.mode = s.im], [f \in DOMAIN s.k.cfg |-> s.dcfg[f]]),
                             !.lab = [half |-> s.dcfg.half, assoc |-> s.dcfg.assoc, on |-> TRUE]]
FocusOut(s) ==      \* the framework delivers the pre-edit of clients that do not do so themselves
  LET p == Pre(s.k.st) IN
  R([s EXCEPT !.k = Idle(@), !.foc = FALSE], IF s.pre /\ ~s.uf THEN p.h \o p.l ELSE "", <<>>, FALSE, <<>>)
FocusIn(s) == Nothing(Applied([s EXCEPT !.foc = TRUE]), FALSE)
Reset(s) == Nothing([s EXCEPT !.k = Idle(@)], FALSE)
\* Turning to the other application, which has its own input method.
Turning(s) ==
  LET r == FocusOut(s) IN
  [r EXCEPT !.s = Applied([r.s EXCEPT !.foc = TRUE, !.im = s.bg.im, !.pre = s.bg.pre, !.uf = s.bg.uf,
                                      !.bg = [im |-> s.im, pre |-> s.pre, uf |-> s.uf]])]
SwitchTo(s, im) ==
  IF im = s.im THEN Nothing(s, FALSE)
  ELSE R(Applied([s EXCEPT !.k = Idle(@), !.im = im]), IF s.im = "other" THEN "" ELSE Pending(s.k), <<>>, FALSE, <<>>)
\* The status menu: takes effect at once.
UserFile == [user |-> "data.txt", excl |-> "exclude-phrases.txt"]
Menu(s) == IF s.im = "other" THEN {} ELSE {"half", "assoc"} \cup (IF s.im = "mc" THEN {"user", "excl"} ELSE {})
Toggle(s, what) ==
  IF what \notin Menu(s) THEN Nothing(s, FALSE)
  ELSE IF what \in DOMAIN UserFile THEN R(s, "", << <<Editor(s.dcfg), UserFile[what]>> >>, FALSE, <<>>)
  ELSE LET b == ~s.dcfg[what] IN Nothing([s EXCEPT !.dcfg[what] = b, !.k.cfg[what] = b, !.lab[what] = b], FALSE)
\* Settings: those of the preferences dialog replace some, those of a file all.
Defaults == [kb |-> "standard", hint |-> "Not Set", keys |-> "123456789", count |-> 9, selAfter |-> FALSE, moveAfter |-> FALSE,
             jk |-> FALSE, escClear |-> FALSE, lower |-> FALSE, ctrlEnter |-> 0, half |-> FALSE, assoc |-> FALSE, hook |-> FALSE,
             open |-> "xdg-open", hookp |-> "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh", layout |-> "Standard"]
YN(b) == IF b THEN "True" ELSE "False"
Stored(c) ==        \* the form in which they are kept
  [kb |-> c.kb, hint |-> c.hint, keys |-> c.keys, count |-> ToString(c.count), selAfter |-> IF c.selAfter THEN "after_cursor" ELSE "before_cursor",
   moveAfter |-> YN(c.moveAfter), jk |-> YN(c.jk), escClear |-> YN(c.escClear),
   lower |-> IF c.lower THEN "put_lowercase_to_buffer" ELSE "directly_output_uppercase",
   ctrlEnter |-> <<"disabled", "output_bpmf_reading", "output_html_ruby_text">>[c.ctrlEnter + 1],
   half |-> YN(c.half), assoc |-> YN(c.assoc), hook |-> YN(c.hook), open |-> c.open, hookp |-> c.hookp]
MenuText == [half |-> [on |-> {"Half Width Punctuation", "Half width Punctuation"}, off |-> {"Full Width Punctuation", "Full width Punctuation"}],
             assoc |-> [on |-> {"Associated Phrases - On"}, off |-> {"Associated Phrases - Off"}]]
\* What a notifier is asked to show when one of the two switches is turned.
TipOf(k, what) ==
  IF what = "half" THEN IF k.cfg.half THEN <<"Half Width Punctuation", "Now using half width punctuation">>
                        ELSE <<"Full Width Punctuation", "Now using full width punctuation">>
  ELSE IF ~k.cfg.assoc THEN <<"Associated Phrases Off", "Associated Phrases is now disabled.">>
  ELSE <<"Associated Phrases On", IF k.mode = "mc" THEN "Now you can use Shift + Enter to insert associated phrases"
                                  ELSE "Associated Phrases is now enabled.">>
Tips(s, e, n) == IF e.k = "act" /\ e.act \in Menu(s) \ DOMAIN UserFile THEN <<TipOf(n.k, e.act)>> ELSE <<>>
Set(s, c) == [s EXCEPT !.dcfg = c @@ @]
Reread(s, c) == [s EXCEPT !.dcfg = c @@ Defaults]
Click(X, s, i) == IF s.im # "other" /\ IsList(s.k.st)
                  THEN Pick(X, s, PageSize(s) * Page(s) + (i % OnPage(X, s, Page(s)))) ELSE Stay(s)
\* (D.fu is the data in the order of its file, which says which of several
\* entries with the same replacement counts.)
ByScore(us) ==
  LET at(i) == 1 + Cardinality({j \in DOMAIN us : us[j].s > us[i].s \/ (us[j].s = us[i].s /\ j < i)})
  IN [n \in DOMAIN us |-> us[CHOOSE i \in DOMAIN us : at(i) = n]]
\* The user's files: own phrases come before those of the data, excluded ones
\* are gone, and replaced ones show their replacement.
NoFiles == [user |-> <<>>, excl |-> <<>>, repl |-> <<>>, ug |-> FALSE, rg |-> TRUE]
WithFiles(X, D, f) ==
  LET c == [excl |-> f.excl, repl |-> f.repl, ron |-> ~f.rg, eon |-> FALSE, macro |-> <<>>, conv |-> <<>>]
      user == IF f.ug THEN <<>> ELSE f.user
      of(key) == IF key = " " THEN D.u[key]
                 ELSE LET mine == SelectSeq(user, LAMBDA x : x.k = key)
                          own == LMM!Gather(c, key, [i \in DOMAIN mine |-> [v |-> mine[i].v, s |-> 0]], {})
                          rest == ByScore(LMM!Gather(c, key, Grams(D.fu, key), LMM!Texts(own)))
                          top == MaxOf({rest[i].s : i \in DOMAIN rest})
                      IN (IF LMM!IsLong(key) \/ rest = <<>> THEN own ELSE [i \in DOMAIN own |-> [own[i] EXCEPT !.s = top]]) \o rest
      all == TLCEval([key \in DOMAIN D.u \cup {user[i].k : i \in DOMAIN user} |-> of(key)])
      u == [key \in {x \in DOMAIN all : all[x] # <<>>} |-> all[key]]
      vs == {user[i].v : i \in DOMAIN user} \cup {f.repl[i].to : i \in DOMAIN f.repl}
  IN [D EXCEPT !.u = u, !.ch = [v \in vs |-> Chars(X, v)] @@ @]
Loaded(X, f) == IF f = NoFiles THEN <<>> ELSE << TLCEval([mc |-> WithFiles(X, X.mc, f), plain |-> WithFiles(X, X.plain, f)]) >>
\* A phrase goes to the end of the file, if there is one, and the files are read.
Settle(X, s, add, act) ==
  LET f == IF add # <<>> /\ ~s.files.ug
           THEN [s.files EXCEPT !.user = @ \o [i \in DOMAIN add |-> [v |-> add[i][2], k |-> add[i][1]]]] ELSE s.files
      due == s.due \/ (act /\ s.dirty) \/ f # s.files
  IN IF due /\ s.k.c.g.rd = <<>> THEN [s EXCEPT !.files = f, !.dirty = FALSE, !.due = FALSE, !.dat = Loaded(X, f)]
     ELSE [s EXCEPT !.files = f, !.due = due]
Edited(s, e) ==
  [s EXCEPT !.dirty = TRUE,
            !.files = CASE e.w = "user" -> [@ EXCEPT !.user = e.x, !.ug = e.gone]
                        [] e.w = "excl" -> [@ EXCEPT !.excl = e.x]
                        [] e.w = "repl" -> [@ EXCEPT !.repl = e.x, !.rg = e.gone]]
KHCfg(c) == [layout |-> c.layout, selAfter |-> c.selAfter, moveAfter |-> c.moveAfter, escClear |-> c.escClear,
             lower |-> c.lower, ctrlEnter |-> c.ctrlEnter, assoc |-> c.assoc, half |-> c.half]
NoBg == [im |-> "other", pre |-> FALSE, uf |-> FALSE]
InitS(mode, cfg, pre, uf, bg) ==
  [k |-> InitK(IF mode = "other" THEN "mc" ELSE mode, KHCfg(cfg)), im |-> mode, dcfg |-> cfg, hi |-> 0, keys |-> KeySet(cfg), hint |-> cfg.hint,
   pre |-> pre, uf |-> uf, foc |-> TRUE, bg |-> bg, files |-> NoFiles, dirty |-> FALSE, due |-> FALSE, dat |-> <<>>,
   lab |-> IF mode = "other" THEN [half |-> FALSE, assoc |-> FALSE, on |-> FALSE] ELSE [half |-> cfg.half, assoc |-> cfg.assoc, on |-> TRUE]]
\* The framework is restarted: settings and files stay, what was learnt does
\* not.  Missing files are created, except that for replacements.
Restarted(X, s) ==
  LET r == FocusOut(s)
      f == [s.files EXCEPT !.ug = FALSE]
  IN [r EXCEPT !.s = [InitS(s.im, s.dcfg, s.pre, s.uf, s.bg) EXCEPT !.files = f, !.dat = Loaded(X, f)]]

EngineStep1(X, s, e) ==
  CASE e.k = "key" -> KeyEvent(X, s, e)
    [] e.k = "click" -> Click(X, s, e.i)
    [] e.k = "out" -> FocusOut(s)
    [] e.k = "in" -> FocusIn(s)
    [] e.k = "sw" -> Turning(s)
    [] e.k = "reset" -> Reset(s)
    [] e.k = "im" -> SwitchTo(s, e.im)
    [] e.k = "cfg" -> Nothing(Set(s, e.cfg), FALSE)
    [] e.k = "conf" -> Nothing(Reread(s, e.cfg), FALSE)
    [] e.k = "restart" -> Restarted(X, s)
    [] e.k = "act" -> Toggle(s, e.act)
    [] e.k = "file" -> Nothing(Edited(s, e), FALSE)
EngineStep(X, s, e) ==
  LET r == EngineStep1(X, s, e)
      act == r.s.im # "other" /\ (e.k \in {"in", "sw"} \/ (e.k = "im" /\ e.im # s.im))
  IN [r EXCEPT !.s = Settle(X, r.s, r.add, act)]

---------------------------------------------------------------------------
(* Well-formedness *)
EngineOK(X, s) ==
  /\ KOK(Dat(X, s), IF s.k.mode = "plain" THEN [s.k EXCEPT !.uom = EmptyUom] ELSE s.k)
  /\ s.hi >= 0 /\ (IsList(s.k.st) => s.hi < EngListSize(X, s.k.st))
  /\ ~s.foc => s.k.st.t = "Empty"
  /\ s.im = "other" => s.k.st.t = "Empty"
===========================================================================
