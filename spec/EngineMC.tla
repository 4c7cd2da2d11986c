------------------------------ MODULE EngineMC ------------------------------
(* Exhaustive exploration of Engine.tla: physical keys, lists of several pages,
   focus changes, resets, input method switches and setting changes. *)
EXTENDS Engine, SmallKeyboard, Json, IOUtils
CONSTANTS MaxReadings, Modes, Ops, Cfgs, OneIn
VARIABLES s, act, hist
vars == <<s, act, hist>>

D0 == TLCEval(JsonDeserialize(IOEnv.VF_SMALL))
RaisedUnits == 4200
NoLearning == 0
CapacityV == 500
X == [mc |-> [u |-> D0.u, fu |-> D0.u, ch |-> D0.ch, assoc |-> D0.assoc],
      plain |-> [u |-> D0.plain, fu |-> D0.plain, ch |-> D0.ch, assoc |-> D0.assoc],
      dict |-> << [name |-> "P", pre |-> "p:", post |-> ":q", fixed |-> FALSE] >>,
      enc |-> [c \in DOMAIN D0.ch |-> c], bytes |-> [c \in DOMAIN D0.ch |-> 1], wide |-> {}]
BothModes == {"mc", "plain"}
McOnly == {"mc"}

Cfg(keys, hint, jk, b, assoc) ==
  [layout |-> "Standard", selAfter |-> b, moveAfter |-> ~b, escClear |-> b, lower |-> FALSE, ctrlEnter |-> 0,
   assoc |-> assoc, half |-> FALSE, kb |-> "standard", hint |-> hint, keys |-> keys, jk |-> jk, hook |-> FALSE,
   count |-> IF b THEN 5 ELSE 9, open |-> "ed", hookp |-> ""]
CfgsPage == {Cfg("123456789", "Vertical", TRUE, FALSE, FALSE), Cfg("asdfghjkl", "Horizontal", FALSE, TRUE, TRUE)}
CfgsBreak2 == {Cfg("123456789", "Not Set", FALSE, b, TRUE) : b \in BOOLEAN}
CfgsBreak == {Cfg("123456789", "Not Set", FALSE, b, a) : a \in BOOLEAN, b \in BOOLEAN}

Ev(n, sh, ct) == [k |-> "key", n |-> n, sh |-> sh, ct |-> ct, alt |-> FALSE, sup |-> FALSE, caps |-> FALSE, num |-> FALSE, rel |-> FALSE]
K(n) == Ev(n, FALSE, FALSE)
Sh(n) == Ev(n, TRUE, FALSE)
Clk(i) == [k |-> "click", i |-> i]
Base == {K("8"), K("3"), K(" "), K("BS"), K("RET"), K("ESC")}
OpsPage == Base \cup {K("LEFT"), K("RIGHT"), K("UP"), K("DOWN"), K("PGDN"), K("PGUP"), K("KP_Down"), K("KP_2"), K("2"), K("s"), K("j"),
                      Sh("@"), Sh("?"), Sh("RET"), Sh("RIGHT"), Clk(1), [K("2") EXCEPT !.caps = TRUE]}
OpsBreak == (Base \ {K("BS")}) \cup {K("LEFT"), Sh("LEFT"), K("2"), K("`"), Sh("?"), Sh("@"), Ev("\\", FALSE, TRUE), Clk(0),
                    [k |-> "out"], [k |-> "in"], [k |-> "sw"], [k |-> "reset"], [k |-> "im", im |-> "other"], [k |-> "im", im |-> "mc"],
                    [k |-> "im", im |-> "plain"], [k |-> "act", act |-> "assoc"], [K("8") EXCEPT !.rel = TRUE]}

File(w, x, gone) == [k |-> "file", w |-> w, x |-> x, gone |-> gone]
OpsBreak2 == OpsBreak \ {[k |-> "sw"], [k |-> "act", act |-> "assoc"], [K("8") EXCEPT !.rel = TRUE], Ev("\\", FALSE, TRUE), K("`")}
OpsFiles == {K("8"), K("3"), K("RET"), Sh("LEFT"), [k |-> "out"], [k |-> "in"], [k |-> "im", im |-> "plain"], [k |-> "im", im |-> "mc"],
             File("user", <<[v |-> "ce", k |-> "ad-ad"]>>, FALSE), File("user", <<>>, TRUE),
             File("excl", <<[v |-> "ee", k |-> "ad-ad"]>>, FALSE), File("repl", <<[v |-> "e", to |-> "n"], [v |-> "ce", to |-> "be"]>>, FALSE)}
OpsFiles2 == OpsFiles \cup {K("ESC"), K("LEFT"), File("repl", <<>>, TRUE), File("excl", <<[v |-> "e", k |-> "ad"]>>, FALSE),
             File("user", <<[v |-> "g", k |-> "ad"]>>, FALSE)}
Set1(c) == [k |-> "cfg", cfg |-> c]
OpsSet == {K("8"), K("3"), K(" "), K("RET"), K("6"), [k |-> "out"], [k |-> "in"], [k |-> "restart"], [k |-> "im", im |-> "plain"], [k |-> "im", im |-> "other"],
           [k |-> "im", im |-> "mc"], [k |-> "act", act |-> "assoc"], [k |-> "act", act |-> "half"], [k |-> "act", act |-> "user"],
           Set1([count |-> 4]), Set1([selAfter |-> TRUE]), Set1([escClear |-> TRUE, keys |-> "asdfghjkl"]), [k |-> "conf", cfg |-> [assoc |-> TRUE]]}
CfgsSet == {Cfg("123456789", "Not Set", FALSE, FALSE, FALSE)}
CfgsFiles == {Cfg("123456789", "Not Set", FALSE, FALSE, FALSE)}
\* a short form for printing
Short(op) == IF op.k = "key" THEN [n |-> op.n, m |-> IF op.sh THEN "S" ELSE IF op.ct THEN "C" ELSE IF op.caps THEN "L" ELSE IF op.rel THEN "R" ELSE ""] ELSE op
Do(op) ==
  /\ (IF op.k = "im" THEN op.im # s.im ELSE TRUE) = TRUE
  /\ (IF op.k = "click" THEN IsList(s.k.st) /\ s.im # "other" /\ s.foc ELSE TRUE) = TRUE
  /\ (IF op.k = "in" THEN ~s.foc ELSE s.foc) = TRUE
  /\ (IF op.k = "act" THEN op.act \in Menu(s) ELSE TRUE) = TRUE
  /\ (IF op.k \in {"cfg", "conf"} THEN IF op.k = "cfg" THEN Set(s, op.cfg) # s ELSE Reread(s, op.cfg) # s ELSE TRUE) = TRUE
  /\ (IF op.k = "key" /\ s.k.st.t \in {"CN", "EN"} /\ op.n \in {"2", "3", "8"} THEN Len(s.k.st.num) < 1 ELSE TRUE) = TRUE
  /\ (IF op.k = "file" THEN Edited(s, op).files # s.files ELSE ~(s.due /\ op.k = "key" /\ op.n \notin {"RET", "ESC"})) = TRUE
  /\ LET r == EngineStep(X, s, op) IN
     /\ Len(r.s.k.c.g.rd) <= MaxReadings
     /\ Len(r.s.files.user) <= 2
     /\ s' = r.s
     /\ act' = [op |-> op, com |-> r.com, proc |-> r.proc, acc |-> r.acc, add |-> r.add]
     /\ hist' = Append(hist, Short(op))
NoAct == [op |-> [k |-> "init"], com |-> "", proc |-> <<>>, acc |-> FALSE, add |-> <<>>]
Init == \E m \in Modes, c \in Cfgs :
          /\ s = InitS(m, c, c.selAfter, FALSE, [im |-> IF m = "mc" THEN "plain" ELSE "mc", pre |-> ~c.selAfter, uf |-> FALSE]) /\ act = NoAct /\ hist = <<[k |-> "init", mode |-> m, cfg |-> c]>>
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == s
\* Bounds on the length of the histories, where the whole space is out of reach.
Deep15 == TLCGet("level") <= 15
Deep7 == TLCGet("level") <= 7
Deep8 == TLCGet("level") <= 8
Deep10 == TLCGet("level") <= 10
Deep16 == TLCGet("level") <= 16

OK == EngineOK(X, s)
InList == IsList(s.k.st)
Is1(k) == act'.op.k = k
Text(x) == Shown(InpSt(Dat(X, x), x.k))
\* The highlighted entry is on the page on display.
Highlighted == InList => Page(s) < Pages(X, s) /\ s.hi - PageSize(s) * Page(s) < OnPage(X, s, Page(s))
\* A key with a list on display is taken, unless it is none of ours.
ListTakesKeys == [][(Is1("key") /\ InList /\ ~NotOurs(act'.op)) => act'.acc]_vars
NotOursIgnored == [][(Is1("key") /\ NotOurs(act'.op)) => s' = s /\ ~act'.acc /\ act'.com = ""]_vars
\* Moving about in a list changes nothing but the highlight.
Browsing == [][(Is1("key") /\ InList /\ PageKey(Norm(act'.op), Layout(X, s) = "v") # ""
                /\ SelPos(s, act'.op) = 0) => s'.k = s.k /\ act'.com = ""]_vars
\* Leaving a list delivers nothing.
LeavingSilent == [][(Is1("key") /\ InList /\ act'.op.n \in {"ESC", "BS"}) => act'.com = ""]_vars
\* Leaving a lookup or continuation list returns to the entry it was opened on.
BackWhere == [][(Is1("key") /\ act'.op.n = "ESC" /\ (s.k.st.t = "SelDict" \/ (s.k.st.t = "Assoc" /\ ~s.k.st.sh)) /\ s.k.st.prev.t = "Choosing")
                => s'.k.st = s.k.st.prev /\ s'.hi = s.k.st.si]_vars
\* Interruptions leave an idle engine, and deliver the text exactly once or leave that to the client.
Interrupted == [][(Is1("out") \/ Is1("sw") \/ Is1("reset") \/ Is1("im"))
    => /\ s'.k.st.t = "Empty" /\ s'.k.c.g.rd = <<>> /\ RbEmpty(s'.k.rb)
       /\ (Is1("reset") => act'.com = "")
       /\ (Is1("im") => act'.com = IF s.im = "other" THEN "" ELSE Pending(s.k))]_vars
\* Settings never change the text.
SettingsSilent == [][Is1("act") => act'.com = "" /\ s'.k.st = s.k.st /\ s'.k.c = s.k.c]_vars
\* Delivered text does not stay.
NotTwice == [][(act'.com # "" /\ s.k.mode = "mc" /\ s'.k.mode = "mc") => s'.k.c.g.rd = <<>> /\ RbEmpty(s'.k.rb)]_vars
\* The user's files.
InEffect == s.dirty \/ s.due \/ s.dat = Loaded(X, s.files)
Dats == {X.mc, X.plain} \cup (IF s.dat = <<>> THEN {} ELSE {s.dat[1].mc, s.dat[1].plain})
OwnFirst == (s.dat # <<>> /\ InEffect /\ ~s.dirty /\ ~s.due /\ ~s.files.ug) =>
  LET u == s.dat[1].mc.u
      f == s.files
      gone(e) == \E i \in DOMAIN f.excl : f.excl[i].v = e.v /\ f.excl[i].k = e.k
      shown(e) == LMM!Replaced([repl |-> f.repl, ron |-> ~f.rg], e.v)
  IN \A i \in DOMAIN f.user : LET e == f.user[i] IN
       ~gone(e) => /\ e.k \in DOMAIN u /\ HasValue(u[e.k], shown(e))
                   /\ \A j \in DOMAIN u[e.k] : u[e.k][j].v = shown(e) => u[e.k][j].s = u[e.k][1].s
                   /\ \A j \in DOMAIN u[e.k] : u[e.k][j].s <= u[e.k][1].s
NoTextTwice == \A D \in Dats : \A r \in DOMAIN D.u : D.u[r] # <<>> /\ Cardinality(LMM!Texts(D.u[r])) = Len(D.u[r])
EditsSilent == [][Is1("file") => act'.com = "" /\ s'.k = s.k /\ s'.hi = s.hi /\ s'.dat = s.dat]_vars
AddedWritten == [][act'.add # <<>> => IF s.files.ug THEN s'.files = s.files
                                      ELSE s'.files.user = s.files.user \o <<[v |-> act'.add[1][2], k |-> act'.add[1][1]]>>]_vars
\* Settings: one changes only what it names; what is stored outlives a restart,
\* and is in effect from an activation on; menus take effect at once.
Named1(c) == \A f \in DOMAIN s.dcfg : (f \notin DOMAIN c => s'.dcfg[f] = s.dcfg[f]) /\ (f \in DOMAIN c => s'.dcfg[f] = c[f])
OnlyNamed == [][/\ (Is1("cfg") => Named1(act'.op.cfg) /\ s'.k = s.k /\ s'.hi = s.hi /\ s'.keys = s.keys /\ act'.com = "")
                /\ (Is1("conf") => \A f \in DOMAIN s.dcfg : s'.dcfg[f] = IF f \in DOMAIN act'.op.cfg THEN act'.op.cfg[f] ELSE Defaults[f])
                /\ (~(Is1("cfg") \/ Is1("conf") \/ Is1("act")) => s'.dcfg = s.dcfg)]_vars
Outlives == [][Is1("restart") => s'.dcfg = s.dcfg /\ s'.files.user = s.files.user /\ s'.k.st.t = "Empty" /\ s'.im = s.im]_vars
Activated == [][(s'.im # "other" /\ (Is1("in") \/ Is1("sw") \/ Is1("restart") \/ (Is1("im") /\ s'.im # s.im)))
                => (\A f \in DOMAIN s'.k.cfg : s'.k.cfg[f] = s'.dcfg[f]) /\ s'.lab = [half |-> s'.dcfg.half, assoc |-> s'.dcfg.assoc, on |-> TRUE]]_vars
AtOnce == [][(Is1("act") /\ s'.dcfg # s.dcfg) => LET w == act'.op.act IN
                s'.k.cfg[w] = ~s.dcfg[w] /\ s'.dcfg = [s.dcfg EXCEPT ![w] = ~@] /\ s'.lab = [s.lab EXCEPT ![w] = s'.dcfg[w]] /\ act'.proc = <<>>]_vars
\* Every transition, or a sample of them.
Emit == (OneIn > 1 /\ RandomElement(1..OneIn) # 1) \/ PrintT("SCN " \o ToJson([s |-> ToString(<<s.k.mode, s.dcfg.keys, s.dcfg.assoc, s.dcfg.selAfter, s.k.c.g, s.k.rb, s.k.st.t, s.hi, s.im>>), h |-> hist']))
===========================================================================
