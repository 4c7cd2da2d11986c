---------------------------- MODULE KeyHandlerMC ----------------------------
(* Exhaustive exploration of KeyHandler.tla for a small language model and a
   handful of keys, over several settings; every transition is printed with the
   history leading to it, to be replayed on the code. *)
EXTENDS KeyHandler, SmallKeyboard, Json, IOUtils
CONSTANTS MaxReadings, Modes, Assocs, Full, Ops
VARIABLES k, act, hist
vars == <<k, act, hist>>

Dat == TLCEval(JsonDeserialize(IOEnv.VF_SMALL))
RaisedUnits == 4200
NoLearning == 0
CapacityV == 500
BothModes == {"mc", "plain"}
McOnly == {"mc"}
NoAssoc == {FALSE}
YesAssoc == {TRUE}
BothAssoc == {FALSE, TRUE}

Cfg(selAfter, moveAfter, esc, lower, ce, assoc) ==
  [layout |-> "Standard", selAfter |-> selAfter, moveAfter |-> moveAfter, escClear |-> esc, lower |-> lower,
   ctrlEnter |-> ce, assoc |-> assoc, half |-> FALSE]
Cfgs == IF Full THEN {Cfg(s, m, s # m, m, IF s THEN 1 ELSE 2, a) : s \in BOOLEAN, m \in BOOLEAN, a \in Assocs}
        ELSE {Cfg(s, s, ~s, s, IF s THEN 1 ELSE 0, a) : s \in BOOLEAN, a \in Assocs}

Key(c) == [k |-> "key", c |-> c, sh |-> FALSE, ct |-> FALSE, np |-> FALSE]
Sh(c) == [Key(c) EXCEPT !.sh = TRUE]
Ct(c) == [Key(c) EXCEPT !.ct = TRUE]
Np(c) == [Key(c) EXCEPT !.np = TRUE]
Sel(n) == {[k |-> "sel", i |-> i] : i \in 0..n}
Edit == {Key(c) : c \in {"8", "3", " ", "BS", "DEL", "LEFT", "RIGHT", "RET", "ESC"}} \cup {[k |-> "cancel"]}
OpsEdit == Edit \cup {Key("TAB"), Sh("TAB"), Sh("LEFT"), Sh("RIGHT"), Key("HOME")} \cup Sel(3)
           \cup {[k |-> "move", d |-> -1], [k |-> "move", d |-> 1]}
OpsAssoc == Edit \cup {Sh("RET"), [k |-> "assoc", i |-> 0], [k |-> "assoc", i |-> 2]} \cup Sel(2)
OpsSymbol == {Key(c) : c \in {"8", "3", " ", "BS", "LEFT", "RET", "ESC", "<", "[", "A", "UNK", "TAB"}}
             \cup {Sh(" "), Ct("RET"), Ct("\\"), Np("1"), Np("."), [k |-> "cancel"], [k |-> "reset", commit |-> TRUE]} \cup Sel(4)
             \cup {[k |-> "trad", c |-> c, i |-> 1, sh |-> FALSE, ct |-> FALSE, np |-> FALSE] : c \in {"8", "<"}}
             \cup {[k |-> "dict", i |-> 0]}

Do(op) ==
  /\ Applies(k, op)
  /\ (IF op.k = "sel" THEN op.i < ListSize(k.st) ELSE TRUE) = TRUE
  /\ (IF op.k = "key" /\ k.st.t \in {"CN", "EN"} /\ op.c \in {"1", "3", "8", "."} THEN Len(k.st.num) < 3 ELSE TRUE) = TRUE
  /\ LET r == Apply(Dat, k, op) IN
     /\ Len(r.k.c.g.rd) <= MaxReadings
     /\ k' = r.k
     /\ act' = [op |-> op, com |-> r.com, err |-> r.err, ret |-> r.ret, add |-> r.add]
     /\ hist' = Append(hist, op)
NoAct == [op |-> [k |-> "init"], com |-> "", err |-> "n", ret |-> TRUE, add |-> <<>>]
Init == \E m \in Modes, c \in Cfgs :
          /\ k = InitK(m, c) /\ act = NoAct /\ hist = <<[k |-> "init", mode |-> m, cfg |-> c]>>
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == k

OK == KOK(Dat, k)
IsKey(c) == act'.op.k = "key" /\ act'.op.c = c
\* What is delivered begins with what was on display, except for the outputs
\* that replace it (Ctrl+Enter) or choose something else (plain mode).
Delivered == [][(act'.com # "" /\ Pending(k) # "" /\ k.mode = "mc" /\ ~(IsKey("RET") /\ act'.op.ct))
                => StartsWith(act'.com, Pending(k))]_vars
\* Pending text disappears only when delivered, deleted or cancelled.
NeverLost == [][(Pending(k) # "" /\ Pending(k') = "" /\ act'.com = "")
    => \/ act'.op.k = "cancel" \/ act'.op.k = "reset"
       \/ IsKey("ESC") \/ IsKey("BS") \/ IsKey("DEL")
       \/ act'.err = "y" /\ k.c.g.rd = <<>>                        \* no such syllable
       \/ act'.op.k = "key" /\ act'.op.ct /\ act'.op.c = "RET"]_vars    \* readings of nothing
\* A delivery leaves nothing behind.
NothingLeft == [][(act'.com # "" /\ k.mode = "mc") => k'.c.g.rd = <<>> /\ RbEmpty(k'.rb)]_vars
\* Refused keys leave the text alone; unconsumed keys change nothing at all.
RefusedSame == [][(act'.err = "y" /\ RbEmpty(k.rb)) => Shown(InpSt(Dat, k')) = Shown(InpSt(Dat, k))]_vars
UnconsumedSame == [][(~act'.ret /\ k.st.t # "AssocPlain") => k' = k]_vars
\* (While a list is on display the engine absorbs every key itself.)
ConsumedWhileComposing == [][(NotEmpty(k.st) /\ ~act'.ret) => (act'.op.ct \/ IsList(k.st))]_vars
\* Opening a list, marking and moving never change the text.
TextFixed == [][(act'.op.k \in {"move", "dict", "assoc"} \/ IsKey("LEFT") \/ IsKey("RIGHT") \/ IsKey("HOME")
                 \/ (act'.op.k = "cancel" /\ k.mode = "mc") \/ (IsKey(" ") /\ ~act'.op.sh /\ k'.st.t = "Choosing" /\ RbEmpty(k.rb)))
                => Shown(InpSt(Dat, k')) = Shown(InpSt(Dat, k)) /\ k'.c.g.rd = k.c.g.rd]_vars
\* Choosing shows the candidate and keeps the readings.
ChosenShows == [][(act'.op.k = "sel" /\ k.st.t = "Choosing" /\ k.mode = "mc")
    => LET cand == k.st.cands[act'.op.i + 1]
           i == NodeIndexAt(k'.c.w, Length(k), HereIdx(k)) + 1
       IN /\ k'.c.g.rd = k.c.g.rd
          /\ k'.c.T[k'.c.w[i]].r = cand[1] /\ Val(k'.c, i) = cand[2]]_vars
\* A phrase is added only by confirming an acceptable mark, and the text stays.
AddedMark == [][act'.add # <<>> => /\ k.st.t = "Marking" /\ k.st.acc /\ act'.add = <<<<k.st.rd, k.st.m>>>>
                                   /\ Shown(k'.st) = Shown(k.st)]_vars
\* Inserting an associated phrase keeps what surrounds it.
AssocKeeps == [][(act'.op.k = "sel" /\ k.st.t = "Assoc")
    => LET e == k.st.es[act'.op.i + 1]
           n == Len(e.rd) - k.st.pn
           end == k.st.pc + 1
       IN Len(k'.c.g.rd) = Length(k) + n
          => \/ k'.c.g.rd = SubSeq(k.c.g.rd, 1, end) \o SubSeq(e.rd, k.st.pn + 1, Len(e.rd)) \o SubSeq(k.c.g.rd, end + 1, Length(k))
             \/ ~k.st.sh]_vars
Emit == PrintT("SCN " \o ToJson([s |-> ToString(<<k.mode, k.cfg, k.c.g, k.rb, k.st.t>>), h |-> hist']))
===========================================================================
