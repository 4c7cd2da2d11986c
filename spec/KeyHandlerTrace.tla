--------------------------- MODULE KeyHandlerTrace ---------------------------
(* Conformance of recorded KeyHandler executions with KeyHandler.tla. *)
EXTENDS KeyHandler, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
Ds == JsonDeserialize(IOEnv.VF_DATA)

VARIABLES t, l, k
vars == <<t, l, k>>
Dat == Ds[Traces[t].lm]
RaisedUnits == 4200
LearnUnits == -800
CapacityV == 500

ASSUME \A i \in DOMAIN Ds : \A r \in DOMAIN Ds[i].u :
         \A j \in 1..(Len(Ds[i].u[r])-1) : Ds[i].u[r][j].s > Ds[i].u[r][j+1].s

---------------------------------------------------------------------------
(* Which property an aspect of an event belongs to *)
PlainTag(m) == IF m.mode = "plain" THEN " C12" ELSE ""
NumberState(s) == s.t \in {"CN", "EN", "Feature", "DateMacro"}
KeyTags(m, e) ==
  IF NumberState(m.st) \/ (e.c = "\\" /\ e.ct) THEN "C13"
  ELSE IF e.c \in {"BS", "DEL"} THEN "C08"
  ELSE IF e.c \in {"LEFT", "RIGHT", "HOME", "END"} THEN IF e.sh \/ m.st.t = "Marking" THEN "C10 C08" ELSE "C08"
  ELSE IF e.c = "RET" THEN IF m.st.t = "Marking" THEN "C10"
                           ELSE IF e.sh THEN "C11" ELSE IF e.ct THEN "C15" ELSE "C06"
  ELSE IF e.c = "TAB" THEN "C09"
  ELSE IF e.c = "ESC" THEN "C06 C07"
  ELSE IF e.c = " " /\ e.sh THEN "C06"
  ELSE IF e.c \in {"DOWN", " "} /\ RbEmpty(m.rb) THEN "C09"
  ELSE IF e.c = " " \/ RbKey(m.rb, Simple(e))
       THEN (IF m.uom # EmptyUom THEN "C05 C14" ELSE "C05") \o (IF m.cfg.assoc THEN " C11" ELSE "")
  ELSE IF Printable(e) THEN "C15" ELSE "C07"
OpTags(m, e) ==
  (CASE e.k = "key" -> KeyTags(m, e)
     [] e.k = "sel" -> CASE m.st.t = "Choosing" -> IF m.mode = "mc" THEN "C09 C04 C03" ELSE "C12"
                         [] m.st.t = "Assoc" -> "C11"
                         [] m.st.t = "AssocPlain" -> "C12"
                         [] m.st.t = "SelDict" -> "D01"
                         [] OTHER -> "C13"
     [] e.k = "cancel" -> CASE m.st.t = "Assoc" -> "C11" [] m.st.t \in {"SelDict", "CharInfo"} -> "D01"
                            [] m.st.t \in {"Feature", "DateMacro"} -> "C09 C13 C06" [] OTHER -> "C09"
     [] e.k = "move" -> "C09"
     [] e.k = "assoc" -> "C11"
     [] e.k = "dict" -> "D01"
     [] e.k = "trad" -> "C12"
     [] OTHER -> "C06") \o PlainTag(m)
\* Within a composition, the text after a choice is also a matter of the choice
\* itself being kept.
Bad(c, p, what) == IF c THEN {} ELSE {<<p, ToString(what)>>}

---------------------------------------------------------------------------
CharsOf(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
TextBad(tags, m, o) ==
  Bad(o.h \o o.l = m.h \o m.l, "C05 " \o tags, <<"text expected", m.h, m.l, "got", o.h, o.l>>)
  \cup Bad(o.h = m.h /\ "beyond" \notin DOMAIN o, "C05 " \o tags, <<"cursor expected", m.h, m.l, "got", o.h, o.l>>)
CandBad(tags, m, o) ==
  Bad(o.cands = m.cands, tags, <<"list expected", m.cands, "got", o.cands>>)
StBad(tags, m, o) ==
  IF o.t # m.t THEN Bad(FALSE, tags, <<"state expected", m.t, "got", o.t>>)
  ELSE CASE m.t = "Empty" -> {}
         [] m.t = "Inputting" -> TextBad(tags, m, o) \cup Bad(o.tip = m.tip, "C05", <<"notice expected", m.tip, "got", o.tip>>)
         [] m.t = "Choosing" -> TextBad(tags, m, o) \cup CandBad(tags \o " C04", m, o)
                                \cup Bad(o.oc = m.oc, "C09", <<"cursor to restore, expected", m.oc, "got", o.oc>>)
         [] m.t = "Marking" ->
              Bad(<<o.h, o.m, o.l>> = <<m.h, m.m, m.l>> /\ o.buf = m.h \o m.m \o m.l, "C10 C05", <<"mark expected", m.h, m.m, m.l, "got", o.h, o.m, o.l, o.buf>>)
              \cup Bad(o.up = m.up, "C05 C10", <<"cursor expected", m.up, "got", o.up>>)
              \cup Bad(<<o.rd, o.acc, o.b>> = <<m.rd, m.acc, m.b>>, "C10", <<"expected", m.rd, m.acc, m.b, "got", o.rd, o.acc, o.b>>)
              \cup Bad(o.tip = m.tip, "C10", <<"notice expected", m.tip, "got", o.tip>>)
         [] m.t = "Assoc" -> TextBad(tags, m, o) \cup CandBad("C11", m, o)
              \cup Bad(<<o.pc, o.pr, o.pv, o.si, o.sh, o.prev>> = <<m.pc, m.pr, m.pv, m.si, m.sh, m.prev.t>>, "C11",
                       <<"expected", <<m.pc, m.pr, m.pv, m.si, m.sh, m.prev.t>>, "got", o>>)
         [] m.t = "AssocPlain" -> CandBad("C12 C11", m, o)
         [] m.t = "SelDict" -> TextBad(tags, m, o)
              \cup Bad(<<o.ph, o.si, o.prev>> = <<m.ph, m.si, m.prev.t>> /\ Len(o.menu) = 1, "D01", <<"expected", m.ph, m.si, "got", o>>)
         [] m.t = "CharInfo" -> TextBad(tags, m, o) \cup Bad(<<o.ph, o.prev>> = <<m.ph, m.prev.t>>, "D01", <<"expected", m.ph, "got", o>>)
         [] m.t = "Feature" -> Bad(o.menu = FeatureNames, "C13", <<"menu expected", FeatureNames, "got", o.menu>>)
         [] m.t = "DateMacro" -> Bad(o.menu = m.menu, "C13 I01", <<"menu expected", m.menu, "got", o.menu>>)
         [] m.t = "CN" -> Bad(CharsOf(o.num) = m.num /\ o.style = m.style, "C13", <<"entry expected", m.num, m.style, "got", o.num, o.style>>)
         [] m.t = "EN" -> Bad(CharsOf(o.num) = m.num, "C13", <<"entry expected", m.num, "got", o.num>>)
Added(r) == [i \in DOMAIN r.add |-> r.add[i]]
Check(m, e, r, o) ==
  LET tags == OpTags(m, e)
      n == r.k
      probe == InpSt(Dat, n)
  IN Bad(o.com = r.com, "C06 " \o tags, <<"committed", o.com, "expected", r.com>>)
     \cup Bad(e.k \in {"key", "trad"} => o.ret = r.ret, "C07 " \o tags, <<"consumed", o.ret, "expected", r.ret>>)
     \cup Bad(r.err = "?" \/ o.err = (r.err = "y"), "C07", <<"error signalled", o.err, "expected", r.err>>)
     \cup Bad(o.add = r.add /\ o.hook = [i \in DOMAIN r.add |-> r.add[i][2]], "C10", <<"added", o.add, o.hook, "expected", r.add>>)
     \cup StBad(tags, n.st, o.st)
     \cup Bad(o.pr.h = probe.h /\ o.pr.l = probe.l /\ "beyond" \notin DOMAIN o.pr, "C05 " \o tags, <<"composition expected", probe.h, probe.l, "got", o.pr>>)
     \cup Bad(o.pr.cc = Cursor(n), tags, <<"reading cursor expected", Cursor(n), "got", o.pr.cc>>)
     \cup Bad(o.pr.tip = probe.tip, "C05", <<"notice expected", probe.tip, "got", o.pr.tip>>)

---------------------------------------------------------------------------
Init == t \in DOMAIN Traces /\ l = 0 /\ k = InitK(Traces[t].mode, Traces[t].cfg)
Ev == Traces[t].ev[l+1]
Skip == /\ PrintT(<<"SKIP", t, l+1>>) /\ l' = 2000000 /\ UNCHANGED <<t, k>>
Step ==
  LET e0 == Ev
      usable == IF e0.k # "END" /\ Applies(k, e0) THEN 1
                ELSE IF "alt" \in DOMAIN e0 /\ Applies(k, e0.alt) THEN 2 ELSE 0
      e == IF usable = 2 THEN e0.alt ELSE e0
  IN IF "crash" \in DOMAIN e0
     THEN /\ PrintT(<<"MISMATCH", "C07 " \o (IF usable = 0 THEN "C05" ELSE OpTags(k, e)), t, l+1, e0.k, e0.crash>>)
          /\ l' = 1000000 /\ UNCHANGED <<t, k>>
     ELSE IF usable = 0
     THEN IF e0.o.eff = "na" THEN l' = l + 1 /\ UNCHANGED <<t, k>>
          ELSE /\ PrintT(<<"MISMATCH", "C05", t, l+1, e0.k, ToString(e0.o)>>)
               /\ l' = 1000000 /\ UNCHANGED <<t, k>>
     ELSE LET r == Apply(Dat, k, e)
          \* Letters of an unfinished syllable cannot be carried over into another keyboard;
          \* the engine never changes it while they are on display.
          IN IF r.k.c.tie \/ (e.k = "cfg" /\ ~RbEmpty(k.rb) /\ RbEmpty(r.k.rb)) THEN Skip
             ELSE LET bad == Check(k, e, r, e0.o)
                  IN IF bad = {} THEN l' = l + 1 /\ k' = r.k /\ t' = t
                     ELSE /\ \A b \in bad : PrintT(<<"MISMATCH", b[1], t, l+1, e.k, b[2]>>)
                          /\ l' = 1000000 /\ UNCHANGED <<t, k>>
Next == l < Len(Traces[t].ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == KOK(Dat, k)
===========================================================================
