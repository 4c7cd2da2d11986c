---------------------------- MODULE EngineTrace ----------------------------
(* Conformance of executions recorded from the engine inside the framework. *)
EXTENDS Engine, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
Xs == JsonDeserialize(IOEnv.VF_DATA)
RaisedUnits == 4200
LearnUnits == -800
CapacityV == 500

VARIABLES t, l, s, seen
vars == <<t, l, s, seen>>
X0 == Xs.data[Traces[t].lm]
X == [mc |-> X0.mc, plain |-> X0.plain, enc |-> Xs.enc, bytes |-> Xs.bytes, wide |-> Range(Xs.wide),
      dict |-> IF Traces[t].dict = 0 THEN <<>> ELSE Xs.dicts[Traces[t].dict]]

Bad(c, p, what) == IF c THEN {} ELSE {<<p, ToString(what)>>}
ListTag(st) == CASE st.t = "Choosing" -> "C09" [] st.t = "Assoc" -> "C11" [] st.t = "AssocPlain" -> "C12 C11"
                 [] st.t \in {"SelDict", "CharInfo"} -> "D01" [] OTHER -> "C13"
\* A key for a mark: what it types is a matter of C15 too.
Mark(e) == Len(e.n) = 1 /\ (e.ct \/ \E i \in 1..33 : SubSeq("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ ", i, i) = e.n)
Tag(e) == (IF s.dat = <<>> THEN "" ELSE "C10 L01 L02 ") \o (IF seen.set THEN "K01 " ELSE "") \o
          CASE e.k = "key" -> IF IsList(s.k.st) THEN (IF OnPad(e) THEN "E03 E01 " ELSE "E01 ") \o ListTag(s.k.st) \o (IF s.k.mode = "plain" THEN " C12" ELSE "")
                              ELSE "E03" \o (IF Mark(e) THEN " C15" ELSE "") \o (IF s.k.st.t = "Empty" THEN IF seen.last = "SelDict" THEN " C06 D01" ELSE " C06" ELSE "") \o (IF seen.intr THEN " E02" ELSE "") \o (IF s.k.mode = "plain" THEN " C12" ELSE "")
            [] e.k = "click" -> "E01 " \o ListTag(s.k.st)
            [] e.k = "act" -> "E01 C11 C15 K01"
            [] e.k \in {"cfg", "conf"} -> "E01 K01" [] e.k = "restart" -> "E02 K01" [] e.k = "file" -> "L02"
            [] OTHER -> "E02"
PreBad(tag, n, o) ==
  LET p == Pre(n.k.st) IN
  Bad(o.pe.h \o o.pe.l = p.h \o p.l /\ o.other = "" /\ o.same, "E03 C05 " \o tag, <<"pre-edit expected", p, "got", o.pe, o.other, o.same>>)
  \cup Bad(p.h \o p.l # "" => (o.pe.h = p.h /\ o.pe.c = "ok"), "E03 C05 " \o tag, <<"cursor expected after", p.h, "got", o.pe>>)
  \cup Bad(ConcatStr(o.pe.hl) = p.hl, "E03 C10 " \o tag, <<"highlight expected", p.hl, "got", o.pe>>)
  \cup Bad(o.aux = Aux(n.k.st) /\ o.auxu \in {"", "x"}, "E03 C05 " \o tag, <<"notice expected", Aux(n.k.st), "got", o.aux, o.auxu>>)
WinBad(tag, n, o) ==
  LET st == n.k.st
      pg == Page(n)
      here == OnPage(X, n, pg)
      want == [i \in 1..here |-> ItemText(X, st, PageSize(n) * pg + i)]
      lay == {Layout(X, n), Layout(X, [n EXCEPT !.dcfg.hint = n.hint])}
  IN IF ~IsList(st) THEN Bad(~o.w.on, "E01 " \o tag, <<"no list expected, got", o.w>>)
     ELSE IF ~o.w.on THEN Bad(FALSE, "E01 " \o tag, <<"list expected", st.t>>)
     ELSE Bad(o.w.total = EngListSize(X, st) /\ o.w.pages = Pages(X, n), "E01 " \o tag, <<"list size expected", EngListSize(X, st), "got", o.w.total, o.w.pages>>)
          \cup Bad(o.w.page = pg /\ o.w.cur = n.hi - PageSize(n) * pg, "E01 " \o tag, <<"highlight expected", pg, n.hi - PageSize(n) * pg, "got", o.w.page, o.w.cur>>)
          \cup Bad(Len(o.w.items) = here /\ (st.t = "DateMacro" \/ o.w.items = want), "E01 " \o tag, <<"entries expected", want, "got", o.w.items>>)
          \cup Bad(o.w.labels = [i \in 1..here |-> Label(n, i)], "E01 " \o tag, <<"labels expected", [i \in 1..here |-> Label(n, i)], "got", o.w.labels>>)
          \cup Bad(o.w.vert \in lay, "E01 " \o tag, <<"layout expected", lay, "got", o.w.vert>>)
SetBad(e, n, o) ==
  IF "conf" \notin DOMAIN o THEN {}
  ELSE LET want == Stored(n.dcfg)
           says(f) == IF n.lab[f] THEN MenuText[f].on ELSE MenuText[f].off
       IN Bad(o.conf = want, "K01", <<"settings", [f \in {f \in DOMAIN want : o.conf[f] # want[f]} |-> <<o.conf[f], "expected", want[f]>>]>>)
          \cup Bad(e.k = "cfg" \/ (e.k = "act" /\ n.dcfg # s.dcfg) => o.saved = want, "K01", <<"saved", o.saved, "expected", want>>)
          \cup Bad(n.lab.on => \A f \in {"half", "assoc"} : o.lab[f] \in says(f), "K01", <<"menu says", o.lab, "expected", n.lab>>)
          \cup Bad(n.foc => Range(o.menu) = Menu(n) /\ Len(o.menu) = Cardinality(Menu(n)), "K01", <<"menu has", o.menu, "expected", Menu(n)>>)
ImName == [mc |-> "mcbopomofo", plain |-> "mcbopomofo-plain", other |-> "vfother"]
Check(e, r, o) ==
  LET tag == Tag(e)
      n == r.s
      com == IF s.k.st.t = "DateMacro" /\ r.com # ""
             THEN seen.items[((PosIn(r.com, DateMacros) - 1) % PageSize(s)) + 1] ELSE r.com
      mine == IF e.k = "sw" THEN o.ball ELSE o.all      \* text goes to the application it was typed in
      others == IF e.k = "sw" THEN o.all ELSE o.ball
  IN SetBad(e, n, o)
     \cup Bad(o.tips = (IF "tips" \in DOMAIN Traces[t] /\ Traces[t].tips THEN Tips(s, e, n) ELSE <<>>), "K01", <<"notified", o.tips, "expected", Tips(s, e, n)>>)
     \cup Bad(others = "", "E02", <<"the other application was given", others>>)
     \cup Bad(mine = com, "C06 " \o tag, <<"delivered", mine, "expected", com>>)
     \cup Bad(e.k = "key" => o.acc = r.acc, "C07 " \o tag, <<"taken", o.acc, "expected", r.acc>>)
     \cup Bad(o.fwd = 0, "C07", <<"forwarded keys", o.fwd>>)
     \cup Bad(o.proc = r.proc, (IF r.add # <<>> THEN "C10 K01" ELSE IF e.k = "act" THEN "K01" ELSE "D01"), <<"started", o.proc, "expected", r.proc>>)
     \cup Bad(o.im = ImName[n.im], "E02", <<"input method", o.im>>)
     \cup (IF n.foc THEN PreBad(tag, n, o) \cup WinBad(tag, n, o) ELSE {})

Bg(tr) == IF "two" \in DOMAIN tr THEN [im |-> tr.two.mode, pre |-> tr.two.pre, uf |-> tr.two.unfocus] ELSE NoBg
Init == /\ t \in DOMAIN Traces /\ l = 0 /\ seen = [items |-> <<>>, last |-> "", intr |-> FALSE, set |-> FALSE]
        /\ LET i == InitS(Traces[t].mode, Traces[t].cfg, Traces[t].pre, Traces[t].unfocus, Bg(Traces[t]))
           IN s = IF "files" \in DOMAIN Traces[t] THEN [i EXCEPT !.files = Traces[t].files, !.dat = Loaded(X, Traces[t].files)] ELSE i
Ev == Traces[t].ev[l+1]
Skip == /\ PrintT(<<"SKIP", t, l+1>>) /\ l' = 2000000 /\ UNCHANGED <<t, s, seen>>
Step ==
  LET e == Ev IN
  IF "crash" \in DOMAIN e
  THEN /\ PrintT(<<"MISMATCH", "C07 D01 " \o (IF e.k = "END" THEN "E02" ELSE Tag(e)), t, l+1, e.k, e.crash>>)
       /\ l' = 1000000 /\ UNCHANGED <<t, s, seen>>
  ELSE LET r0 == EngineStep(X, s, e)
           o == e.o
           \* paging back where there is only one page: nothing to specify
           single == e.k = "key" /\ s.im # "other" /\ ~NotOurs(e) /\ IsList(s.k.st) /\ IsList(r0.s.k.st)
                     /\ Pages(X, s) = 1 /\ PageKey(Norm(e), Layout(X, s) = "v") = "pgprev"
           r == IF single /\ o.w.on THEN IF o.w.cur = s.hi THEN Stay(s) ELSE r0 ELSE r0
           \* what phrases added meanwhile mean for a composition under way is not specified
           ends == e.k \in {"out", "sw", "reset", "im", "restart"} \/ (e.k = "key" /\ e.n \in {"RET", "ESC"} /\ ~e.sh /\ ~e.ct)
       IN IF r.s.k.c.tie \/ (s.due /\ ~ends) THEN Skip
          ELSE LET bad == Check(e, r, o)
               IN IF bad # {}
                  THEN /\ \A b \in bad : PrintT(<<"MISMATCH", b[1], t, l+1, e.k, b[2]>>)
                       /\ l' = 1000000 /\ UNCHANGED <<t, s, seen>>
                  ELSE /\ l' = l + 1 /\ s' = r.s /\ t' = t
                       /\ seen' = [items |-> IF o.w.on THEN o.w.items ELSE <<>>,
                                    last |-> IF s.k.st.t # "Empty" THEN s.k.st.t ELSE seen.last,
                                    intr |-> e.k \in {"out", "in", "sw", "reset", "im", "restart"} \/ (seen.intr /\ r.s.k.st.t = "Empty"),
                                    set |-> seen.set \/ e.k \in {"cfg", "conf", "act", "restart"}]
Next == l < Len(Traces[t].ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == EngineOK(X, s)
===========================================================================
