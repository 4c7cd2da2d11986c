----------------------------- MODULE LearnTrace -----------------------------
(* Conformance of learning through real conversions with UOM.tla: what
   UserOverrideModel remembers of choices made in a ReadingGrid and what it
   suggests at every place. *)
EXTENDS UOM, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
LMs == JsonDeserialize(IOEnv.VF_LMS)
RaisedUnits == 688128
VARIABLES t, l, g, T, u, now, w
vars == <<t, l, g, T, u, now, w>>
Lang == LMs[Traces[t].lm]
Init == t \in DOMAIN Traces /\ l = 0 /\ g = EmptyGrid /\ T = <<>> /\ u = EmptyUom /\ now = 0 /\ w = <<>>

WalkOf(ow) == LET RECURSIVE W(_, _)
                  W(s, i) == IF s = <<>> THEN <<>> ELSE <<<<i, Head(s).n>>>> \o W(Tail(s), i + Head(s).n)
              IN W(ow, 0)
After(e) ==
  CASE e.k = "ins" -> {IF CanInsert(Lang, g, e.r) THEN Insert(g, e.r) ELSE g}
    [] e.k = "bs"  -> {IF g.cur > 0 THEN DeleteBefore(g) ELSE g}
    [] e.k = "del" -> {IF g.cur < Len(g.rd) THEN DeleteAfter(g) ELSE g}
    [] e.k = "cur" -> {[g EXCEPT !.cur = Min(e.c, Len(g.rd))]}
    [] e.k = "clr" -> {EmptyGrid}
    [] e.k = "pick" -> LET S == Choosable(T, g, e.c, e.o.chr, e.o.chv)
                       IN IF S = {} THEN {g} ELSE {ChooseCell(g, c, e.o.chv, e.ty) : c \in S}
    [] OTHER -> {g}
\* Whether the composition is as the model has it (grid's own checks decide
\* that): its readings, cursor and the phrases and values shown.
Same(h, T1, e, x) == /\ e.o.rd = h.rd /\ e.o.cur = h.cur /\ ValidWalk(T1, h, x)
                     /\ \A i \in DOMAIN x : e.o.walk[i].r = T1[x[i]].r /\ e.o.walk[i].v = CellValue(T1, h, x[i])
Stop(n) == l' = n /\ UNCHANGED <<t, g, T, u, now, w>>
Step ==
  LET e == Traces[t].ev[l+1] IN
  IF "crash" \in DOMAIN e
  THEN PrintT(<<"MISMATCH", "C14", t, l+1, e.k, e.crash>>) /\ Stop(1000000)
  ELSE LET ts == now + (IF "d" \in DOMAIN e THEN e.d ELSE 0)
           w1 == WalkOf(e.o.walk)
           S == {h \in After(e) : Same(h, Lattice(Lang, h), e, w1)}
       IN IF S = {} THEN Stop(2000000)
          ELSE LET h == CHOOSE x \in S : TRUE
                   T1 == Lattice(Lang, h)
                   u1 == IF e.k = "pick" /\ e.o.chv # "" /\ e.oc <= Len(h.rd)
                         THEN Learn(u, Traces[t].cap, T1, h, w, w1, e.oc, ts) ELSE u
                   key(c) == Context(T1, h, w1, NodeIndexAt(w1, Len(h.rd), c) + 1)
                   bad == {c \in 0..Len(e.o.s)-1 : ~Right(u1, key(c), ts, e.o.s[c+1])}
               IN IF bad = {} /\ (Len(e.o.s) = IF h.rd = <<>> THEN 0 ELSE Len(h.rd) + 1)
                  THEN l' = l + 1 /\ g' = h /\ T' = T1 /\ u' = u1 /\ now' = ts /\ w' = w1 /\ t' = t
                  ELSE /\ \A c \in bad : PrintT(<<"MISMATCH", "C14", t, l+1, e.k,
                            ToString(<<"place", c, "context", key(c), "suggested", e.o.s[c+1], "expected", Suggest(u1, key(c), ts)>>)>>)
                       /\ Stop(1000000)
Next == l < Len(Traces[t].ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == GridOK(T, g) /\ UomOK(u, Traces[t].cap)
===========================================================================
