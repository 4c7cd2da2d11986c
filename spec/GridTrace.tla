----------------------------- MODULE GridTrace -----------------------------
(* Conformance of recorded ReadingGrid executions with Grid.tla. *)
EXTENDS Grid, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
LMs == JsonDeserialize(IOEnv.VF_LMS)

VARIABLES t, l, g, T   \* T is always Lattice(Lang, g)
vars == <<t, l, g, T>>
Lang == LMs[Traces[t].lm]

---------------------------------------------------------------------------
ASSUME \A i \in DOMAIN LMs : \A r \in DOMAIN LMs[i] :
         \A j \in 1..(Len(LMs[i][r])-1) : LMs[i][r][j].s > LMs[i][r][j+1].s

ObsOv(o) == {<<o.cells[i].p, o.cells[i].n, o.cells[i].v>> : i \in {j \in DOMAIN o.cells : o.cells[j].ov}}
ModOv(h) == {<<x.p, x.n, x.v>> : x \in h.ov}

\* Model states allowed after event e from h (one, except for choices that can
\* fall on several phrases, where the observation tells which).
Loc(e) == e.c
ChoiceVal(e) == IF e.k = "ovi" THEN e.o.chv ELSE e.v
ChoiceRd(e) == IF e.k = "ovi" THEN e.o.chr ELSE IF e.k = "ovv" THEN "*" ELSE e.r
After(L, h, e) ==
  CASE e.k = "ins" -> {IF CanInsert(L, h, e.r) THEN Insert(h, e.r) ELSE h}
    [] e.k = "bs"  -> {IF h.cur > 0 THEN DeleteBefore(h) ELSE h}
    [] e.k = "del" -> {IF h.cur < Len(h.rd) THEN DeleteAfter(h) ELSE h}
    [] e.k = "cur" -> {[h EXCEPT !.cur = Min(e.c, Len(h.rd))]}
    [] e.k = "clr" -> {EmptyGrid}
    [] e.k \in {"ovr", "ovv", "ovi"} ->
         LET S == Choosable(T, h, e.c, ChoiceRd(e), ChoiceVal(e))
         IN IF S = {} THEN {h} ELSE {ChooseCell(h, c, ChoiceVal(e), e.ty) : c \in S}
    [] OTHER -> {h}
RetOK(L, h, e) ==
  CASE e.k = "ins" -> e.o.ret = CanInsert(L, h, e.r)
    [] e.k = "bs"  -> e.o.ret = (h.cur > 0)
    [] e.k = "del" -> e.o.ret = (h.cur < Len(h.rd))
    [] e.k \in {"ovr", "ovv"} ->
         e.o.ret = (Choosable(T, h, e.c, ChoiceRd(e), ChoiceVal(e)) # {})
    [] e.k = "ovi" -> e.o.ret = (CellsCovering(T, h, e.c) # {})
    [] OTHER -> TRUE
IsChoice(e) == e.k \in {"ovr", "ovv", "ovi"}

WalkOf(ow) == LET RECURSIVE W(_, _)
                  W(s, i) == IF s = <<>> THEN <<>> ELSE <<<<i, Head(s).n>>>> \o W(Tail(s), i + Head(s).n)
              IN W(ow, 0)

Bad(c, p, what) == IF c THEN {} ELSE {<<p, ToString(what)>>}
CellBad(X, h, c) ==
  LET x == <<c.p, c.n>>  us == X[x].u IN
  Bad(c.r = X[x].r /\ c.sl = c.n, "C01", "reading of a phrase")
  \cup Bad(SameBag([i \in DOMAIN c.u |-> [v |-> c.u[i][1], s |-> c.u[i][2]]], us), "C01", "phrases of a run")
  \cup Bad(\A i \in 1..(Len(c.u)-1) : c.u[i][2] >= c.u[i+1][2], "C02 C04", "phrases not in score order")
  \cup Bad(c.v = CellValue(X, h, x), IF c.ov THEN "C03 C04" ELSE "C02 C03", "value of a phrase")
  \cup Bad(c.s = CellScore(X, h, x), "C02 C03", "score of a phrase")
\* Candidate list of a place: the expected entries (any order among phrases of
\* the same length), longer phrases first, descending score within a phrase.
CandBad(X, h, loc, cs) ==
  LET all == Candidates(X, h, loc)
      cells == CellsCovering(X, h, loc)
      len(x) == MaxOf({c[2] : c \in {d \in cells : X[d].r = x[1]}})
  IN IF cs = all THEN {}
     ELSE IF ~SameBag(cs, all) THEN Bad(FALSE, "C04", <<"candidates at", loc, "expected", all, "got", cs>>)
     ELSE Bad(\A i \in 1..(Len(cs)-1) : len(cs[i]) >= len(cs[i+1]), "C04", "longer first")
          \cup Bad(\A c \in cells : LET k == CandOf(X, c) IN
                     \A i \in 1..(Len(k)-1) : \E a, b \in DOMAIN cs : a < b /\ cs[a] = k[i] /\ cs[b] = k[i+1],
                   "C04", "descending score")
\* Looking a phrase up by place reaches exactly the phrases covering the place.
FindBad(X, h, loc, f) ==
  LET want == {<<X[c].r, c[2], c[1]>> : c \in CellsCovering(X, h, loc)}
      bag == [x \in {<<y[1], y[2]>> : y \in want} |-> Cardinality({y \in want : <<y[1], y[2]>> = x})]
      got == [x \in {f.ns[i] : i \in DOMAIN f.ns} |-> Cardinality({i \in DOMAIN f.ns : f.ns[i] = x})]
  IN Bad(f.ok /\ got = bag, "C04", <<"phrases found at", loc, "expected", bag, "got", f.ns>>)
Check(L, T1, h, e) ==
  LET o == e.o  w == WalkOf(o.walk)
      cellset == {<<o.cells[i].p, o.cells[i].n>> : i \in DOMAIN o.cells}
      basic == Bad(RetOK(L, g, e), IF IsChoice(e) THEN "C04" ELSE "C01 C08", "result")
        \cup Bad(o.rd = h.rd /\ o.nspans = Len(h.rd), "C01 C08", <<"readings expected", h.rd, "got", o.rd>>)
        \cup Bad(o.cur = h.cur, "C01 C08", <<"cursor expected", h.cur, "got", o.cur>>)
        \cup Bad(cellset = DOMAIN T1, "C01", <<"runs missing", DOMAIN T1 \ cellset, "extra", cellset \ DOMAIN T1>>)
  IN IF basic # {} THEN basic
     ELSE UNION {CellBad(T1, h, o.cells[i]) : i \in DOMAIN o.cells}
        \cup Bad(ObsOv(o) = ModOv(h), IF IsChoice(e) THEN "C03 C04" ELSE "C03", <<"chosen expected", ModOv(h), "got", ObsOv(o)>>)
        \cup (IF ~ValidWalk(T1, h, w) THEN Bad(FALSE, "C02", <<"not a conversion", o.walk>>)
              ELSE Bad(h.rd = <<>> \/ WalkScore(T1, h, w) = BestScore(T1, h), "C02", <<"score", WalkScore(T1, h, w), "best", BestScore(T1, h)>>)
                \cup Bad(\A i \in DOMAIN w : o.walk[i].r = T1[w[i]].r
                            /\ o.walk[i].v = CellValue(T1, h, w[i])
                            /\ o.wv[i] = o.walk[i].v, "C02 C03", "value shown")
                \cup Bad(\A c \in 0..Len(h.rd)+1 :
                           LET ix == NodeIndexAt(w, Len(h.rd), c) IN
                           /\ o.at[c+1][1] = ix
                           /\ ix >= 0 => o.at[c+1][2] = w[ix+1][1] + w[ix+1][2], "C02", "phrase at a place")
                \cup Bad(~RaisedSuffices(T1, h) \/ ChosenShown(h, w), "C03", "chosen phrase not shown"))
        \cup UNION {CandBad(T1, h, c, o.cand[c+1]) : c \in 0..Len(h.rd)+1}
        \cup UNION {FindBad(T1, h, c, o.fs[c+1]) : c \in 0..Len(o.fs)-1}

Pick(L, e) == LET S == After(L, g, e)
                     W == {h \in S : ModOv(h) = ObsOv(e.o)}
                 IN IF W # {} THEN CHOOSE h \in W : TRUE ELSE CHOOSE h \in S : TRUE

Init == t \in DOMAIN Traces /\ l = 0 /\ g = EmptyGrid /\ T = <<>>
Ev == Traces[t].ev[l+1]
Step == LET e == Ev IN
  IF "crash" \in DOMAIN e
  THEN /\ PrintT(<<"MISMATCH", "C01 C02 C03 C04", t, l+1, e.k, e.crash>>)
       /\ l' = 1000000 /\ UNCHANGED <<t, g, T>>
  ELSE LET h == Pick(Lang, e)
           T1 == Lattice(Lang, h)
           bad == Check(Lang, T1, h, e)
       IN IF bad = {} THEN l' = l + 1 /\ g' = h /\ T' = T1 /\ t' = t
          ELSE /\ \A b \in bad : PrintT(<<"MISMATCH", b[1], t, l+1, e.k, b[2]>>)
               /\ l' = 1000000 /\ UNCHANGED <<t, g, T>>
Next == l < Len(Traces[t].ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
ModelOK == GridOK(T, g)
===========================================================================
