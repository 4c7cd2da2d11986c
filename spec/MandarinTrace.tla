---------------------------- MODULE MandarinTrace ----------------------------
(* Conformance of the syllable buffer, the keyboards and the parsers. *)
EXTENDS Mandarin, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, b, plain
vars == <<t, l, b, plain>>
H == Traces[t]
\* plain: nothing but keys so far.
Init == t \in DOMAIN Traces /\ l = 0 /\ b = Buffer0(H.lay) /\ plain = TRUE
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiSet == {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)}
Chars(p) == [i \in 1..Len(p) |-> SubSeq(p, i, i)]
TableIx(s) == {i \in DOMAIN Syllables : Syllables[i].s = Toned(s, 0)}
\* Text ends where something that is no component begins.
RECURSIVE FromParts(_, _)
FromParts(ps, a) == IF ps = <<>> \/ ps[1].c = "" THEN a ELSE FromParts(Tail(ps), Put(a, CompOf[ps[1].c]))
PySpellings(s, u) == UNION {Range(Syllables[i].py) : i \in TableIx(s)}
Umlaut(p) == ConcatStr([i \in 1..Len(p) |-> IF SubSeq(p, i, i) = "v" THEN "ü" ELSE SubSeq(p, i, i)])
WithTone(p, tn) == p \o (<<"", "2", "3", "4", "5">>[tn+1])
Differs(n, is, want) == If(is # want, {<<n, "is", is, "expected", want>>})
BufferWrong(e, y) ==
  [content |-> Differs("syllable", e.o.s, y.s) \cup Differs("text", e.o.text, Text(y)) \cup Differs("composed", e.o.syl, Show(y.s))
               \cup Differs("keys", e.o.std, ConcatStr(KeysOf("Standard", y.s))),
   report |-> Differs("empty", e.o.empty, BEmpty(y)) \cup Differs("tone", e.o.tone, y.s[4] # 0)
              \cup Differs("tone only", e.o.only, y.s[4] # 0 /\ Toned(y.s, 0) = Nil)
              \cup Differs("layout", e.o.lay, IF y.lay = "Pinyin" THEN "HanyuPinyin" ELSE y.lay)
              \cup Differs("valid keys", Range(e.o.valid), {k \in AsciiSet : Valid(y, k)})
              \cup (IF e.k = "key" THEN Differs("accepted", e.o.ret, Valid(b, e.c)) ELSE {})]
Other(e) ==
  CASE e.k = "seq" -> LET s == FromKeys(e.lay, Chars(e.ks))
                      IN Differs("syllable", e.o.s, s) \cup Differs("keys", e.o.back, ConcatStr(KeysOf(e.lay, s)))
    [] e.k = "py" -> Differs("syllable", e.o.s, FromPinyin(e.p))
    [] e.k = "comp" -> Differs("syllable", e.o.s, FromParts(e.ps, Nil))
    [] e.k = "print" ->
         \* a syllable of the table prints as one of its spellings and parses back
         Differs("syllable", e.o.s, e.s) \cup Differs("text", e.o.text, e.t)
         \cup (IF TableIx(e.s) # {} /\ PySpellings(e.s, FALSE) # {}
               THEN LET P == PySpellings(e.s, FALSE) tn == e.s[4] IN
                    If(e.o.v \notin {WithTone(p, tn) : p \in P}, {<<"printed", e.o.v, "not in", P>>})
                    \cup If(e.o.u \notin {WithTone(p, tn) : p \in P \cup {Umlaut(q) : q \in P}}, {<<"printed", e.o.u>>})
                    \cup If(e.o.n \notin P, {<<"printed", e.o.n>>})
                    \cup Differs("parsed back", e.o.sv, e.s) \cup Differs("parsed back", e.o.su, e.s)
               ELSE {})
Bad(e, tags, what) == PrintT(<<"MISMATCH", tags, t, l+1, e.k, ToString(what)>>) /\ l' = 1000000 /\ UNCHANGED <<t, b, plain>>
Step ==
  LET e == H.ev[l+1] IN
  IF "crash" \in DOMAIN e THEN Bad(e, "M01 M02", e.crash)
  ELSE IF e.k \in {"seq", "py", "comp", "print"}
  THEN LET w == Other(e) IN IF w = {} THEN l' = l + 1 /\ UNCHANGED <<t, b, plain>> ELSE Bad(e, "M01", w)
  ELSE LET y == Apply(b, e)
           w == BufferWrong(e, y)
           p2 == plain /\ e.k = "key"
       IN IF w.content = {} /\ w.report = {} THEN l' = l + 1 /\ b' = y /\ plain' = p2 /\ t' = t
          ELSE Bad(e, (IF w.content # {} /\ e.k = "key" THEN "M01 " ELSE "") \o (IF w.report # {} \/ ~p2 THEN "M02" ELSE ""), w.content \cup w.report)
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
