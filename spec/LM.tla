--------------------------------- MODULE LM ---------------------------------
(* What the language model offers for a reading.
   c: lm, built-in entries [k, v, s (thousandths)] in file order; user and excl,
   entries [v, k]; repl, entries [v, to]; ron/eon, replacement and conversion
   enabled; macro, conv: conversion tables (pairs). *)
EXTENDS Util
Map(pairs, v) == LET S == {i \in DOMAIN pairs : pairs[i][1] = v}
                 IN IF S = {} THEN v ELSE pairs[MaxOf(S)][2]
Replaced(c, v) == LET S == {i \in DOMAIN c.repl : c.repl[i].v = v}
                  IN IF c.ron /\ S # {} THEN c.repl[MaxOf(S)].to ELSE v
IsMacro(v) == Len(v) > 6 /\ SubSeq(v, 1, 6) = "MACRO@"
MacroScore == -8000
Excluded(c, key) == {c.excl[i].v : i \in {j \in DOMAIN c.excl : c.excl[j].k = key}}
\* The form in which an entry is offered; <<>> if not at all.
Offered(c, key, v, s) ==
  IF v \in Excluded(c, key) THEN <<>>
  ELSE LET m == Map(c.macro, Replaced(c, v))
       IN IF s = MacroScore /\ IsMacro(m) THEN <<>>
          ELSE <<IF c.eon THEN Map(c.conv, m) ELSE m>>
RECURSIVE Gather(_, _, _, _)      \* entries [v, s] -> offered, each text once
Gather(c, key, es, seen) ==
  IF es = <<>> THEN <<>>
  ELSE LET o == Offered(c, key, es[1].v, es[1].s)
       IN IF o = <<>> \/ (o # <<>> /\ o[1] \in seen) THEN Gather(c, key, Tail(es), seen)
          ELSE <<[v |-> o[1], s |-> es[1].s]>> \o Gather(c, key, Tail(es), seen \cup {o[1]})
Texts(us) == {us[i].v : i \in DOMAIN us}
OwnFor(c, key) == LET S == SelectSeq(c.user, LAMBDA e : e.k = key) IN [i \in DOMAIN S |-> [v |-> S[i].v, s |-> 0]]
BuiltinFor(c, key) == LET S == SelectSeq(c.lm, LAMBDA e : e.k = key) IN [i \in DOMAIN S |-> [v |-> S[i].v, s |-> S[i].s]]
IsLong(key) == \E i \in 1..Len(key) : SubSeq(key, i, i) = "-"
\* Each unigram: <<value, score, 1 if just above that score>>.
Unigrams(c, key) ==
  IF key = " " THEN << <<" ", 0, 0>> >>
  ELSE LET own == Gather(c, key, OwnFor(c, key), {})
           rest == Gather(c, key, BuiltinFor(c, key), Texts(own))
           plain(us) == [i \in DOMAIN us |-> <<us[i].v, us[i].s, 0>>]
           top == MaxOf({rest[i].s : i \in DOMAIN rest})
       IN (IF IsLong(key) \/ rest = <<>> THEN plain(own)
           ELSE [i \in DOMAIN own |-> <<own[i].v, top, 1>>]) \o plain(rest)
Known(c, key) == Unigrams(c, key) # <<>>
ReadingOf(c, v) ==
  LET S == {i \in DOMAIN c.lm : c.lm[i].v = v}
  IN IF S = {} THEN "" ELSE c.lm[MinOf({i \in S : \A j \in S : c.lm[j].s <= c.lm[i].s})].k

\* Two-character associated phrases (the table itself is Assoc.tla's): those
\* that go on from a character with its reading, best first, each text once.
Follow(c, p, r) ==
  LET S == SelectSeq(c.assoc, LAMBDA x : x.p = p /\ x.r = r)
      best == {i \in DOMAIN S : \A j \in DOMAIN S : S[j].v = S[i].v => S[j].s >= S[i].s}
      RECURSIVE Rank(_)
      Rank(B) == IF B = {} THEN <<>>
                 ELSE LET i == CHOOSE a \in B : \A b \in B : S[a].s < S[b].s \/ a = b
                      IN << <<p \o S[i].v, r \o "-" \o S[i].w>> >> \o Rank(B \ {i})
  IN Rank(best)
Empty == [lm |-> <<>>, user |-> <<>>, excl |-> <<>>, repl |-> <<>>, ron |-> FALSE, eon |-> FALSE,
          macro |-> <<>>, conv |-> <<>>, assoc |-> <<>>, lml |-> FALSE, asl |-> FALSE]
After(c, e) ==
  CASE e.k = "lm" -> [c EXCEPT !.lm = e.x, !.lml = TRUE]
    [] e.k = "assoc" -> [c EXCEPT !.assoc = e.x, !.asl = TRUE]
    [] e.k = "files" -> [c EXCEPT !.user = IF e.us = "file" THEN e.u ELSE <<>>,
                                  !.excl = IF e.xs = "file" THEN e.x ELSE <<>>]
    [] e.k = "gone" -> IF e.what = "lm" THEN [c EXCEPT !.lm = <<>>, !.lml = FALSE]
                       ELSE IF e.what = "repl" THEN [c EXCEPT !.repl = <<>>]
                       ELSE [c EXCEPT !.assoc = <<>>, !.asl = FALSE]
    [] e.k = "user" -> [c EXCEPT !.user = e.x]
    [] e.k = "excl" -> [c EXCEPT !.excl = e.x]
    [] e.k = "repl" -> [c EXCEPT !.repl = e.x]
    [] e.k = "ron" -> [c EXCEPT !.ron = e.b]
    [] e.k = "eon" -> [c EXCEPT !.eon = e.b]
    [] OTHER -> c
===========================================================================
