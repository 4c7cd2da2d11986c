-------------------------------- MODULE UOM --------------------------------
(* What the input method learns from explicit choices.  The memory is a
   sequence of contexts, most recently observed first:
     [key |-> context, tot |-> observations, os |-> Seq([v, n, ts, f])]
   Time is counted in eighths of the half-life. *)
EXTENDS Grid

EmptyUom == <<>>
HalfLife == 8
DeadAfter == 20 * HalfLife      \* fully decayed

\* Relative weight of an observation made j time units ago, in millionths.
D8 == <<1000000, 917004, 840896, 771105, 707107, 648420, 594604, 545254>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
Weight(j) == IF j > DeadAfter THEN 0 ELSE D8[(j % 8) + 1] \div Pow2(j \div 8)

IsPunct(r) == StartsWith(r, "_")
Tok(r, v) == "(" \o r \o "," \o v \o ")"
TopTok(T, x) == Tok(T[x].r, T[x].u[1].v)
CurTok(T, g, x) == Tok(T[x].r, CellValue(T, g, x))
\* The context of the i-th phrase (1-based) of walk w: its reading with its
\* top-ranked value, and the values shown for up to two phrases before it;
\* punctuation counts as the beginning of the sentence.
Context(T, g, w, i) ==
  LET prevP == i > 1 /\ IsPunct(T[w[i-1]].r)
      prev == IF i > 1 /\ ~prevP THEN CurTok(T, g, w[i-1]) ELSE "()"
      ante == IF i > 2 /\ ~prevP /\ ~IsPunct(T[w[i-2]].r) THEN CurTok(T, g, w[i-2]) ELSE "()"
  IN ante \o "-" \o prev \o "-" \o TopTok(T, w[i])

Find(u, key) == LET S == {i \in DOMAIN u : u[i].key = key} IN IF S = {} THEN 0 ELSE MinOf(S)
Without(u, i) == SubSeq(u, 1, i-1) \o SubSeq(u, i+1, Len(u))
Noted(os, v, ts, f) ==
  LET S == {i \in DOMAIN os : os[i].v = v}
  IN IF S = {} THEN Append(os, [v |-> v, n |-> 1, ts |-> ts, f |-> f])
     ELSE LET i == MinOf(S) IN [os EXCEPT ![i] = [v |-> v, n |-> @.n + 1, ts |-> ts, f |-> f]]
Observe(u, cap, key, v, ts, f) ==
  LET i == Find(u, key)
      o == IF i = 0 THEN [key |-> key, tot |-> 0, os |-> <<>>] ELSE u[i]
      o2 == [o EXCEPT !.tot = @ + 1, !.os = Noted(@, v, ts, f)]
      rest == IF i = 0 THEN u ELSE Without(u, i)
      all == <<o2>> \o rest
  IN SubSeq(all, 1, Min(cap, Len(all)))

\* The suggestion for a context.  `tie' marks cases too close to call with the
\* table above: two values of (almost) equal weight, or one on the very edge of
\* full decay.
NoSuggestion == [v |-> "", f |-> FALSE, tie |-> FALSE]
Suggest(u, key, now) ==
  LET i == Find(u, key) IN
  IF i = 0 THEN NoSuggestion
  ELSE LET os == u[i].os
           age(o) == now - o.ts
           live == {j \in DOMAIN os : age(os[j]) <= DeadAfter}
           wt(j) == os[j].n * Weight(age(os[j]))
       IN IF live = {} THEN NoSuggestion
          ELSE LET best == CHOOSE j \in live : \A x \in live : wt(x) <= wt(j)
               IN [v |-> os[best].v, f |-> os[best].f,
                   tie |-> \/ \E j \in live : age(os[j]) = DeadAfter
                           \/ \E j \in live : j # best /\ wt(best) - wt(j) <= os[best].n + os[j].n + 2]

\* A suggestion is right when it is the best remembered choice, or within
\* rounding of it.
Right(m, key, ts, o) ==
  LET i == Find(m, key) IN
  IF i = 0 THEN o[1] = "" /\ o[2] = FALSE /\ o[3]
  ELSE LET os == m[i].os
           live == {j \in DOMAIN os : ts - os[j].ts <= DeadAfter}
           edge(j) == ts - os[j].ts = DeadAfter
           wt(j) == os[j].n * Weight(ts - os[j].ts)
           S == {j \in DOMAIN os : os[j].v = o[1]}
       IN IF o[1] = "" THEN o[3] /\ ~o[2] /\ \A j \in live : edge(j)
          ELSE ~o[3] /\ S # {} /\
               LET j == MinOf(S) IN
               /\ j \in live /\ o[2] = os[j].f
               /\ \A x \in live : wt(x) <= wt(j) + os[x].n + os[j].n + 2

\* Learning from a choice: walk w0 was on display (its phrases with the values
\* they have after the choice was made, g), walk w1 is shown now; `loc' is where
\* the choice was made.
LearnKey(T, g, w0, w1, loc) ==
  LET n == Len(g.rd)
      i1 == NodeIndexAt(w1, n, loc) + 1
      end == w1[i1][1] + w1[i1][2] - 1
      i0 == NodeIndexAt(w0, n, end) + 1
      breaking == w1[i1][2] = 1 /\ w0[i0][2] > 1
  IN [key |-> IF breaking THEN Context(T, g, w1, i1) ELSE Context(T, g, w0, i0),
      v |-> CellValue(T, g, w1[i1]),
      f |-> w1[i1][2] > w0[i0][2],
      span |-> w1[i1][2]]
Learn(u, cap, T, g, w0, w1, loc, ts) ==
  LET x == LearnKey(T, g, w0, w1, loc)
  IN IF x.span > 3 THEN u ELSE Observe(u, cap, x.key, x.v, ts, x.f)

UomOK(u, cap) == /\ Len(u) <= cap
                 /\ Cardinality({u[i].key : i \in DOMAIN u}) = Len(u)
                 /\ \A i \in DOMAIN u : u[i].os # <<>>
                                        /\ u[i].tot = SumSeq([j \in DOMAIN u[i].os |-> u[i].os[j].n])
===========================================================================
