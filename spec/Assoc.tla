------------------------------- MODULE Assoc -------------------------------
(* Associated phrases: a table of entries [cs: characters, rs: their readings,
   s: score], in file order. *)
EXTENDS Util
IsContinuation(e, v, rd) ==
  IF v = <<>> THEN FALSE
  ELSE IF rd = <<>> THEN Len(v) = 1 /\ e.cs[1] = v[1]
  ELSE /\ Len(v) = Len(rd) /\ Len(e.cs) > Len(v)
       /\ \A i \in DOMAIN v : e.cs[i] = v[i] /\ e.rs[i] = rd[i]
RECURSIVE InsertByScore(_, _)
InsertByScore(es, e) == IF es = <<>> \/ es[Len(es)].s >= e.s THEN Append(es, e)
                        ELSE Append(InsertByScore(SubSeq(es, 1, Len(es)-1), e), es[Len(es)])
RECURSIVE ByScore(_)
ByScore(es) == IF es = <<>> THEN <<>> ELSE InsertByScore(ByScore(SubSeq(es, 1, Len(es)-1)), es[Len(es)])
RECURSIVE EachOnce(_, _)
EachOnce(es, seen) == IF es = <<>> THEN <<>>
                      ELSE IF Head(es).cs \in seen THEN EachOnce(Tail(es), seen)
                      ELSE <<Head(es)>> \o EachOnce(Tail(es), seen \cup {Head(es).cs})
Find(tab, v, rd) == EachOnce(ByScore(SelectSeq(tab, LAMBDA e : IsContinuation(e, v, rd))), {})

RECURSIVE Pieces(_)
Pieces(s) == LET S == {i \in 1..Len(s) : SubSeq(s, i, i) = "-"}
             IN IF S = {} THEN <<s>> ELSE <<SubSeq(s, 1, MinOf(S)-1)>> \o Pieces(SubSeq(s, MinOf(S)+1, Len(s)))
Split(s) == IF s = "" THEN <<>> ELSE Pieces(s)
Combine(rd) == Join(rd, "-")
===========================================================================
