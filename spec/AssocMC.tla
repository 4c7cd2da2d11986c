------------------------------ MODULE AssocMC ------------------------------
(* Every small table and every query. *)
EXTENDS Assoc, TLC, Json
CONSTANTS MaxEntries, MaxLen
VARIABLES tab, q, hist
vars == <<tab, q, hist>>
Chars == {"a", "b"}
Rds == {"p", "q"}
Strs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Entries == UNION {{[cs |-> c, rs |-> r, s |-> x] : c \in [1..k -> Chars], r \in [1..k -> Rds], x \in {0, -1}} : k \in 2..MaxLen}
Queries == {[v |-> v, rd |-> r] : v \in {<<>>} \cup Strs(Chars, MaxLen-1), r \in {<<>>} \cup Strs(Rds, MaxLen-1)}
Init == tab = <<>> /\ q = <<>> /\ hist = <<>>
Add == /\ q = <<>> /\ Len(tab) < MaxEntries
       /\ \E e \in Entries : tab' = Append(tab, e)
       /\ UNCHANGED <<q, hist>>
Ask == /\ q = <<>> /\ tab # <<>> /\ \E x \in Queries : q' = x /\ hist' = <<[tab |-> tab]>>
       /\ UNCHANGED tab
Next == Add \/ Ask
Spec == Init /\ [][Next]_vars
View == <<tab, q>>
Asked == q # <<>>
Result == Find(tab, q.v, q.rd)
True_ == Asked => \A i \in DOMAIN Result : Result[i] \in Range(tab) /\ IsContinuation(Result[i], q.v, q.rd)
Complete == Asked => \A e \in Range(tab) : IsContinuation(e, q.v, q.rd) =>
              \E i \in DOMAIN Result : Result[i].cs = e.cs /\ Result[i].s >= e.s
Best == Asked => \A i, j \in DOMAIN Result : i < j => Result[i].s >= Result[j].s /\ Result[i].cs # Result[j].cs
\* A longer prefix never finds more.
Narrower == (IF Asked THEN IF q.rd # <<>> /\ Len(q.v) = Len(q.rd) /\ Len(q.v) > 1
            THEN {Result[i].cs : i \in DOMAIN Result}
                 \subseteq {e.cs : e \in Range(Find(tab, SubSeq(q.v, 1, Len(q.v)-1), SubSeq(q.rd, 1, Len(q.rd)-1)))}
            ELSE TRUE ELSE TRUE) = TRUE
Inverse == Asked => Split(Combine(q.rd)) = q.rd
Emit == IF q' # <<>> THEN IF q'.v = <<>> /\ q'.rd = <<>> THEN PrintT("SCN " \o ToJson([s |-> ToString(tab), h |-> hist'])) ELSE TRUE ELSE TRUE
===========================================================================
