------------------------------- MODULE BlobMC -------------------------------
(* The reader on every short file. *)
EXTENDS Blob, TLC, Json
CONSTANTS MaxLen, OneIn
VARIABLES b, r, hist
vars == <<b, r, hist>>
Alphabet == {97, 35, 32, 9, 10, 13, 0}
Init == b = <<>> /\ r = Reader0 /\ hist = <<>>
Next == /\ Len(b) < MaxLen
        /\ \E c \in Alphabet : b' = Append(b, c) /\ r' = Feed(r, c) /\ hist' = <<[b |-> b']>>
Spec == Init /\ [][Next]_vars
View == <<b, r>>
\* Stopping here, the reader has delivered what the file means.
Agrees == Finish(r).out = Pairs(b) /\ Finish(r).st = EndOf(b)
\* Words never contain blanks or line ends, and nothing is delivered twice.
Clean == \A i \in DOMAIN r.out : /\ r.out[i].k # <<>> /\ r.out[i].v # <<>>
                                 /\ \A c \in Range(r.out[i].k) \cup Range(r.out[i].v) : IsWord(c) /\ c # 0
                                 /\ r.out[i].k[1] # Hash
\* What has been delivered stays: reading is incremental.
Stays == [][IsPrefixOf(r.out, r'.out) /\ (r.st \in {"end", "error"} => r' = r)]_vars
Emit == IF Len(b') >= MaxLen - 1 /\ (SumSeq([i \in DOMAIN b' |-> i * i * b'[i]]) % OneIn) = 0
        THEN PrintT("SCN " \o ToJson([s |-> ToString(b'), h |-> hist'])) ELSE TRUE
===========================================================================
