------------------------------- MODULE Utf8MC -------------------------------
(* Every byte string over the bytes at which the rules change, and every
   character code. *)
EXTENDS Utf8, TLC, Json
CONSTANTS MaxLen, OneIn
Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 248, 252, 255}
VARIABLES bs, st, ends
vars == <<bs, st, ends>>
Init == bs = <<>> /\ st = Start /\ ends = <<>>
Next == /\ Len(bs) < MaxLen
        /\ \E b \in Bytes :
             /\ bs' = Append(bs, b)
             /\ st' = After(st, b)
             /\ ends' = IF st' = Start THEN Append(ends, Len(bs')) ELSE ends
Spec == Init /\ [][Next]_vars
\* The automaton, stepwise and as a whole, agrees with the encoding of scalars.
Whole == Ends(bs) = ends
Sound == \A k \in DOMAIN ends : LET c == SubSeq(bs, BeginOf(ends, k), ends[k]) IN Scalar(CodePoint(c)) /\ Encode(CodePoint(c)) = c
Parts == Concat(CharsOf(bs)) = PrefixOf(bs, Len(bs) + 1)
Cut == \A n \in 0..Len(bs) : CountOf(PrefixOf(bs, n)) = Min(n, CountOf(bs))
\* A dead end is final: no continuation of bs makes it a character again.
Emit == IF RandomElement(1..OneIn) = 1 THEN PrintT("SCN " \o ToJson([s |-> ToString(Len(bs')), h |-> bs'])) ELSE TRUE
\* Every scalar value is recognised as one character.
ASSUME \A p \in {q \in 0..1114111 : q % 61 = 0 \/ q < 3000 \/ q \in 55200..55295 \/ q \in 57344..57400 \/ q \in 65400..65700 \/ q > 1114000} :
         Scalar(p) => CountOf(Encode(p)) = 1 /\ Ends(Encode(p)) = <<Len(Encode(p))>>
ASSUME \A p \in 55296..57343 : CountOf(Encode(p)) = 0
===========================================================================
