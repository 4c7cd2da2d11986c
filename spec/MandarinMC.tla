----------------------------- MODULE MandarinMC -----------------------------
(* Two explorations of the buffer.  "spell": every syllable of the table with
   every tone typed key by key on every keyboard (and every Pinyin spelling).
   "edit": every short history of keys, backspaces, clears and switches over a
   few keys. *)
EXTENDS Mandarin, TLC, Json
CONSTANTS Mode, MaxLen, OneIn
VARIABLES b, goal, left, prev, hist
vars == <<b, goal, left, prev, hist>>
SplitChars(p) == [i \in 1..Len(p) |-> SubSeq(p, i, i)]
ToneKey(t) == <<"", "2", "3", "4", "5">>[t+1]
EditKeys(lay) == CASE lay = "Pinyin" -> {"n", "u", "e", "2"}
                   [] lay = "Hsu" -> {"g", "e", "l", "j", "c"}
                   [] lay = "ETen26" -> {"v", "e", "w", "f", "h"}
                   [] OTHER -> {KeyOf[lay][<<1, 9>>], KeyOf[lay][<<2, 1>>], KeyOf[lay][<<4, 1>>]}
Init == /\ prev = <<>> /\ hist = <<>>
        /\ IF Mode = "spell"
           THEN \E i \in DOMAIN Syllables, t \in 0..4 :
                  /\ goal = Toned(Syllables[i].s, t)
                  /\ \/ \E lay \in LayoutNames : b = Buffer0(lay) /\ left = KeysOf(lay, Toned(Syllables[i].s, t))
                     \/ \E j \in DOMAIN Syllables[i].py :
                          b = Buffer0("Pinyin") /\ left = SplitChars(Syllables[i].py[j] \o ToneKey(t))
           ELSE \E lay \in LayoutNames \cup {"Pinyin"} : b = Buffer0(lay) /\ goal = Nil /\ left = <<>>
Ops == {[k |-> "key", c |-> k] : k \in EditKeys(b.lay)} \cup {[k |-> "bs"]}
       \cup (IF Len(hist) > 0 THEN {[k |-> "clear"]} \cup {[k |-> "layout", to |-> x] : x \in {"Pinyin", "Hsu", "ETen26", "Standard"}} ELSE {})
Next == /\ prev' = <<b>> /\ UNCHANGED goal
        /\ IF Mode = "spell"
           THEN left # <<>> /\ b' = Type(b, Head(left)) /\ left' = Tail(left) /\ hist' = Append(hist, [k |-> "key", c |-> Head(left)])
           ELSE /\ Len(hist) < MaxLen /\ left' = <<>>
                /\ \E e \in Ops : b' = Apply(b, e) /\ hist' = Append(hist, e @@ [lay |-> b.lay])
Spec == Init /\ [][Next]_vars
View == <<b, goal, left, prev>>
\* Typing a syllable gives that syllable, or one of those typed with the same
\* keys (a lone ei, eh or eng on the keyboards with shared keys).
IsSyllable(s) == \E i \in DOMAIN Syllables : Syllables[i].s = Toned(s, 0)
Spelled == (Mode = "spell" /\ left = <<>>) =>
             \/ b.s = goal
             \/ b.lay # "Pinyin" /\ Shared(b.lay) /\ IsSyllable(b.s) /\ KeysOf(b.lay, b.s) = KeysOf(b.lay, goal)
\* On keyboards with one component per key, a component replaces the one of its
\* kind and Backspace takes back the last component.
OnePer == (prev # <<>> /\ hist # <<>> /\ hist[Len(hist)].k = "key" /\ b.lay \in LayoutNames /\ ~Shared(b.lay)) =>
             LET c == KeyComps[b.lay][hist[Len(hist)].c][1] IN b.s = Put(prev[1].s, c)
BackTakesLast == (b.lay \in LayoutNames /\ ~Shared(b.lay) /\ b.s # Nil) =>
             LET i == MaxOf({j \in 1..4 : b.s[j] # 0}) IN Back(b).s = [b.s EXCEPT ![i] = 0]
\* Backspace always shortens what is there; enough of them empty it.
Back4(x) == Back(Back(Back(Back(Back(x)))))
Drains == b.lay \in LayoutNames => Back4(b) = Buffer0(b.lay)
LetterGoes == (b.lay = "Pinyin" /\ b.py # "") => Len(Back(b).py) = Len(b.py) - 1
\* Text, letters and syllable are consistent.
Consistent == /\ (b.s = Nil) = (Text(b) = "")
              /\ b.lay # "Pinyin" => b.py = ""
              /\ b.lay = "Pinyin" => b.s = FromPinyin(b.py)
\* A syllable's text names its components: the order of keys is that of Show.
KeysRoundTrip == (Mode = "spell" /\ left = <<>> /\ b.lay # "Pinyin") => FromKeys(b.lay, KeysOf(b.lay, b.s)) = b.s
Emit == IF /\ IF Mode = "spell" THEN left' = <<>> ELSE Len(hist') = MaxLen
           /\ RandomElement(1..OneIn) = 1
        THEN PrintT("SCN " \o ToJson([s |-> ToString(hist') \o b.lay, h |-> <<[lay |-> IF Mode = "edit" THEN hist'[1].lay ELSE b.lay, ops |-> hist']>>]))
        ELSE TRUE
===========================================================================
