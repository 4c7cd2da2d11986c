----------------------------- MODULE MacrosTrace -----------------------------
(* Conformance of the date and time macros under a controlled clock. *)
EXTENDS Calendar, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES t, l, prev
vars == <<t, l, prev>>
H == Traces[t]
\* prev: <<day, what was said of the lunar date>> at the event before.
Init == t \in DOMAIN Traces /\ l = 0 /\ prev = <<>>
Lunar(w, e) == e.o.m["DATE_" \o w \o "_MEDIUM_CHINESE"]
\* The zone's name; which of several names depends on the season and the year.
ZoneNames == ("Asia/Taipei" :> {"台北標準時間", "台灣時間", "台北時間"}) @@ ("Asia/Tokyo" :> {"日本標準時間", "日本時間", "東京時間"})
          @@ ("America/New_York" :> {"北美東部時間", "東部時間", "紐約時間", "美國 (紐約)時間", "美國（紐約）時間", "ET"})
ZoneWrong(m, s) == IF H.tz \in DOMAIN ZoneNames THEN s \notin ZoneNames[H.tz] ELSE s = ""
LunarWrong(e) ==
  LET d == Civil(e.day) ly == {d[1] - 1, d[1]}
      a == Lunar("YESTERDAY", e) b == Lunar("TODAY", e) c == Lunar("TOMORROW", e)
      texts == UNION {LunarTexts(y) : y \in {d[1] - 1, d[1]}}
  IN IF ~({a, b, c} \subseteq texts) THEN {<<"lunar", a, b, c>>}
     ELSE If(~LunarFollows(a, b) \/ ~LunarFollows(b, c), {<<"lunar days", a, b, c>>})
          \cup UNION {If((Civil(e.day + k) \in NewYears) # (w.s = ToString(Civil(e.day + k)[1]) \o "年正月初一") /\ Civil(e.day + k)[1] \in 2000..2026,
                         {<<"lunar new year", w.s>>}) : <<k, w>> \in {<<-1, [s |-> a]>>, <<0, [s |-> b]>>, <<1, [s |-> c]>>}}
          \cup (IF prev # <<>> /\ prev[1] = e.day - 1
                THEN If(prev[3] # b \/ prev[2] # a, {<<"lunar", "today", b, "was", prev[3]>>}) ELSE {})
Wrong(e) ==
  LET want == Macros(e.day, e.sec) IN
  UNION {If(e.o.m[m] # want[m], {<<m, "is", e.o.m[m], "expected", want[m]>>}) : m \in DOMAIN want}
  \cup UNION {If(ZoneWrong(m, e.o.m[m]), {<<m, e.o.m[m]>>}) : m \in {"TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"}}
  \cup If(\E i \in DOMAIN e.o.text : ~e.o.text[i], {<<"other text changed", e.o.text>>})
  \cup If(e.o.menu # [i \in DOMAIN MenuOrder |-> e.o.m[MenuOrder[i]]], {<<"menu", e.o.menu>>})
  \cup LunarWrong(e)
Step ==
  LET e == H.ev[l+1]
      w == IF "crash" \in DOMAIN e THEN {e.crash} ELSE Wrong(e)
  IN IF w = {} THEN l' = l + 1 /\ prev' = <<e.day, Lunar("TODAY", e), Lunar("TOMORROW", e)>> /\ t' = t
     ELSE PrintT(<<"MISMATCH", "I01", t, l+1, e.k, ToString(w)>>) /\ l' = 1000000 /\ UNCHANGED <<t, prev>>
Next == l < Len(H.ev) /\ Step
Spec == Init /\ [][Next]_vars
View == <<t, l>>
===========================================================================
