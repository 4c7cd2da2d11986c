----------------------------- MODULE CalendarMC -----------------------------
(* Walking the calendar day by day from every starting point of a grid. *)
EXTENDS Calendar, Json
CONSTANTS Back, Last, Stride, OneIn
First == 0 - Back
VARIABLES n, d, wd, start, hist
vars == <<n, d, wd, start, hist>>
Init == /\ start \in {First + Stride * i : i \in 0..((Last - First) \div Stride)}
        /\ n = start /\ d = Civil(start) /\ wd = Weekday(start) /\ hist = <<>>
Next == /\ n < start + Stride /\ n' = n + 1 /\ d' = Tomorrow(d) /\ wd' = (wd + 1) % 7 /\ UNCHANGED start
        /\ hist' = <<[day |-> n']>>
Spec == Init /\ [][Next]_vars
View == <<n, start>>
\* The closed forms agree with counting days.
Agree == Civil(n) = d /\ Weekday(n) = wd /\ DayNumber(d) = n
Known == (n = 0 => d = <<1970, 1, 1>> /\ wd = 4) /\ (d = <<2026, 11, 19>> => wd = 4) /\ (d = <<2000, 1, 1>> => wd = 6)
\* Month ends, era changes and new years are always replayed.
Edge(x) == x[3] = 1 \/ x[3] >= 28 \/ \E i \in DOMAIN Eras : Eras[i].d = x
\* What is said of tomorrow today is what is said of today tomorrow.
Says(m, w) == m["DATE_" \o w \o "_MEDIUM_ROC"]
Chained == (d[3] = 1 /\ d[3] >= 28) => (Says(Macros(n, 0), "TOMORROW") = Says(Macros(n + 1, 0), "TODAY") /\ Says(Macros(n + 1, 0), "YESTERDAY") = Says(Macros(n, 0), "TODAY"))
YearsChain == (d[2] = 12 /\ d[3] = 31) =>
   /\ Macros(n, 0)["NEXT_YEAR_GANZHI"] = Macros(n + 1, 0)["THIS_YEAR_GANZHI"]
   /\ Macros(n, 0)["THIS_YEAR_ROC"] = Macros(n + 1, 0)["LAST_YEAR_ROC"]
   /\ Sexagenary(d[1] + 60) = Sexagenary(d[1]) /\ \A k \in 1..59 : Sexagenary(d[1] + k) # Sexagenary(d[1])
KnownYears == (d[1] = 2026) => (Sexagenary(2026) = "丙午年" /\ Zodiac(2026) = "火馬年" /\ Minguo(2026) = "民國115")
Emit == IF RandomElement(1..OneIn) = 1 /\ (Edge(d') \/ RandomElement(1..4) = 1)
        THEN PrintT("SCN " \o ToJson([s |-> ToString(n'), h |-> hist'])) ELSE TRUE
===========================================================================
