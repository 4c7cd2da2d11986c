------------------------------ MODULE Calendar ------------------------------
(* Civil dates and what the date and time macros say about them.  A date is
   <<year, month, day>>; day number 0 is 1970-01-01. *)
EXTENDS Util, TLC
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Tomorrow(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
               ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
\* Counting from 1 March of year 0 in 400-year periods of 146097 days.
Civil(n) ==
  LET z == n + 719468
      per == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + per * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Weekday(n) == (n + 719468 + 3) % 7            \* 0: Sunday
DayNumber(d) ==
  LET y == IF d[2] <= 2 THEN d[1] - 1 ELSE d[1]
      yoe == y % 400
      doy == ((153 * (IF d[2] > 2 THEN d[2] - 3 ELSE d[2] + 9) + 2) \div 5) + d[3] - 1
  IN (y \div 400) * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy - 719468
\* The same day some years on; 29 February becomes the 28th.
Shift(d, k) == <<d[1] + k, d[2], Min(d[3], MonthLen(d[1] + k, d[2]))>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))

Nth(s, i) == s[i + 1]
Week == <<"日", "一", "二", "三", "四", "五", "六">>
WeekJa == <<"日", "月", "火", "水", "木", "金", "土">>
Minguo(y) == IF y >= 1912 THEN "民國" \o ToString(y - 1911) ELSE "民國前" \o ToString(1912 - y)
Eras == <<[n |-> "令和", d |-> <<2019, 5, 1>>], [n |-> "平成", d |-> <<1989, 1, 8>>], [n |-> "昭和", d |-> <<1926, 12, 25>>],
          [n |-> "大正", d |-> <<1912, 7, 30>>], [n |-> "明治", d |-> <<1868, 9, 8>>]>>
Era(d) == Eras[MinOf({i \in DOMAIN Eras : ~Before(d, Eras[i].d)})]
EraYear(d) == d[1] - Era(d).d[1] + 1
JaYear(d) == Era(d).n \o ToString(EraYear(d))
JaYearGan(d) == Era(d).n \o (IF EraYear(d) = 1 THEN "元" ELSE ToString(EraYear(d)))
MonthDay(d) == "年" \o ToString(d[2]) \o "月" \o ToString(d[3]) \o "日"
Stems == <<"甲", "乙", "丙", "丁", "戊", "己", "庚", "辛", "壬", "癸">>
Branches == <<"子", "丑", "寅", "卯", "辰", "巳", "午", "未", "申", "酉", "戌", "亥">>
Elements == <<"木", "木", "火", "火", "土", "土", "金", "金", "水", "水">>
Animals == <<"鼠", "牛", "虎", "兔", "龍", "蛇", "馬", "羊", "猴", "雞", "狗", "豬">>
\* The year 4 began a cycle of sixty.
Sexagenary(y) == Nth(Stems, (y - 4) % 10) \o Nth(Branches, (y - 4) % 12) \o "年"
Zodiac(y) == Nth(Elements, (y - 4) % 10) \o Nth(Animals, (y - 4) % 12) \o "年"
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Period(h) == IF h < 5 THEN "凌晨" ELSE IF h < 8 THEN "清晨" ELSE IF h < 12 THEN "上午" ELSE IF h < 13 THEN "中午"
             ELSE IF h < 19 THEN "下午" ELSE "晚上"
Clock(s) == LET h == s \div 3600 IN Period(h) \o ToString(IF h % 12 = 0 THEN 12 ELSE h % 12) \o ":" \o Two((s \div 60) % 60)

Days == [TODAY |-> 0, YESTERDAY |-> -1, TOMORROW |-> 1]
Years == [THIS |-> 0, LAST |-> -1, NEXT |-> 1]
DayMacros(w, n) ==
  LET d == Civil(n) k == Weekday(n)
  IN ("DATE_" \o w \o "_SHORT" :> ToString(d[1]) \o "/" \o ToString(d[2]) \o "/" \o ToString(d[3]))
  @@ ("DATE_" \o w \o "_MEDIUM" :> ToString(d[1]) \o MonthDay(d))
  @@ ("DATE_" \o w \o "_MEDIUM_ROC" :> Minguo(d[1]) \o MonthDay(d))
  @@ ("DATE_" \o w \o "_MEDIUM_JAPANESE" :> JaYearGan(d) \o MonthDay(d))
  @@ ("DATE_" \o w \o "_WEEKDAY_SHORT" :> "週" \o Nth(Week, k))
  @@ ("DATE_" \o w \o "_WEEKDAY" :> "星期" \o Nth(Week, k))
  @@ ("DATE_" \o w \o "2_WEEKDAY" :> "禮拜" \o Nth(Week, k))
  @@ ("DATE_" \o w \o "_WEEKDAY_JAPANESE" :> Nth(WeekJa, k) \o "曜日")
YearMacros(w, d, k) ==
     (w \o "_YEAR_PLAIN" :> ToString(d[1] + k) \o "年")
  @@ (w \o "_YEAR_PLAIN_WITH_ERA" :> "西元" \o ToString(d[1] + k) \o "年")
  @@ (w \o "_YEAR_ROC" :> Minguo(d[1] + k) \o "年")
  @@ (w \o "_YEAR_JAPANESE" :> JaYear(Shift(d, k)) \o "年")
  @@ (w \o "_YEAR_GANZHI" :> Sexagenary(d[1] + k))
  @@ (w \o "_YEAR_CHINESE_ZODIAC" :> Zodiac(d[1] + k))
\* Everything the macros say on day n at second s.
Macros(n, s) ==
  LET d == Civil(n) IN
  DayMacros("TODAY", n) @@ DayMacros("YESTERDAY", n - 1) @@ DayMacros("TOMORROW", n + 1)
  @@ YearMacros("THIS", d, 0) @@ YearMacros("LAST", d, -1) @@ YearMacros("NEXT", d, 1)
  @@ ("TIME_NOW_SHORT" :> Clock(s)) @@ ("TIME_NOW_MEDIUM" :> Clock(s) \o ":" \o Two(s % 60))
MenuOrder == <<"DATE_TODAY_SHORT", "DATE_TODAY_MEDIUM", "DATE_TODAY_MEDIUM_ROC", "DATE_TODAY_MEDIUM_CHINESE",
  "DATE_TODAY_MEDIUM_JAPANESE", "THIS_YEAR_PLAIN", "THIS_YEAR_PLAIN_WITH_ERA", "THIS_YEAR_ROC", "THIS_YEAR_JAPANESE",
  "DATE_TODAY_WEEKDAY_SHORT", "DATE_TODAY_WEEKDAY", "DATE_TODAY2_WEEKDAY", "DATE_TODAY_WEEKDAY_JAPANESE",
  "TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "THIS_YEAR_GANZHI", "THIS_YEAR_CHINESE_ZODIAC">>

---------------------------------------------------------------------------
(* The lunar calendar is only described: days of a month are named in order,
   the next month starts again, and the new years below are known. *)
LunarDays == <<"初一", "初二", "初三", "初四", "初五", "初六", "初七", "初八", "初九", "初十", "十一", "十二", "十三", "十四", "十五",
  "十六", "十七", "十八", "十九", "二十", "廿一", "廿二", "廿三", "廿四", "廿五", "廿六", "廿七", "廿八", "廿九", "三十">>
LunarMonths == <<"正月", "二月", "三月", "四月", "五月", "六月", "七月", "八月", "九月", "十月", "冬月", "臘月">>
NewYears == {<<2000, 2, 5>>, <<2001, 1, 24>>, <<2002, 2, 12>>, <<2003, 2, 1>>, <<2004, 1, 22>>, <<2005, 2, 9>>, <<2006, 1, 29>>,
  <<2007, 2, 18>>, <<2008, 2, 7>>, <<2009, 1, 26>>, <<2010, 2, 14>>, <<2011, 2, 3>>, <<2012, 1, 23>>, <<2013, 2, 10>>,
  <<2014, 1, 31>>, <<2015, 2, 19>>, <<2016, 2, 8>>, <<2017, 1, 28>>, <<2018, 2, 16>>, <<2019, 2, 5>>, <<2020, 1, 25>>,
  <<2021, 2, 12>>, <<2022, 2, 1>>, <<2023, 1, 22>>, <<2024, 2, 10>>, <<2025, 1, 29>>, <<2026, 2, 17>>}
\* All lunar dates of a year: leap months repeat the name with a prefix.
LunarTexts(y) == {ToString(y) \o "年" \o lp \o LunarMonths[m] \o LunarDays[i] : lp \in {"", "閏"}, m \in 1..12, i \in 1..30}
DayIn(s) == SubSeq(s, Len(s) - 1, Len(s))
LunarIx(s) == CHOOSE i \in 1..30 : LunarDays[i] = DayIn(s)
LunarFollows(a, b) == \/ LunarIx(b) = LunarIx(a) + 1 /\ SubSeq(a, 1, Len(a) - 2) = SubSeq(b, 1, Len(b) - 2)
                      \/ (LunarIx(b) = 1 /\ LunarIx(a) \in 29..30)
===========================================================================
