------------------------------ MODULE Calendar ------------------------------
(* Dates, durations and their arithmetic (src/base/TimeObj).                  *)
(* A date is [y, m, d, s, u]: year, month 0..11, day 0.., second of day,      *)
(* microsecond.  cal is "noleap" (365 days) or "standard" (Gregorian).        *)
EXTENDS Integers, Sequences, TLC

Leap(cal, y) == cal = "standard" /\ y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(cal, y, m) == IF m = 1 /\ Leap(cal, y) THEN 29 ELSE MonthLen[m + 1]
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(cal, y, m) == CumDays[m + 1] + (IF m > 1 /\ Leap(cal, y) THEN 1 ELSE 0)

\* leap years among 0 .. y-1 (y may be negative)
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1
DaysBeforeYear(cal, y) == 365 * y + (IF cal = "standard" THEN LeapsBefore(y) ELSE 0)

\* number of days since 0000-01-01 of day index d (any integer) of month m of year y
DayNumber(cal, y, m, d) == DaysBeforeYear(cal, y) + DaysBeforeMonth(cal, y, m) + d

\* the calendar date with a given day number
RECURSIVE YearOf(_, _, _)
YearOf(cal, n, y) == IF DaysBeforeYear(cal, y) > n THEN YearOf(cal, n, y - 1)
                     ELSE IF DaysBeforeYear(cal, y + 1) <= n THEN YearOf(cal, n, y + 1) ELSE y
FromDayNumber(cal, n) ==
  LET y == YearOf(cal, n, n \div 366)
      r == n - DaysBeforeYear(cal, y)
      m == CHOOSE k \in 0..11 : DaysBeforeMonth(cal, y, k) <= r /\ r < DaysBeforeMonth(cal, y, k) + DaysIn(cal, y, k)
  IN [y |-> y, m |-> m, d |-> r - DaysBeforeMonth(cal, y, m)]

Valid(cal, t) ==
  /\ t.m \in 0..11 /\ t.d >= 0 /\ t.d < DaysIn(cal, t.y, t.m)
  /\ t.s \in 0..86399 /\ t.u \in 0..999999
InRange(t) == t.y >= 0 /\ t.y <= 9999

\* counting months first, then days, seconds and microseconds
Shift(cal, t, dy, dm, dd, ds, du) ==
  LET mm == 12 * (t.y + dy) + t.m + dm
      uu == t.u + du
      ss == t.s + ds + (uu \div 1000000)
      nn == DayNumber(cal, mm \div 12, mm % 12, t.d + dd + (ss \div 86400))
      c  == FromDayNumber(cal, nn)
  IN [y |-> c.y, m |-> c.m, d |-> c.d, s |-> ss % 86400, u |-> uu % 1000000]

Normalize(cal, t) == Shift(cal, t, 0, 0, 0, 0, 0)

\* order by the count of days, seconds, microseconds
DN(cal, t) == DayNumber(cal, t.y, t.m, t.d)
Before(cal, a, b) == \/ DN(cal, a) < DN(cal, b)
                     \/ DN(cal, a) = DN(cal, b) /\ a.s < b.s
                     \/ DN(cal, a) = DN(cal, b) /\ a.s = b.s /\ a.u < b.u

\* A duration: components keep their meaning (days are not months); only units of fixed
\* length carry: microseconds to seconds to days, months to years.
NormDuration(t) ==
  LET ss == t.s + (t.u \div 1000000)
      mm == t.m
  IN [y |-> t.y + (mm \div 12), m |-> mm % 12, d |-> t.d + (ss \div 86400), s |-> ss % 86400, u |-> t.u % 1000000]

Zero == [y |-> 0, m |-> 0, d |-> 0, s |-> 0, u |-> 0]
=============================================================================
