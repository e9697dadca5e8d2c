----------------------------- MODULE CalendarMC -----------------------------
(* The oracle of Calendar.tla checked against a clock that only knows how to  *)
(* move to the next day, and the arithmetic checked for its algebraic laws.   *)
EXTENDS Calendar
CONSTANTS Years, Cals, Starts
VARIABLES cal, t, n, y0
vars == <<cal, t, n, y0>>

Init == /\ cal \in Cals /\ y0 \in Starts
        /\ t = [Zero EXCEPT !.y = y0] /\ n = DN(cal, t)

Tomorrow(c, x) == IF x.d + 1 < DaysIn(c, x.y, x.m) THEN [x EXCEPT !.d = @ + 1]
                  ELSE IF x.m < 11 THEN [x EXCEPT !.d = 0, !.m = @ + 1]
                  ELSE [x EXCEPT !.d = 0, !.m = 0, !.y = @ + 1]
Tick == /\ t.y < y0 + Years /\ t' = Tomorrow(cal, t) /\ n' = n + 1 /\ UNCHANGED <<cal, y0>>
Spec == Init /\ [][Tick]_vars

TypeOK == Valid(cal, t)
CountsDays == /\ DN(cal, t) = n
              /\ LET c == FromDayNumber(cal, n) IN c.y = t.y /\ c.m = t.m /\ c.d = t.d
\* the arithmetic
Laws ==
  /\ Shift(cal, t, 0, 0, 1, 0, 0) = Tomorrow(cal, t)
  /\ Shift(cal, Tomorrow(cal, t), 0, 0, -1, 0, 0) = t
  /\ Shift(cal, t, 0, 0, 0, 86400, 0) = Tomorrow(cal, t)
  /\ Shift(cal, t, 0, 0, 0, -1, 0) = [Shift(cal, t, 0, 0, -1, 0, 0) EXCEPT !.s = 86399]
  /\ Shift(cal, t, 0, 0, 0, 0, -1) = [Shift(cal, t, 0, 0, -1, 0, 0) EXCEPT !.s = 86399, !.u = 999999]
  /\ Shift(cal, t, 1, -12, 0, 0, 0) = t
  /\ Shift(cal, Shift(cal, t, 0, 0, 31, 40000, 999999), 0, 0, -31, -40000, -999999) = t
  /\ Shift(cal, t, 0, 0, 0, 2147, 483000) = Shift(cal, Shift(cal, t, 0, 0, 0, 2147, 0), 0, 0, 0, 0, 483000)
  /\ Valid(cal, Shift(cal, t, 0, 1, 0, 0, 0))
  /\ t.d < 28 => Shift(cal, t, 0, 1, 0, 0, 0).d = t.d
  /\ Before(cal, t, Tomorrow(cal, t)) /\ ~Before(cal, Tomorrow(cal, t), t) /\ ~Before(cal, t, t)
=============================================================================
