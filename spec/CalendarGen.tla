----------------------------- MODULE CalendarGen -----------------------------
(* Behaviours of the calendar arithmetic, printed as JSON for replay.          *)
EXTENDS Calendar, Json
CONSTANTS Depth, Cals
VARIABLES cal, t, hist

\* state-level, so that TLC does not evaluate a random choice once and keep it
Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
Mix(big) == Rnd({0, 1, -1, Rnd(-40..40), Rnd(-400..400), Rnd(-20..20), Rnd(-big..big), Rnd(-3..3)})
Years == {0, 1, 3, 4, 96, 99, 100, 101, 399, 400, 401, 999, 1000, 1001, 1582, 1600, 1900, 1970, 1999, 2000, 2001, 2004, 2099, 2100, 2400, 3000, 4000, 5000, 9996, 9998}
\* TLC may evaluate a LET more than once, so every random value is bound by a set comprehension.
RndYear(z) == IF Rnd(1..3) = 1 THEN Rnd(0..9998) ELSE Rnd(Years)
RndMonth(z) == Rnd({1, 11} \cup {Rnd(0..11)})
RndDay(n) == Rnd({0, n - 1} \cup {Rnd(0..(n - 1)), Rnd(0..(n - 1))})
RndDate(c) == Rnd(UNION {UNION {{[y |-> y, m |-> m, d |-> d, s |-> s, u |-> u] :
                      d \in {RndDay(DaysIn(c, y, m))}, s \in {Rnd({0, 86399, Rnd(0..86399)})}, u \in {Rnd({0, 999999, Rnd(0..999999)})}}
                    : m \in {RndMonth(0)}} : y \in {RndYear(0)}})
SecMix(z) == Rnd({86400, -86400, Rnd({-86401, -86399, 86399, 86401, -172800, -1, 1}), Rnd(-1000000000..1000000000), Rnd(-100000..100000), Rnd(-4000..4000)})
MicMix(z) == Rnd({1000000, -1000000, Rnd({-1000001, -999999, 999999, 1000001, -2000000, -1, 1, 0}), Rnd(-1000000000..1000000000), Rnd(-1500000..1500000)})

SetOp(x) == [op |-> "set", a |-> <<x.y, x.m, x.d, x.s, x.u>>]
Init == /\ cal \in Cals /\ t = Zero /\ hist = <<SetOp(t)>>

Try(op, a, r) == IF InRange(r) THEN t' = r /\ hist' = Append(hist, [op |-> op, a |-> a])
                 ELSE \E x \in {RndDate(cal)} : t' = x /\ hist' = Append(hist, SetOp(x))
AddYears   == \E n \in {Mix(3000)} : Try("addY", <<n>>, Shift(cal, t, n, 0, 0, 0, 0))
AddMonths  == \E n \in {Mix(9000)} : Try("addM", <<n>>, Shift(cal, t, 0, n, 0, 0, 0))
AddDays    == \E n \in {Mix(900000)} : Try("addD", <<n>>, Shift(cal, t, 0, 0, n, 0, 0))
AddSeconds == \E n \in {SecMix(0)} : Try("addS", <<n>>, Shift(cal, t, 0, 0, 0, n, 0))
AddDelta   == \E a \in {Rnd({-1, 1, 2})}, z \in {Rnd(1..4)}, dy \in {Rnd(0..5)}, dm \in {Rnd(0..30)}, dd \in {Rnd(0..400)}, ds \in {SecMix(0)}, du \in {MicMix(0)} :
              LET D == <<IF z = 1 THEN 0 ELSE a * dy, IF z = 2 THEN 0 ELSE a * dm, IF z = 3 THEN 0 ELSE a * dd, IF z = 4 THEN 0 ELSE ds, du>>
              IN Try("addT", D, Shift(cal, t, D[1], D[2], D[3], D[4], D[5]))
\* a constructor call whose fields overflow
Make       == \E x \in {RndDate(cal)}, dm \in {Rnd(-30..30)}, dd \in {Rnd(-500..500)}, ds \in {SecMix(0)}, du \in {MicMix(0)} :
              LET A == [x EXCEPT !.m = @ + dm, !.d = @ + dd, !.s = @ + ds, !.u = du]
              IN Try("make", <<A.y, A.m, A.d, A.s, A.u>>, Normalize(cal, A))
Near       == Rnd(UNION {{Shift(cal, t, 0, 0, a, b, d) : a \in {Rnd({0, 1, -1, 31, -31, 365})}, b \in {Rnd({0, 0, 1, -1, 86400})}} : d \in {Rnd({0, 1, -1})}})
Compare    == \E o \in {Rnd({t, Near, RndDate(cal)})} :
              IF InRange(o) THEN hist' = Append(hist, [op |-> "cmp", a |-> <<o.y, o.m, o.d, o.s, o.u>>]) /\ UNCHANGED t
              ELSE UNCHANGED <<t, hist>>
Text       == hist' = Append(hist, [op |-> "text", a |-> <<>>]) /\ UNCHANGED t
Reset      == \E x \in {RndDate(cal)} : t' = x /\ hist' = Append(hist, SetOp(x))
CONSTANT Ops
Kinds == (IF "arith" \in Ops THEN 1..9 ELSE {}) \cup (IF "text" \in Ops THEN 10..14 ELSE {})
Next == /\ UNCHANGED cal
        /\ \E k \in {Rnd(Kinds)} :
           CASE k = 1 -> AddYears [] k = 2 -> AddMonths [] k \in {3, 12} -> AddDays [] k \in {4, 13} -> AddSeconds
             [] k \in 5..6 -> AddDelta [] k = 7 -> Make [] k = 8 -> Compare [] k \in {9, 14} -> Reset [] OTHER -> Text
Emit == TLCGet("level") = Depth => PrintT(ToJson([cal |-> cal, ops |-> hist]))
Spec == Init /\ [][Next]_<<cal, t, hist>>

-----------------------------------------------------------------------------
(* Exhaustive part: every date of interesting years, every small operation.   *)
CONSTANT EYears
SmallOps == <<[op |-> "addD", a |-> <<1>>], [op |-> "addD", a |-> <<-1>>], [op |-> "addM", a |-> <<1>>], [op |-> "addM", a |-> <<-1>>],
              [op |-> "addM", a |-> <<12>>], [op |-> "addM", a |-> <<-12>>], [op |-> "addM", a |-> <<-13>>], [op |-> "addY", a |-> <<1>>], [op |-> "addY", a |-> <<-1>>], [op |-> "addY", a |-> <<4>>],
              [op |-> "addS", a |-> <<86400>>], [op |-> "addS", a |-> <<-1>>], [op |-> "addS", a |-> <<-86400>>], [op |-> "addD", a |-> <<366>>], [op |-> "addD", a |-> <<-366>>],
              [op |-> "addT", a |-> <<0, 0, 0, 0, -1>>], [op |-> "addT", a |-> <<0, 0, 40, 0, 0>>], [op |-> "addT", a |-> <<0, 14, 1, 0, 1000000>>]>>
InitE == /\ cal \in Cals /\ \E y \in EYears, m \in 0..11 : t = [Zero EXCEPT !.y = y, !.m = m]
         /\ hist = <<>>
NextE == /\ t.d < DaysIn(cal, t.y, t.m) /\ t' = [t EXCEPT !.d = @ + 1] /\ UNCHANGED cal
         /\ hist' = [k \in 1..(2 * Len(SmallOps)) |-> IF k % 2 = 1 THEN SetOp(t) ELSE SmallOps[k \div 2]]
         /\ PrintT(ToJson([cal |-> cal, ops |-> hist']))
SpecE == InitE /\ [][NextE]_<<cal, t, hist>>
=============================================================================
