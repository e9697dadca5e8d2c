---------------------------- MODULE TraceCalendar ----------------------------
(* Decides recorded executions of the real Time class against Calendar.tla.    *)
EXTENDS Calendar, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cal, t, sync   \* sync: the model follows the recording (lost at a rejected event until the next set)
Bad(what) == PrintT(<<"BAD", l, what>>)
Obs(e) == [y |-> e.r[1], m |-> e.r[2], d |-> e.r[3], s |-> e.r[4], u |-> e.r[5]]
Rec(a) == [y |-> a[1], m |-> a[2], d |-> a[3], s |-> a[4], u |-> a[5]]

Expected(e) ==
  CASE e.ev = "set"  -> Rec(e.a)
    [] e.ev = "make" -> Normalize(cal, Rec(e.a))
    [] e.ev = "addY" -> Shift(cal, t, e.a[1], 0, 0, 0, 0)
    [] e.ev = "addM" -> Shift(cal, t, 0, e.a[1], 0, 0, 0)
    [] e.ev = "addD" -> Shift(cal, t, 0, 0, e.a[1], 0, 0)
    [] e.ev = "addS" -> Shift(cal, t, 0, 0, 0, e.a[1], 0)
    [] e.ev = "addT" -> Shift(cal, t, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])

\* difference a - b as days*86400e6 etc. compared with the observed triple to within 200 microseconds
DiffOK(dd, ss, uu, obs) ==
  LET D == obs[1] - dd  S == obs[2] - ss  U == obs[3] - uu
      T == D * 86400 + S
  IN D \in -1..1 /\ T \in -1..1 /\ T * 1000000 + U \in -200..200

\* <<>> or the reason why the event is not one of the specification
Verdict(e) ==
  IF e.ev = "cal" THEN <<>>
  ELSE IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF e.ev = "cmp" THEN
    LET o == Rec(e.a)  lt == Before(cal, t, o)  gt == Before(cal, o, t)  eq == ~lt /\ ~gt IN
    IF e.exc THEN <<"exception in comparison">>
    ELSE IF <<e.lt, e.gt, e.le, e.ge, e.eq>> # <<lt, gt, ~gt, ~lt, eq>> THEN <<"order", lt, gt, eq>>
    ELSE IF cal = "noleap" /\ ~DiffOK(DN(cal, t) - DN(cal, o), t.s - o.s, t.u - o.u, e.diff) THEN <<"difference">>
    ELSE IF cal = "noleap" /\ ~DiffOK(DN(cal, t), t.s, t.u, e.secs) THEN <<"seconds since 0">>
    ELSE IF Obs(e) # t THEN <<"changed by comparison", t>>
    ELSE <<>>
  ELSE IF e.exc THEN <<"exception", Expected(e)>>
  ELSE IF Obs(e) # Expected(e) THEN <<"expected", Expected(e)>>
  ELSE IF ~Valid(cal, Obs(e)) THEN <<"not a date">>
  ELSE IF e.ev = "addT" /\ Rec(e.delta) # NormDuration(Rec(e.a)) THEN <<"duration", NormDuration(Rec(e.a))>>
  ELSE <<>>

Init == l = 1 /\ cal = "noleap" /\ t = Zero /\ sync = TRUE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]
               judged == sync \/ e.ev \in {"cal", "set", "make", "died"}
               v == IF judged THEN Verdict(e) ELSE <<>>
           IN
           /\ cal' = IF e.ev = "cal" THEN e.cal ELSE cal
           /\ t' = IF e.ev \in {"cal", "died"} THEN Zero ELSE Obs(e)
           /\ sync' = (judged /\ v = <<>>)
           /\ IF v = <<>> THEN TRUE ELSE Bad(v)
Spec == Init /\ [][Next]_<<l, cal, t, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
