---------------------------- MODULE TraceTimeText ----------------------------
(* Decides recorded executions of the real Time class against TimeText.tla.    *)
EXTENDS TimeText, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cal, t, sync   \* sync: the model follows the recording (lost at a rejected event until the next set)
Bad(what) == PrintT(<<"BAD", l, what>>)
Obs(e) == [y |-> e.r[1], m |-> e.r[2], d |-> e.r[3], s |-> e.r[4], u |-> e.r[5]]
Rec(a) == [y |-> a[1], m |-> a[2], d |-> a[3], s |-> a[4], u |-> a[5]]

Expected(e) ==
  CASE e.ev = "set"  -> Rec(e.a)
    [] e.ev = "make" -> Normalize(cal, Rec(e.a))
    [] e.ev = "addY" -> Shift(cal, t, e.a[1], 0, 0, 0, 0)
    [] e.ev = "addM" -> Shift(cal, t, 0, e.a[1], 0, 0, 0)
    [] e.ev = "addD" -> Shift(cal, t, 0, 0, e.a[1], 0, 0)
    [] e.ev = "addS" -> Shift(cal, t, 0, 0, 0, e.a[1], 0)
    [] e.ev = "addT" -> Shift(cal, t, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])

Back(a, fixed, x) == fixed /\ Len(a) = 5 /\ Rec(a) = x

\* <<>> or the reason why the event is not one of the specification
Verdict(e) ==
  IF e.ev = "cal" THEN <<>>
  ELSE IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF e.ev = "text" THEN
    IF e.exc THEN <<"exception while printing">>
    ELSE IF e.longS # LongText(t) THEN <<"long form", LongText(t)>>
    ELSE IF e.fullS # FullText(t) THEN <<"full form", FullText(t)>>
    ELSE IF e.shortS # ShortText(t) THEN <<"short form", ShortText(t)>>
    ELSE IF e.dateS # DateText(t) THEN <<"date form", DateText(t)>>
    ELSE IF ~Back(e.long, e.longF, t) THEN <<"long form read back">>
    ELSE IF ~Back(e.full, e.fullF, t) THEN <<"full form read back">>
    ELSE IF ~Back(e.short, e.shortF, [t EXCEPT !.u = 0]) THEN <<"short form read back">>
    ELSE IF ~Back(e.date, e.dateF, [t EXCEPT !.u = 0, !.s = 0]) THEN <<"date form read back">>
    ELSE IF Obs(e) # t THEN <<"changed by printing", t>>
    ELSE <<>>
  ELSE IF e.ev = "dur" THEN
    LET n == NormDuration(Rec(e.a)) IN
    IF e.exc THEN <<"exception">>
    ELSE IF Rec(e.d) # n THEN <<"duration", n>>
    ELSE IF e.S # FreeText(n) THEN <<"free form", FreeText(n)>>
    ELSE IF Rec(e.back) # n \/ ~e.delta THEN <<"free form read back", n>>
    ELSE <<>>
  ELSE IF e.ev = "parse" THEN
    LET r == Read(cal, e.S) IN
    IF e.exc THEN <<"unexpected exception">>
    ELSE IF r.k = "unspecified" THEN <<>>
    ELSE IF r.k = "reject" THEN (IF e.ok THEN <<"accepted", e.S, e.p>> ELSE <<>>)
    ELSE IF ~e.ok THEN <<"refused", e.S, r>>
    ELSE IF Rec(e.p) # r.t THEN <<"misread", e.S, r>>
    ELSE IF r.k # "empty" /\ e.fixed # (r.k = "fixed") THEN <<"kind", e.S, r>>
    ELSE <<>>
  ELSE IF e.ev = "long" THEN
    LET r == ReadLong(cal, e.S) IN
    IF e.exc THEN <<"unexpected exception">>
    ELSE IF r.k = "reject" THEN (IF e.ok THEN <<"accepted", e.S, e.p>> ELSE <<>>)
    ELSE IF ~e.ok THEN <<"refused", e.S, r>>
    ELSE IF Rec(e.p) # r.t \/ ~e.fixed THEN <<"misread", e.S, r>>
    ELSE <<>>
  ELSE IF e.exc THEN <<"exception", Expected(e)>>
  ELSE IF Obs(e) # Expected(e) THEN <<"expected", Expected(e)>>
  ELSE IF ~Valid(cal, Obs(e)) THEN <<"not a date">>
  ELSE <<>>

Init == l = 1 /\ cal = "noleap" /\ t = Zero /\ sync = TRUE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]
               judged == sync \/ e.ev \in {"cal", "set", "make", "died"}
               v == IF judged THEN Verdict(e) ELSE <<>>
           IN
           /\ cal' = IF e.ev = "cal" THEN e.cal ELSE cal
           /\ t' = IF e.ev \in {"cal", "died"} THEN Zero ELSE Obs(e)
           /\ sync' = (judged /\ v = <<>>)
           /\ IF v = <<>> THEN TRUE ELSE Bad(v)
Spec == Init /\ [][Next]_<<l, cal, t, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
