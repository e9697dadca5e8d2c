------------------------------ MODULE TraceColumns ------------------------------
(* Recorded columns, stretchings and spacings of the code against ColumnOps.tla.  *)
EXTENDS ColumnOps, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(what) == PrintT(<<"BAD", l, what>>)
Verdict(e) == CASE e.ev = "died" -> <<"died", e.why>>
                [] e.ev = "column" -> ColumnV(e)
                [] e.ev = "stretch" -> StretchV(e)
                [] e.ev = "spacing" -> SpacingV(e)
                [] OTHER -> Nothing
Init == l = 1
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN IF v = Nothing THEN TRUE ELSE Bad(v)
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
