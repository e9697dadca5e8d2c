------------------------------ MODULE TraceRef ------------------------------
(* Recorded output on the reference grid against RefOps.tla.                     *)
EXTENDS RefOps, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg
Bad(what) == PrintT(<<"BAD", l, what>>)
Verdict(e) == CASE e.ev = "died" -> <<"died", e.why>>
                [] e.ev = "ref" -> IF IOEnv.FOCUS = "records" THEN RecordsV(cfg, e) ELSE IF IOEnv.FOCUS = "diag" THEN DiagV(cfg, e) ELSE SamplingV(cfg, e)
                [] OTHER -> Nothing
Init == l = 1 /\ cfg = Nothing
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]  v == Verdict(e) IN
           /\ IF v = Nothing THEN TRUE ELSE Bad(v)
           /\ cfg' = IF e.ev = "cfg" THEN e.c ELSE cfg
Spec == Init /\ [][Next]_<<l, cfg>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
