--------------------------- MODULE TracePreferences ---------------------------
EXTENDS Preferences, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, ok    \* the file read last and whether it was accepted
Bad(what) == PrintT(<<"BAD", l, what>>)
Verdict(e) ==
  IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF e.ev = "missing" THEN (IF e.ok THEN <<"a missing file was accepted">> ELSE <<>>)
  ELSE IF e.ev = "file" THEN
    LET p == Parsed(e.S) IN
    IF Unsettled(p) THEN <<>>
    ELSE IF e.ok # ~Rejected(p) THEN <<IF e.ok THEN "accepted" ELSE "refused", p>> ELSE <<>>
  ELSE IF e.ev = "get" THEN
    IF Unsettled(P) \/ ~ok THEN <<>>
    ELSE IF ~Has(P, e.key) THEN
      (IF e.thrown # 6 THEN <<"absent key not reported", e.key>>
       ELSE IF e.found # 0 \/ ~e.null \/ e.flags # 5 THEN <<"absent key", e.key>> ELSE <<>>)
    ELSE LET v == Get(P, e.key) IN
      IF e.thrown # 0 \/ e.flags # 0 \/ e.null THEN <<"known key reported as absent", e.key>>
      ELSE IF e.s # v \/ e.s2 # v \/ e.s3 # v \/ e.s4 # v THEN <<"value", e.key, v>>
      ELSE IF e.low # LowerAll(v) \/ e.low2 # LowerAll(v) THEN <<"lower-case value", e.key, v>>
      ELSE IF IsInt(v) /\ (e.n # IntOf(v) \/ e.n2 # IntOf(v)) THEN <<"integer", e.key, v>>
      ELSE IF IsInt(v) /\ IntOf(v) >= 0 /\ (e.un # IntOf(v) \/ e.un2 # IntOf(v)) THEN <<"unsigned", e.key, v>>
      ELSE IF IsDec(v) /\ (e.m # Milli(v) \/ e.m2 # Milli(v)) THEN <<"number", e.key, v>>
      ELSE <<>>
  ELSE <<"unknown">>
Init == l = 1 /\ P = <<>> /\ ok = FALSE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l] v == Verdict(e) IN
           /\ P' = IF e.ev = "file" THEN Parsed(e.S) ELSE P
           /\ ok' = IF e.ev = "file" THEN e.ok ELSE ok
           /\ (v = <<>> \/ Bad(v))
Spec == Init /\ [][Next]_<<l, P, ok>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
