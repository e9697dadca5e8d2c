------------------------------ MODULE TraceReal ------------------------------
(* Recorded whole runs of the real model against RealOps.tla.                   *)
EXTENDS RealOps, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, files, ref, fld
Bad(what) == PrintT(<<"BAD", l, what>>)
None == <<>>
Verdict(e) ==
  CASE e.ev = "died" -> <<"died", e.why>>
    [] e.ev = "write" -> IF ~e.ok THEN <<"writing failed">> ELSE IF ~Whole(e) THEN <<"patches missing">> ELSE None
    [] e.ev = "read" -> ReadOk(files[e.f + 1], e)
    [] e.ev = "run" -> IF ~e.ok THEN <<"run failed">> ELSE None
    [] e.ev = "cont" -> IF ref = None \/ ~ref.ok \/ ~ref.fin THEN None ELSE ContOk(ref, e, e.every)
    [] e.ev = "field" -> IF ~e.ok THEN <<"run failed">> ELSE IF fld = None THEN None ELSE FieldOk(fld, e)
    [] e.ev = "sums" -> SumsOk(e)
    [] OTHER -> None
Init == l = 1 /\ cfg = None /\ files = <<>> /\ ref = None /\ fld = None
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]  v == Verdict(e) IN
           /\ IF v = None THEN TRUE ELSE Bad(v)
           /\ cfg' = IF e.ev = "cfg" THEN e.c ELSE cfg
           /\ files' = CASE e.ev = "cfg" -> <<>> [] e.ev = "write" -> Append(files, IF e.ok /\ Whole(e) THEN e ELSE None) [] e.ev = "damage" -> Append(files, None) [] OTHER -> files
           /\ ref' = CASE e.ev = "cfg" -> None [] e.ev = "run" -> e [] OTHER -> ref
           /\ fld' = CASE e.ev = "cfg" -> None [] e.ev = "field" /\ fld = None /\ e.ok -> e [] OTHER -> fld
Spec == Init /\ [][Next]_<<l, cfg, files, ref, fld>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
