----------------------------- MODULE TraceTimers -----------------------------
EXTENDS Timers, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, sync
Bad(what) == PrintT(<<"BAD", l, what>>)
\* what every group must report in state x
Verdict(e, x) ==
  IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF e.ev = "begin" THEN <<>>
  ELSE IF e.exc THEN <<"exception">>
  ELSE IF e.op \in {"peek", "stop"} /\ e.ret # Elapsed(s, e.i) THEN <<"measured", Elapsed(s, e.i)>>
  ELSE IF \E k \in 1..Len(e.groups) : LET g == e.groups[k] IN
             \/ g.n # Count(x, g.g)
             \/ g.has # (g.g \in DOMAIN x.gr)
             \/ g.has /\ (g.rn # Count(x, g.g) \/ g.tot # Total(x, g.g))
             \/ g.avg # (IF Count(x, g.g) = 0 THEN Zero2 ELSE PDiv(Total(x, g.g), Count(x, g.g)))
    THEN <<"groups", x.gr>>
  ELSE <<>>
Init == l = 1 /\ s = Fresh /\ sync = TRUE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]
               ok == sync \/ e.ev \in {"begin", "died"}
               x == IF e.ev # "op" THEN Fresh ELSE IF ok THEN Do(s, e) ELSE s
               v == IF ok THEN Verdict(e, x) ELSE <<>>
           IN s' = x /\ sync' = (ok /\ v = <<>>) /\ (v = <<>> \/ Bad(v))
Spec == Init /\ [][Next]_<<l, s, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
