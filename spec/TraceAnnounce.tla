---------------------------- MODULE TraceAnnounce ----------------------------
(* Decides what the real Announce functions wrote, rank by rank.               *)
EXTENDS Announce, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, sync
Bad(what) == PrintT(<<"BAD", l, what>>)
Verdict(e, x) ==
  IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF e.ev = "begin" THEN <<>>
  ELSE IF e.ev = "flush" THEN      \* the text of one stream, as lines, after a last line feed if one was due
    LET want == IF e.heard THEN Close(s).lines ELSE <<>> IN
    IF e.other # <<>> THEN <<"written to the other stream", e.other>>
    ELSE IF e.lines # want THEN <<"lines", want>>
    ELSE <<>>
  ELSE IF e.exc THEN <<"exception">> ELSE <<>>
Init == l = 1 /\ s = Fresh /\ sync = TRUE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]
               ok == sync \/ e.ev \in {"begin", "died"}
               v == IF ok THEN Verdict(e, s) ELSE <<>>
               x == IF e.ev \in {"begin", "died"} THEN Fresh
                    ELSE IF e.ev = "flush" THEN [Close(s) EXCEPT !.lines = <<>>]
                    ELSE IF ok THEN Do(s, e) ELSE s
           IN s' = x /\ sync' = (ok /\ v = <<>>) /\ (v = <<>> \/ Bad(v))
Spec == Init /\ [][Next]_<<l, s, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
