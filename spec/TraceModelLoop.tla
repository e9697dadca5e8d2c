--------------------------- MODULE TraceModelLoop ---------------------------
(* Decides recorded runs of the real Model::Go against ModelLoop.tla. The      *)
(* classes of events in FOCUS are judged (all are followed).                   *)
EXTENDS ModelLoop, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
Judged == CASE Focus = "steps" -> {"step"} [] Focus = "outputs" -> {"open", "close", "output"} [] OTHER -> {"pinit", "perform"}
VARIABLES l, sync
Bad(what) == PrintT(<<"BAD", l, what>>)
\* the remaining events of the round, generating further rounds as needed
RECURSIVE Next1(_, _, _)
Next1(c, s, q) == IF q # <<>> THEN [s |-> s, q |-> q]
                  ELSE IF s.ph = "done" THEN [s |-> s, q |-> <<>>]
                  ELSE LET r == Round(c, s) IN Next1(c, r.s, r.evs)
Obs(e) ==
  CASE e.ev = "step" -> [ev |-> "step", first |-> e.first, last |-> e.last, t |-> D(e.t), dt |-> e.dt]
    [] e.ev = "open" -> [ev |-> "open", i |-> e.i, name |-> e.name]
    [] e.ev = "close" -> [ev |-> "close", i |-> e.i]
    [] e.ev \in {"output", "pinit", "perform"} -> [ev |-> e.ev, i |-> e.i, t |-> D(e.t)]
    [] OTHER -> [ev |-> e.ev]
\* events of other classes are skipped up to the next one of the judged class
RECURSIVE Skip(_, _, _)
Skip(c, s, q) == LET n == Next1(c, s, q) IN
                 IF n.q = <<>> \/ Head(n.q).ev \in Judged THEN n ELSE Skip(c, n.s, Tail(n.q))
\* log: what happened last: end of the last step and time of the last output (0 before any)
Order1(e) ==
  CASE e.ev = "pinit" -> log[1] = <<>>
    [] e.ev = "perform" -> log[1] = <<D(e.t)>> /\ log[2] # <<D(e.t)>>
    [] e.ev = "output" -> IF D(e.t) = D(cfg.start) THEN log[1] = <<>> ELSE log[1] = <<D(e.t)>>
    [] OTHER -> TRUE
Track(e) == CASE e.ev = "step" -> <<<<After(D(e.t), e.dt)>>, log[2]>>
              [] e.ev = "output" -> <<log[1], <<D(e.t)>>>>
              [] OTHER -> log
Init == l = 1 /\ sync = FALSE /\ cfg = 0 /\ st = 0 /\ todo = <<>> /\ log = <<<<>>, <<>>>>
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l] IN
           IF e.ev = "cfg" THEN cfg' = e.c /\ st' = Fresh(e.c) /\ todo' = <<>> /\ sync' = TRUE /\ log' = <<<<>>, <<>>>>
           ELSE IF e.ev = "died" THEN /\ Bad(<<"died", e.why>>) /\ sync' = FALSE /\ UNCHANGED <<cfg, st, todo, log>>
           ELSE IF ~sync THEN UNCHANGED <<cfg, st, todo, sync, log>>
           ELSE IF e.ev = "gone" THEN
                  LET n == Skip(cfg, st, todo) IN
                  /\ UNCHANGED <<cfg, st, todo, log>> /\ sync' = FALSE
                  /\ IF e.exc THEN Bad(<<"exception">>)
                     ELSE IF n.q # <<>> THEN Bad(<<"missing", Head(n.q)>>) ELSE TRUE
           ELSE /\ log' = Track(e)
                /\ IF e.ev \notin Judged THEN UNCHANGED <<cfg, st, todo, sync>>
                   ELSE LET n == Skip(cfg, st, todo) IN
                        IF n.q # <<>> /\ Obs(e) = Head(n.q) /\ Order1(e)
                        THEN st' = n.s /\ todo' = Tail(n.q) /\ UNCHANGED <<cfg, sync>>
                        ELSE /\ Bad(IF n.q = <<>> THEN <<"nothing was due">> ELSE IF Obs(e) = Head(n.q) THEN <<"out of order", log>> ELSE <<"expected", Head(n.q)>>)
                             /\ sync' = FALSE /\ UNCHANGED <<cfg, st, todo>>
Spec == Init /\ [][Next]_<<lvars, l, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
