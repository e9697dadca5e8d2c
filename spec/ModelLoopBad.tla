---------------------------- MODULE ModelLoopBad ----------------------------
(* Deliberately wrong run loops, to show that the properties of ModelLoop.tla  *)
(* reject them.                                                                *)
EXTENDS ModelLoopMC
CONSTANT Fault
Late(c, s, r) == \* the last step is not shortened
  IF Fault = "late" /\ s.ph = "run" /\ r.s.ph = "done"
  THEN [r EXCEPT !.evs = [k \in 1..Len(@) |-> IF @[k].ev = "step" THEN [@[k] EXCEPT !.dt = Span(s.t, Plus(s.t, c.dt))] ELSE @[k]]]
  ELSE IF Fault = "twice" /\ s.ph = "run" /\ r.s.ph = "done" /\ Len(r.evs) > 1
  THEN [r EXCEPT !.evs = @ \o SelectSeq(@, LAMBDA e : e.ev = "output")]
  ELSE IF Fault = "skip" /\ s.ph = "run"
  THEN [r EXCEPT !.s.proc = [i \in 1..Len(@) |-> IF \E k \in 1..Len(r.evs) : r.evs[k].ev = "perform" /\ r.evs[k].i = i THEN Plus(r.s.t, Procs(c)[i].f) ELSE s.proc[i]]]
  ELSE r
TurnB == /\ todo = <<>> /\ st.ph # "done"
         /\ LET r == Late(cfg, st, Round(cfg, st)) IN todo' = r.evs /\ st' = r.s
         /\ UNCHANGED <<cfg, log>>
SpecB == Init /\ [][Emit1 \/ TurnB]_lvars
=============================================================================
