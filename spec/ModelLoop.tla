----------------------------- MODULE ModelLoop ------------------------------
(* The run loop (src/atm/Model::Go), the output schedule (OutputManager) and   *)
(* the periodic processes (WorkflowProcess), as a transition system whose      *)
(* transitions are the observable calls: steps, file openings and closings,    *)
(* outputs, initialisations and performances of processes.                     *)
(* A configuration c: start, stop: dates; dt: duration; comps: sequence of     *)
(* [k |-> "out", f, n, r] (frequency, records per file, read from restart) and *)
(* [k |-> "proc", f]. Dates and durations are <<y, m, d, s, u>>.               *)
EXTENDS TimeText

D(a) == [y |-> a[1], m |-> a[2], d |-> a[3], s |-> a[4], u |-> a[5]]
Plus(t, a) == Shift("noleap", t, a[1], a[2], a[3], a[4], a[5])
Less(a, b) == Before("noleap", a, b)
ZeroLen(a) == a = <<0, 0, 0, 0, 0>>
\* length of the interval from a to b as <<days, seconds, microseconds>>
Span(a, b) == LET u == b.u - a.u
                  s == b.s - a.s + (u \div 1000000)
              IN <<DN("noleap", b) - DN("noleap", a) + (s \div 86400), s % 86400, u % 1000000>>

Outs(c) == SelectSeq(c.comps, LAMBDA x : x.k = "out")
Procs(c) == SelectSeq(c.comps, LAMBDA x : x.k = "proc")
Prefix(i) == <<"/", "t", "m", "p", "/", "p", "r", "e">> \o Pad(i, 1) \o <<".">>

\* s: ph, t, first, out: per stream [next, open, recs], proc: per process [next]
Fresh(c) == [ph |-> "start", t |-> D(c.start), first |-> TRUE,
             out |-> [i \in 1..Len(Outs(c)) |-> [next |-> Zero, open |-> FALSE, recs |-> 0]],
             proc |-> [i \in 1..Len(Procs(c)) |-> Zero]]

\* one output of stream i: possibly opening, possibly closing the file
Write(c, i, o, t) ==
  [evs |-> (IF o.open THEN <<>> ELSE <<[ev |-> "open", i |-> i, name |-> Prefix(i) \o ShortText(t)]>>)
           \o <<[ev |-> "output", i |-> i, t |-> t]>>
           \o (IF o.recs + 1 = Outs(c)[i].n THEN <<[ev |-> "close", i |-> i]>> ELSE <<>>),
   o |-> IF o.recs + 1 = Outs(c)[i].n THEN [o EXCEPT !.open = FALSE, !.recs = 0]
         ELSE [o EXCEPT !.open = TRUE, !.recs = @ + 1]]

\* the streams in order of attachment; sel(i) those that write
RECURSIVE WriteAll(_, _, _, _, _)
WriteAll(c, os, t, Sel, i) ==
  IF i > Len(os) THEN [evs |-> <<>>, out |-> os]
  ELSE IF i \notin Sel THEN WriteAll(c, os, t, Sel, i + 1)
  ELSE LET w == Write(c, i, os[i], t)
           r == WriteAll(c, [os EXCEPT ![i] = w.o], t, Sel, i + 1)
       IN [evs |-> w.evs \o r.evs, out |-> r.out]

Due(f, next, t) == ~ZeroLen(f) /\ ~Less(t, next)

\* the observable events of the next round of the loop, and the state after them
Round(c, s) ==
  LET O == Outs(c)
      P == Procs(c)
  IN
  IF s.ph = "start" THEN
    IF ~Less(s.t, D(c.stop)) THEN [evs |-> <<>>, s |-> [s EXCEPT !.ph = "done"]]
    ELSE LET w == WriteAll(c, s.out, s.t, {i \in 1..Len(O) : ~O[i].r}, 1)
         IN [evs |-> w.evs \o [i \in 1..Len(P) |-> [ev |-> "pinit", i |-> i, t |-> s.t]],
             s |-> [s EXCEPT !.ph = "run",
                    !.out = [i \in 1..Len(O) |-> [w.out[i] EXCEPT !.next = Plus(s.t, O[i].f)]],
                    !.proc = [i \in 1..Len(P) |-> Plus(s.t, P[i].f)]]]
  ELSE
    LET full == Plus(s.t, c.dt)
        last == ~Less(full, D(c.stop))
        t2 == IF last THEN D(c.stop) ELSE full
        pdue == {i \in 1..Len(P) : Due(P[i].f, s.proc[i], t2)}
        odue == {i \in 1..Len(O) : Due(O[i].f, s.out[i].next, t2)}
        w == WriteAll(c, s.out, t2, IF last THEN 1..Len(O) ELSE odue, 1)
        perf == SelectSeq([i \in 1..Len(P) |-> i], LAMBDA i : i \in pdue)
    IN [evs |-> <<[ev |-> "step", first |-> s.first, last |-> last, t |-> s.t, dt |-> Span(s.t, t2)]>>
                \o [k \in 1..Len(perf) |-> [ev |-> "perform", i |-> perf[k], t |-> t2]]
                \o w.evs,
        s |-> [s EXCEPT !.ph = IF last THEN "done" ELSE "run", !.t = t2, !.first = FALSE,
               !.out = [i \in 1..Len(O) |-> IF ~last /\ i \in odue THEN [w.out[i] EXCEPT !.next = Plus(@, O[i].f)] ELSE w.out[i]],
               !.proc = [i \in 1..Len(P) |-> IF i \in pdue THEN Plus(s.proc[i], P[i].f) ELSE s.proc[i]]]]

-----------------------------------------------------------------------------
(* The transition system: one observable event per transition. *)
VARIABLES cfg, st, todo, log
lvars == <<cfg, st, todo, log>>
Emit1 == /\ todo # <<>> /\ log' = Append(log, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, st>>
Turn == /\ todo = <<>> /\ st.ph # "done"
        /\ LET r == Round(cfg, st) IN todo' = r.evs /\ st' = r.s
        /\ UNCHANGED <<cfg, log>>
LNext == Emit1 \/ Turn
Finished == todo = <<>> /\ st.ph = "done"

-----------------------------------------------------------------------------
(* The properties, stated over the recorded history and without the automaton. *)
Of(ev) == SelectSeq(log, LAMBDA e : e.ev = ev)
OfI(ev, i) == SelectSeq(log, LAMBDA e : e.ev = ev /\ e.i = i)
After(t, sp) == Shift("noleap", t, 0, 0, sp[1], sp[2], sp[3])
StepEnd(e) == After(e.t, e.dt)
NoRun == ~Less(D(cfg.start), D(cfg.stop))

\* C03
StepsContiguous ==
  LET S == Of("step") IN
  /\ \A k \in 1..Len(S) : k > 1 => S[k].t = StepEnd(S[k - 1])
  /\ Len(S) > 0 => S[1].t = D(cfg.start)
  /\ \A k \in 1..Len(S) : S[k].first = (k = 1)
  /\ \A k \in 1..Len(S) : S[k].last = (StepEnd(S[k]) = D(cfg.stop))
  /\ \A k \in 1..Len(S) : /\ Less(S[k].t, StepEnd(S[k])) /\ ~Less(D(cfg.stop), StepEnd(S[k]))
                          /\ IF S[k].last THEN ~Less(Plus(S[k].t, cfg.dt), StepEnd(S[k])) ELSE StepEnd(S[k]) = Plus(S[k].t, cfg.dt)
CoversInterval == Finished => IF NoRun THEN log = <<>>
                              ELSE LET S == Of("step") IN Len(S) > 0 /\ StepEnd(S[Len(S)]) = D(cfg.stop)
\* C04, C05
\* the ends of the steps that serve the multiples: each by the first step that reaches it,
\* one per step, multiples reached by one step being served by that and the following steps
Ends == [k \in 1..Len(Of("step")) |-> StepEnd(Of("step")[k])]
RECURSIVE Serve(_, _, _, _)
Serve(E, t, f, k) == IF k > Len(E) \/ ZeroLen(f) THEN {}
                     ELSE IF Less(E[k], Plus(t, f)) THEN Serve(E, t, f, k + 1)
                     ELSE {E[k]} \cup Serve(E, Plus(t, f), f, k + 1)
StepsServing(f) == Serve(Ends, D(cfg.start), f, 1)
OutTimes(i) == [k \in 1..Len(OfI("output", i)) |-> OfI("output", i)[k].t]
Range(q) == {q[k] : k \in 1..Len(q)}
OutputSchedule == Finished => \A i \in 1..Len(Outs(cfg)) :
   /\ Range(OutTimes(i)) = IF NoRun THEN {} ELSE
         (IF Outs(cfg)[i].r THEN {} ELSE {D(cfg.start)}) \cup StepsServing(Outs(cfg)[i].f) \cup {D(cfg.stop)}
OutputOnce == \A i \in 1..Len(Outs(cfg)) : \A a, b \in 1..Len(OutTimes(i)) : a < b => Less(OutTimes(i)[a], OutTimes(i)[b])
FilesGrouped == \A i \in 1..Len(Outs(cfg)) :
   LET F == SelectSeq(log, LAMBDA e : e.ev \in {"open", "close", "output"} /\ e.i = i)
       n == Outs(cfg)[i].n
       recs(k) == Cardinality({j \in 1..k : F[j].ev = "output"})
   IN \A k \in 1..Len(F) :
      CASE F[k].ev = "open" -> /\ k > 1 => F[k - 1].ev = "close"
                               /\ k < Len(F) => F[k + 1].ev = "output" /\ F[k].name = Prefix(i) \o ShortText(F[k + 1].t)
        [] F[k].ev = "close" -> F[k - 1].ev = "output" /\ n > 0 /\ recs(k) % n = 0
        [] OTHER -> k > 1 /\ F[k - 1].ev \in {"open", "output"} /\ (n > 0 /\ recs(k) % n = 0 /\ k < Len(F) => F[k + 1].ev = "close")
ProcSchedule == Finished => \A i \in 1..Len(Procs(cfg)) :
   /\ Len(OfI("pinit", i)) = IF NoRun THEN 0 ELSE 1
   /\ Range([k \in 1..Len(OfI("perform", i)) |-> OfI("perform", i)[k].t]) = IF NoRun THEN {} ELSE StepsServing(Procs(cfg)[i].f)
ProcOnce == \A i \in 1..Len(Procs(cfg)) : LET q == OfI("perform", i) IN \A a, b \in 1..Len(q) : a < b => Less(q[a].t, q[b].t)
\* between two steps: performances in order of attachment, then outputs in order of attachment
Order == \A k \in 1..(Len(log) - 1) :
   LET a == log[k] b == log[k + 1] IN
   /\ a.ev = "perform" /\ b.ev = "perform" => a.i < b.i
   /\ b.ev = "perform" => a.ev \in {"step", "perform"}
   /\ b.ev = "pinit" => a.ev \in {"pinit", "output", "close"} /\ b.t = D(cfg.start)
   /\ a.ev = "output" /\ b.ev \in {"open", "output"} => a.i < b.i
   /\ a.ev \in {"output", "perform"} => a.t = (IF Of("step") = <<>> THEN D(cfg.start) ELSE a.t)
=============================================================================
