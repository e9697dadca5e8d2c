----------------------------- MODULE ModelLoopMC -----------------------------
(* Bounded exhaustive exploration of the run loop, and generation of           *)
(* configurations for the replay on the real Model::Go.                        *)
EXTENDS ModelLoop, Json
CONSTANTS Lens, Dts, Freqs, Ns, MaxOut, MaxProc
Base == <<1, 11, 30, 86397, 999998>>
Durs(S) == {<<0, 0, 0, n, 0>> : n \in S}
OutSet == [k : {"out"}, f : Durs(Freqs), n : Ns, r : BOOLEAN]
ProcSet == [k : {"proc"}, f : Durs(Freqs)]
CompSeqs == {<<>>} \cup {<<o>> : o \in OutSet} \cup {<<p, o>> : p \in ProcSet, o \in OutSet} \cup {<<p, q>> : p \in ProcSet, q \in ProcSet}
            \cup (IF MaxOut > 1 THEN {<<o, p, o2>> : o \in OutSet, p \in ProcSet, o2 \in OutSet} ELSE {})
Cfgs == {[start |-> Base, stop |-> LET t == Plus(D(Base), <<0, 0, 0, n, v>>) IN <<t.y, t.m, t.d, t.s, t.u>>,
          dt |-> <<0, 0, 0, q, 0>>, comps |-> x] : n \in Lens, v \in {0, 1}, q \in Dts, x \in CompSeqs}
Init == /\ cfg \in Cfgs /\ st = Fresh(cfg) /\ todo = <<>> /\ log = <<>>
Spec == Init /\ [][LNext]_lvars /\ WF_lvars(LNext)
Terminates == <>Finished

-----------------------------------------------------------------------------
\* state-level, so that TLC does not evaluate a random choice once and keep it
Rnd(S) == RandomElement(IF log = <<>> THEN S ELSE S)
A(t) == <<t.y, t.m, t.d, t.s, t.u>>
\* start dates near turns of day, month and year
Start(z) == Rnd(UNION {{[y |-> y, m |-> m, d |-> Rnd({0, DaysIn("noleap", 0, m) - 1}), s |-> s, u |-> u] : y \in {Rnd({0, 1, 99, 1999, 2004, Rnd(0..9000)})}, m \in {Rnd({0, 1, 11, Rnd(0..11)})}}
                     : s \in {Rnd({0, 86399, Rnd(0..86399)})}, u \in {Rnd({0, 0, 999999, Rnd(0..999999)})}})
\* step lengths, and runs of a bounded number of steps
SubDay(z) == Rnd({<<0, 0, 0, Rnd(1..4000), 0>>, <<0, 0, 0, Rnd(0..50), Rnd(1..999999)>>, <<0, 0, 0, 0, Rnd(1..1000000)>>, <<0, 0, 0, Rnd({100, 1800, 43200, 86399}), 0>>,
               <<0, 0, 0, Rnd({1, 2, 3, 10}), 0>>, <<0, 0, Rnd({1, 2, 3}), 0, 0>>, <<0, 0, Rnd({1, 11, 20}), Rnd(0..86399), Rnd(0..999999)>>})
Monthly(z) == Rnd({<<0, 1, 0, 0, 0>>, <<0, 2, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<0, 1, 3, 0, 0>>})
RECURSIVE Times(_, _, _)
Times(t, a, n) == IF n = 0 THEN t ELSE Times(Plus(t, a), a, n - 1)
ScaleBy(a, n) == LET u == a[5] * (n % 1000) IN <<a[1] * n, a[2] * n, a[3] * n, a[4] * n, u>>
\* frequencies: zero, multiples and fractions of the step, calendar units, and unrelated ones
Freq(dt) == Rnd({<<0, 0, 0, 0, 0>>, dt, ScaleBy(dt, 2), ScaleBy(dt, Rnd(2..9)), <<dt[1], dt[2], dt[3] \div 2, dt[4] \div 2, 1 + (dt[5] \div 2)>>,
                 <<0, 0, dt[3], dt[4], (dt[5] + 1)>>, <<dt[1], dt[2], dt[3], dt[4] + Rnd(0..10), Rnd(0..999999)>>, Monthly(0), SubDay(0)})
Comp(dt) == Rnd({[k |-> "out", f |-> f, n |-> n, r |-> r] : f \in {Freq(dt)}, n \in {Rnd({1, 1, 2, 3, 5, 0, -1, 1000})}, r \in {Rnd({FALSE, FALSE, TRUE})}}
                \cup {[k |-> "proc", f |-> f] : f \in {Freq(dt)}})
MkCfg(z) == Rnd(UNION {UNION {{[start |-> A(t), stop |-> A(e), dt |-> dt, comps |-> SubSeq(x, 1, nc)] :
             e \in {Rnd({Times(t, dt, n), Plus(Times(t, dt, n), <<0, 0, 0, 0, 1>>), Plus(Times(t, dt, n), <<0, 0, 0, Rnd(0..dt[4]), Rnd(0..dt[5])>>), Plus(Times(t, dt, n), <<0, 0, 0, 0, -1>>)}) : n \in {Rnd({0, 1, 2, 3, Rnd(0..25)})}},
             x \in {<<a, b, d, g>> : a \in {Comp(dt)}, b \in {Comp(dt)}, d \in {Comp(dt)}, g \in {Comp(dt)}}, nc \in {Rnd(0..4)}}
           : dt \in {IF Rnd(1..8) = 1 THEN Monthly(0) ELSE SubDay(0)}} : t \in {Start(0)}})
CONSTANT Depth
InitG == cfg = 0 /\ st = 0 /\ todo = 0 /\ log = <<>>
NextG == \E c \in {MkCfg(0)} : cfg' = c /\ log' = Append(log, c) /\ UNCHANGED <<st, todo>>
SpecG == InitG /\ [][NextG]_lvars
EmitG == TLCGet("level") = Depth => PrintT(ToJson(log))
InitD == cfg \in Cfgs /\ st = Fresh(cfg) /\ todo = <<>> /\ log = <<>> /\ PrintT(ToJson(cfg))
SpecD == InitD /\ [][FALSE]_lvars
=============================================================================
