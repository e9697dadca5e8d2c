------------------------------- MODULE GridGen -------------------------------
(* Random grids, decompositions and histories of operations on them.           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Depth, MaxNp
VARIABLES cfg, hist, n
vars == <<cfg, hist, n>>
Focus == IOEnv.FOCUS
Rnd(S) == RandomElement(IF n = 0 THEN S ELSE S)
Init == cfg = <<>> /\ hist = <<>> /\ n = 0
Bcs == {<<0, 0, 0, 0>>, <<1, 0, 1, 0>>, <<0, 1, 0, 1>>, <<1, 1, 1, 1>>}
\* averaging is done on closed grids mostly
BcOf(k, x) == IF Focus = "vec" \/ (Focus = "dss" /\ k > 1) THEN <<0, 0, 0, 0>> ELSE x
Ty(k, tr) == CASE k <= 4 -> "state" [] k <= 7 -> IF tr > 0 THEN "tracers" ELSE "state" [] k = 8 -> "vort" [] k = 9 -> "div" [] k = 10 -> "temp" [] k = 11 -> "rich" [] OTHER -> "topo"
Setup == \E cube \in {Rnd({TRUE, TRUE, FALSE})}, np \in {Rnd(1..MaxNp)}, k \in {Rnd(1..8)}, ord \in {Rnd(2..4)}, halo \in {Rnd({1, 1, 2})}, eq \in {Rnd(0..1)},
            nl \in {Rnd(1..3)}, tr \in {Rnd(0..2)}, ra \in {Rnd(1..4)}, rb \in {Rnd(1..3)}, st \in {Rnd(1..3)}, bc \in {Rnd(Bcs)}, kb \in {Rnd(1..8)}, pc \in {Rnd(1..5)} :
   LET rac == IF k \in {1, 2} THEN 3 ELSE IF ord = 4 THEN 1 + (ra % 2) ELSE 1 + (ra % 3)
       e == IF cube THEN eq ELSE 1 IN
   cfg' = [np |-> np, cube |-> cube, ord |-> IF cube /\ rac = 3 /\ ord = 4 THEN 3 ELSE ord, halo |-> halo,
           resA |-> IF cube THEN rac ELSE ra, resB |-> IF cube THEN rac ELSE rb,
           nPatch |-> IF cube THEN (CASE k = 1 -> 54 [] k = 2 -> 60 [] k = 3 -> 7 [] k = 4 -> 1 [] k \in {5, 6} -> IF rac % 2 = 0 THEN 24 ELSE 8 [] k = 7 -> 24 [] OTHER -> 6) ELSE pc,
           stag |-> IF e = 0 THEN 0 ELSE IF cube /\ k = 8 THEN 0 ELSE st, nLev |-> IF e = 0 THEN 1 ELSE IF st = 1 /\ nl = 1 THEN 2 ELSE nl, eq |-> e, tracers |-> tr,
           bc |-> IF cube THEN <<0, 0, 0, 0>> ELSE BcOf(kb, bc), avg |-> (Focus \in {"dss", "vec"})] /\ UNCHANGED hist
Op == \E k \in {Rnd(1..12)}, k2 \in {Rnd(1..9)}, m \in {Rnd(0..2)}, m2 \in {Rnd(0..2)}, kind \in {Rnd(0..3)}, len \in {Rnd(1..4)}, co \in {RandomElement([1..4 -> IF n > 0 THEN {-3, -1, 0, 0, 1, 2, 7} ELSE {0}])}, o \in {Rnd({"copy", "zero", "lin", "lin", "lin"})} :
   hist' = Append(hist, CASE Focus = "exch" -> [op |-> "exch", ty |-> Ty(k, cfg.tracers), m |-> m]
                          [] Focus = "dss" -> [op |-> "dss", ty |-> Ty(k2, cfg.tracers), m |-> m]
                          [] Focus = "vec" -> [op |-> "vec", ty |-> IF k > 8 THEN "topo" ELSE "state", m |-> m]
                          [] Focus = "sum" -> [op |-> "sum", ty |-> IF k > 6 /\ cfg.tracers > 0 THEN "tracers" ELSE "state", m |-> m, kind |-> kind]
                          [] OTHER -> [op |-> o, ty |-> IF k > 6 /\ cfg.tracers > 0 THEN "tracers" ELSE "state", dst |-> m, src |-> m2, co |-> SubSeq(co, 1, len)])
   /\ UNCHANGED cfg
Next == n' = n + 1 /\ IF n = 0 THEN Setup ELSE Op
Spec == Init /\ [][Next]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson([c |-> cfg, h |-> hist]))
=============================================================================
