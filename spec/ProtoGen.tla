------------------------------ MODULE ProtoGen ------------------------------
(* Random exchanges together with random behaviour of the communication library. *)
EXTENDS GridGen
Partner(np) == [late |-> Rnd({0, 0, 0, 300, 2000}), sync |-> Rnd(BOOLEAN),
                defer |-> [q \in 1..np |-> IF q = 0 THEN 0 ELSE Rnd({0, 0, 1, 2, 5, 20, 200, 1000000})],
                prio |-> [q \in 1..np |-> IF q = 0 THEN 0 ELSE Rnd(1..np)]]
PSetup == Setup /\ cfg'.np > 1 /\ cfg'.nPatch > 1
              /\ (IF cfg'.cube THEN TRUE ELSE (cfg'.resA * cfg'.resB) % cfg'.nPatch = 0) /\ (IF cfg'.cube /\ cfg'.nPatch = 60 THEN cfg'.resA % 3 = 0 ELSE TRUE)
POp == \E k \in {Rnd(1..12)}, m \in {Rnd(0..2)}, burst \in {Rnd({0, 1, 1, 1})} :
   hist' = Append(hist, [op |-> "exch", ty |-> Ty(k, cfg.tracers), m |-> m, join |-> burst, plan |-> [p \in 1..cfg.np |-> IF p = 0 THEN <<>> ELSE Partner(cfg.np)]])
   /\ UNCHANGED cfg
PNext == n' = n + 1 /\ IF n = 0 THEN PSetup ELSE POp
PSpec == Init /\ [][PNext]_vars
=============================================================================
