------------------------------ MODULE RefGen ------------------------------
(* Random models, output grids and schedules for output on the reference grid.    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Depth, MaxNp
VARIABLES cfg, hist, n
vars == <<cfg, hist, n>>
Focus == IOEnv.FOCUS
Rnd(S) == RandomElement(IF n = 0 THEN S ELSE S)
Init == cfg = <<>> /\ hist = <<>> /\ n = 0
Vert == {<<"LEV", 1, 3, 1>>, <<"LOR", 1, 2, 1>>, <<"LOR", 1, 4, 1>>, <<"CPH", 1, 3, 1>>, <<"CPH", 1, 4, 1>>, <<"LOR", 2, 4, 2>>, <<"CPH", 2, 6, 2>>, <<"LOR", 3, 6, 3>>, <<"CPH", 3, 9, 3>>, <<"LOR", 4, 8, 4>>}
Years == {1, 1900, 1999, 2000, 2003, 2004, 2100, 1850}
Setup == \E cube \in {Rnd({TRUE, TRUE, FALSE})}, sw \in {Rnd({TRUE, FALSE, FALSE})}, ord \in {Rnd(2..4)}, v \in {Rnd(Vert)}, tr \in {Rnd(0..5)}, us \in {Rnd(3..6)}, topo \in {Rnd(0..1)}, refs \in {Rnd(0..1)}, bc \in {Rnd(0..3)}, xz \in {Rnd({0, 0, 1})},
            str \in {Rnd({"uniform", "cubic", "pwlinear"})}, res \in {Rnd(1..4)}, resb \in {Rnd(1..4)}, fv \in {Rnd({FALSE, FALSE, FALSE, TRUE})}, al \in {Rnd({0, 0, 0, 1})},
            cal \in {Rnd({"noleap"})}, sy \in {Rnd(Years)}, sm \in {Rnd({1, 2, 2, 6, 11, 12})}, sd \in {Rnd({1, 27, 28, 28})}, ss \in {Rnd({0, 0, 1, 43200, 86399})} :
   LET w == sw  r == IF cube /\ ord > 2 /\ res = 4 THEN 3 ELSE res IN
   cfg' = [geom |-> IF cube THEN "cs" ELSE "ca", eq |-> IF w /\ cube THEN "sw" ELSE "nh", ord |-> ord, lev |-> IF w /\ cube THEN 1 ELSE v[3], vord |-> IF w /\ cube THEN 1 ELSE v[2], stag |-> IF w /\ cube THEN "LEV" ELSE v[1],
           tracers |-> tr, user |-> us, topo |-> topo, refstate |-> refs, rayleigh |-> 0, bc |-> IF cube THEN 0 ELSE bc, xz |-> IF cube THEN 0 ELSE xz, stretch |-> str, hv |-> 0, res |-> r, resb |-> IF cube THEN r ELSE IF xz = 1 THEN 1 ELSE resb,
           expl |-> 1, planet |-> IF w /\ cube THEN 1 ELSE 120, reflat |-> 0, om |-> 0, al |-> al, patches |-> 0, diffs |-> 0, diffv |-> 0, scheme |-> "erk",
           vdisc |-> IF ~(w /\ cube) /\ v[2] = 2 /\ fv THEN "FV" ELSE "FE", cal |-> cal, sy |-> sy, sm |-> sm, sd |-> sd, ss |-> ss, dn |-> 0, de |-> 0]
   /\ UNCHANGED hist
\* models whose derived quantities have a closed form: see DiagOps in RefOps
DiagSetup == \E cube \in {Rnd({TRUE, TRUE, FALSE})}, sw \in {Rnd({TRUE, FALSE, FALSE})}, m \in {Rnd(1..3)}, ord \in {Rnd(2..4)}, v \in {Rnd(Vert)}, topo \in {Rnd(0..1)}, bc \in {Rnd(0..3)}, str \in {Rnd({"uniform", "cubic", "pwlinear"})}, res \in {Rnd(1..4)}, resb \in {Rnd(1..4)}, fv \in {Rnd({FALSE, FALSE, FALSE, TRUE})},
            kx \in {Rnd(-2..2)}, ky \in {Rnd(-2..2)}, kz \in {Rnd(-2..2)}, gx \in {Rnd(-2..2)}, gy \in {Rnd(-2..2)}, gz \in {Rnd(-2..2)}, W \in {Rnd(0..2)}, refs \in {Rnd(0..1)} :
   LET w == sw /\ cube  mode == IF w THEN 3 ELSE m  o == IF cube THEN (IF ord = 2 THEN 4 ELSE ord) ELSE ord  r == IF cube THEN (IF o = 4 THEN 3 ELSE 4) ELSE res
       vv == IF mode = 3 /\ v[1] = "CPH" THEN <<"LOR", v[2], v[3], v[4]>> ELSE v  flat == mode = 3 IN
   cfg' = [geom |-> IF cube THEN "cs" ELSE "ca", eq |-> IF w THEN "sw" ELSE "nh", ord |-> o, lev |-> IF w THEN 1 ELSE vv[3], vord |-> IF w THEN 1 ELSE vv[2], stag |-> IF w THEN "LEV" ELSE vv[1],
           tracers |-> 0, user |-> 3, topo |-> IF flat THEN 0 ELSE topo, refstate |-> refs, rayleigh |-> 0, bc |-> IF cube THEN 0 ELSE 3, xz |-> 0, stretch |-> IF flat THEN "uniform" ELSE str, hv |-> 0, res |-> r, resb |-> IF cube THEN r ELSE resb,
           expl |-> 1, planet |-> IF w THEN 1 ELSE 120, reflat |-> 0, om |-> 0, al |-> 0, patches |-> 0, diffs |-> 0, diffv |-> 0, scheme |-> "erk",
           vdisc |-> IF ~w /\ vv[2] = 2 /\ fv THEN "FV" ELSE "FE", cal |-> "noleap", sy |-> 1, sm |-> 1, sd |-> 1, ss |-> 0, dn |-> 0, de |-> 0,
           diag |-> mode, kx |-> kx, ky |-> ky, kz |-> kz, gx |-> gx, gy |-> gy, gz |-> gz, W |-> IF w THEN W ELSE 0]
   /\ UNCHANGED hist
Patches == IF cfg.geom = "cs" THEN {6, 7} \cup (IF cfg.res % 2 = 0 THEN {24, 26} ELSE {}) \cup (IF cfg.res % 3 = 0 THEN {54} ELSE {})
           ELSE {k \in 1..cfg.res : (cfg.res * cfg.resb) % k = 0}
Steps == {1, 7, 600, 1800, 3600, 5400, 21600, 43200, 86399, 86400, 100000, 172800, 864000, 2592000}
\* degree in eta the vertical operators reproduce, on the levels themselves or at other heights
MinOf(a, b) == IF a < b THEN a ELSE b
Ref == \E k \in {Rnd(1..MaxNp)}, p \in {Rnd(Patches)}, dt \in {Rnd(Steps)}, m \in {Rnd(1..(IF Focus = "records" THEN 12 ELSE 3))}, ev \in {Rnd(1..4)}, per \in {Rnd({-1, -1, 1, 2, 3, 5})}, nx \in {Rnd({1, 2, 3, 4, 5, 6, 8, 12})}, ny \in {Rnd({1, 2, 3, 4, 6, 8, 9})},
          z \in {Rnd({0, 0, 1, 2, 3, 4, 5, 7})}, nd \in {Rnd(0..1)}, rm \in {Rnd(IF Focus = "diag" THEN {0} ELSE 0..1)} :
   LET nz == IF cfg.eq = "sw" \/ (cfg.vdisc = "FV" /\ cfg.geom = "ca") THEN 0 ELSE z
       nodes == IF cfg.eq = "sw" \/ (cfg.vdisc = "FV" /\ cfg.geom = "ca") THEN 0 ELSE nd
       o == IF cfg.vdisc = "FV" THEN 1 ELSE cfg.vord IN
   /\ hist' = Append(hist, [op |-> "ref", np |-> k, patches |-> p, dt |-> dt, steps |-> m, every |-> ev, per |-> per, nx |-> IF Focus = "records" THEN MinOf(nx, 3) ELSE nx, ny |-> IF Focus = "records" THEN MinOf(ny, 2) ELSE ny, nz |-> nz, nodes |-> nodes, rm |-> rm])
   /\ cfg' = [cfg EXCEPT !.dn = IF nz = 0 THEN 2 ELSE o - 1, !.de = IF nz = 0 /\ nodes = 0 THEN 2 ELSE o]
Next == n' = n + 1 /\ IF n = 0 THEN (IF Focus = "diag" THEN DiagSetup ELSE Setup) ELSE Ref
Spec == Init /\ [][Next]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson([c |-> cfg, h |-> hist]))
=============================================================================
