------------------------------ MODULE RealGen ------------------------------
(* Random models and histories for whole runs: restart files, continued runs,   *)
(* decompositions, conserved sums.                                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Depth, MaxNp
VARIABLES cfg, hist, n, nf, intact
vars == <<cfg, hist, n, nf, intact>>
Focus == IOEnv.FOCUS
Rnd(S) == RandomElement(IF n = 0 THEN S ELSE S)
Init == cfg = <<>> /\ hist = <<>> /\ n = 0 /\ nf = 0 /\ intact = FALSE
SelfStarting == {"erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332"}
Schemes == SelfStarting \cup {"strang", "strang/rk3", "strang/kgu35"}
SchemesOf == IF Focus = "cont" THEN SelfStarting ELSE Schemes
Explicit == {"erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53"}
\* vertical staggering, order, levels: any for files; the implicit solver wants the Lorenz grid and four levels
VertAll == {<<"LEV", 1, 2>>, <<"LOR", 1, 2>>, <<"CPH", 1, 2>>, <<"LOR", 1, 3>>, <<"CPH", 1, 4>>, <<"LOR", 2, 4>>, <<"CPH", 2, 4>>, <<"INT", 2, 2>>}
VertExplicit == {<<"LOR", 1, 2>>, <<"CPH", 1, 2>>, <<"LOR", 1, 3>>, <<"CPH", 1, 4>>, <<"LOR", 2, 4>>, <<"CPH", 2, 4>>}
VertImplicit == {<<"LOR", 1, 4>>, <<"LOR", 1, 5>>, <<"LOR", 1, 6>>, <<"LOR", 2, 10>>, <<"LOR", 2, 12>>}
Setup == \E cube \in {Rnd({TRUE, TRUE, FALSE})}, sw \in {Rnd(BOOLEAN)}, scheme \in {Rnd(SchemesOf)}, ord \in {Rnd(2..4)}, va \in {Rnd(VertAll)}, ve \in {Rnd(VertExplicit)}, vi \in {Rnd(VertImplicit)}, tr \in {Rnd(0..2)},
            topo \in {Rnd(0..1)}, refs \in {Rnd(0..1)}, ray \in {Rnd(0..1)}, dif \in {Rnd({0, 0, 1})}, bc \in {Rnd(0..3)}, xz \in {Rnd({0, 0, 1})}, str \in {Rnd({"uniform", "cubic", "pwlinear"})},
            hv \in {Rnd({0, 2, 4})}, res \in {Rnd(1..4)}, resb \in {Rnd(1..3)}, expl \in {Rnd({0, 0, 1})}, lat \in {Rnd({-3, 0, 5, 7})}, om \in {Rnd({0, 1, 2})}, k \in {Rnd(1..8)},
            hm \in {Rnd({"V1", "V1", "V2"})}, vm \in {Rnd({"V1", "V1", "V2", "NONE"})}, vhv \in {Rnd({0, 0, 2})}, inud \in {Rnd({0, 0, 1})}, mfl \in {Rnd({0, 0, 1})}, fv \in {Rnd({FALSE, FALSE, TRUE})}, blob \in {Rnd({0, 0, 1, 2, 3, 5, 6, 7})} :
   LET v == CASE Focus = "file" -> va [] scheme \in Explicit -> ve [] OTHER -> vi
       x == Focus = "file" \/ scheme \in Explicit
       w == cube /\ sw  r == IF cube THEN (IF w THEN 1 + (res % 3) ELSE 1 + (res % 2)) ELSE 2 + res IN
   cfg' = [geom |-> IF cube THEN "cs" ELSE "ca", eq |-> IF w THEN "sw" ELSE "nh", scheme |-> scheme, ord |-> IF w \/ ~cube THEN ord ELSE 1 + (IF ord = 2 THEN 2 ELSE ord), lev |-> IF w THEN 1 ELSE v[3], vord |-> IF w THEN 1 ELSE v[2],
           stag |-> IF w THEN "LEV" ELSE v[1], tracers |-> tr, topo |-> topo, refstate |-> refs, rayleigh |-> IF refs = 1 THEN ray ELSE 0, diffs |-> IF x \/ tr = 0 \/ w THEN 20 * dif ELSE 0, diffv |-> IF x \/ tr = 0 \/ w THEN 30 * dif ELSE 0,
           bc |-> IF cube \/ Focus = "sums" THEN 0 ELSE bc, xz |-> IF cube THEN 0 ELSE xz, stretch |-> str, hv |-> hv, res |-> r, resb |-> IF cube THEN r ELSE IF xz = 1 THEN 1 ELSE resb, expl |-> IF x \/ tr = 0 \/ w THEN expl ELSE 0,
           planet |-> IF w THEN 1 + 2 * (k % 2) ELSE 120, reflat |-> lat, om |-> om, patches |-> 0,
           \* the other formulations of the dynamics: the second horizontal one is for order 4, finite volumes in the vertical are for even orders
           hm |-> IF (IF w \/ ~cube THEN ord ELSE 1 + (IF ord = 2 THEN 2 ELSE ord)) = 4 THEN hm ELSE "V1", vm |-> IF w \/ Focus = "file" THEN "V1" ELSE vm, vhv |-> IF w \/ v[2] # 1 THEN 0 ELSE vhv, inud |-> inud, mfl |-> IF w THEN 0 ELSE mfl,
           blob |-> IF Focus = "sums" THEN blob ELSE 0,
           vdisc |-> IF ~w /\ v[2] = 2 /\ v[1] # "INT" /\ fv THEN "FV" ELSE "FE"]
   /\ UNCHANGED <<hist, nf, intact>>
Np == Rnd(1..MaxNp)
\* processes that lay a grid out: on the plane their number divides the number of elements
NpNew == Rnd({k \in 1..MaxNp : cfg.geom = "cs" \/ (cfg.res * cfg.resb) % k = 0})
Cuts == {-1, -4, -8, -16, -1000, 0, 1, 3, 4, 5, 8, 100}
Damages == {<<"cut", c>> : c \in Cuts} \cup {<<"share", s>> : s \in {1, 50, 200, 333, 500, 700, 900, 990, 999}} \cup {<<"check", b>> : b \in 0..3} \cup {<<"text", 5000>>, <<"text", 300000>>, <<"none", 0>>}
Write == \E k \in {NpNew}, t \in {Rnd(0..200000000)}, seed \in {Rnd(1..99999)}, pk \in {RandomElement([1..6 -> IF n > 0 THEN 0..5 ELSE {0}])} :
   hist' = Append(hist, [op |-> "write", np |-> k, t |-> t, seed |-> seed, picks |-> pk]) /\ nf' = nf + 1 /\ intact' = TRUE
Damage == \E d \in {Rnd(Damages)} : hist' = Append(hist, [op |-> "damage", kind |-> d[1], arg |-> d[2]]) /\ nf' = nf + 1 /\ intact' = FALSE
Read == \E k \in {Np}, f \in {Rnd(0..(nf - 1))}, latest \in {Rnd(BOOLEAN)} : hist' = Append(hist, [op |-> "read", np |-> k, f |-> IF latest THEN nf - 1 ELSE f]) /\ UNCHANGED <<nf, intact>>
File == IF n = 1 THEN Write ELSE \E k \in {Rnd(1..10)} : CASE k <= 2 -> Write [] k <= 5 /\ intact -> Damage [] OTHER -> Read
\* a run of m steps with output every o and restart files every q o steps, then continuations
Run == \E k \in {NpNew}, o \in {Rnd(1..3)}, q \in {Rnd(1..3)}, m \in {Rnd(2..9)}, dt \in {Rnd(1..3)} :
   /\ hist' = Append(hist, [op |-> "run", np |-> k, dt |-> dt, steps |-> m, out |-> o, restart |-> o * q])
   /\ nf' = 1 + (m - 1) \div (o * q) /\ intact' = TRUE
Cont == \E k \in {Np}, f \in {Rnd(0..(nf - 1))} :
   hist' = Append(hist, [op |-> "cont", np |-> k, f |-> f, dt |-> hist[1].dt, steps |-> hist[1].steps, out |-> hist[1].out]) /\ UNCHANGED <<nf, intact>>
\* the same steps on another decomposition; patches in the ways the grids divide
Patches == IF cfg.geom = "cs" THEN {6, 7} \cup (IF cfg.res % 2 = 0 THEN {24, 26} ELSE {}) \cup (IF cfg.res % 3 = 0 THEN {54} ELSE {})
           ELSE {k \in 1..cfg.res : (cfg.res * cfg.resb) % k = 0}
Field == \E k \in {Np}, p \in {Rnd(Patches)}, m \in {Rnd(1..3)}, dt \in {Rnd(1..3)} :
   hist' = Append(hist, [op |-> "field", np |-> k, patches |-> p, dt |-> IF n = 1 THEN dt ELSE hist[1].dt, steps |-> IF n = 1 THEN (IF cfg.eq = "sw" THEN m ELSE 1 + (m % 2)) ELSE hist[1].steps]) /\ UNCHANGED <<nf, intact>>
Sums == \E k \in {Np}, p \in {Rnd(Patches)}, m \in {Rnd(2..8)}, dt \in {Rnd(1..3)} :
   hist' = Append(hist, [op |-> "sums", np |-> k, patches |-> p, dt |-> dt, steps |-> IF cfg.blob \in 1..3 /\ m > 4 THEN 4 ELSE m]) /\ UNCHANGED <<nf, intact>>
Op == CASE Focus = "field" -> Field [] Focus = "sums" -> Sums [] Focus = "file" -> File [] Focus = "cont" -> IF n = 1 THEN Run ELSE Cont [] OTHER -> FALSE
Next == n' = n + 1 /\ IF n = 0 THEN Setup ELSE Op /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson([c |-> cfg, h |-> hist]))
=============================================================================
