------------------------------ MODULE GridEnum ------------------------------
(* All small layouts.                                                           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS CubeRes, MaxPatch, Nps, ResA, ResB, MaxStrips
VARIABLES c
Bcs == {<<0, 0, 0, 0>>, <<1, 0, 1, 0>>, <<0, 1, 0, 1>>, <<1, 1, 1, 1>>}
C(cube, np, n, a, b, bc) == [np |-> np, cube |-> cube, ord |-> 2, halo |-> 1, resA |-> a, resB |-> b, nPatch |-> n, stag |-> 0, nLev |-> 1, eq |-> 1, tracers |-> 0, bc |-> bc, avg |-> FALSE]
Cubes == {C(TRUE, np, n, r, r, <<0, 0, 0, 0>>) : np \in Nps, n \in 1..MaxPatch, r \in CubeRes}
Planes == {C(FALSE, np, n, a, b, bc) : np \in Nps, n \in 1..MaxStrips, a \in ResA, b \in ResB, bc \in Bcs}
Init == c \in Cubes \cup Planes
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson([c |-> c, h |-> <<>>]))
=============================================================================
