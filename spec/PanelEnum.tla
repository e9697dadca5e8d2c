------------------------------ MODULE PanelEnum ------------------------------
(* What is looked up on the panels: directions, all cells, all lattice points.  *)
EXTENDS Integers, Json, TLC
CONSTANTS CellNs, PointNs, AreaNs
VARIABLE s
Init == s \in {[k |-> "dirs", p |-> 0, n |-> 0]} \cup {[k |-> "cells", p |-> p, n |-> n] : p \in 0..5, n \in CellNs}
           \cup {[k |-> "points", p |-> p, n |-> n] : p \in 0..5, n \in PointNs} \cup {[k |-> "areas", p |-> 0, n |-> n] : n \in AreaNs}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson(s))
=============================================================================
