-------------------------------- MODULE Mass --------------------------------
(* Why the total mass is conserved: a ring of elements of different widths, two nodes  *)
(* each (shared with the neighbours), two levels of different thickness. Every part of  *)
(* a step moves mass between nodes: fluxes of the flow inside each element, diffusion   *)
(* inside each element, averaging of the copies of shared nodes, exchange between the    *)
(* levels of a column. A velocity belongs to a node, not to a copy of it.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS E,        \* elements in the ring
          Steps,    \* whole steps
          Variant   \* "ok", or the name of a mistake
W(e) == IF e % 2 = 0 THEN 2 ELSE 1          \* width of an element
T(k) == k                                    \* thickness of a level
Scale == 288
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE Scale * Pow(n - 1)
Unit == Pow(Steps)
El == 1..E  Side == 1..2  Lev == 1..2
Right(e) == IF e = E THEN 1 ELSE e + 1
Left(e) == IF e = 1 THEN E ELSE e - 1
VARIABLES q, phase, n
vars == <<q, phase, n>>
\* node e lies between element e and its right neighbour
NodeOf(e, s) == IF s = 2 THEN e ELSE Left(e)
Elem(e) == W(e) * (T(1) * (q[e][1][1] + q[e][2][1]) + T(2) * (q[e][1][2] + q[e][2][2]))
RECURSIVE SumTo(_)
SumTo(e) == IF e = 0 THEN 0 ELSE Elem(e) + SumTo(e - 1)
Total == SumTo(E)
Init == /\ q \in {f \in [El -> [Side -> [Lev -> {Unit, 2 * Unit}]]] : \A e \in El, k \in Lev : f[e][2][k] = f[Right(e)][1][k] /\ f[e][2][1] = Unit}
        /\ phase = "flow" /\ n = 0
\* flow: the flux at a node is velocity times the value of the element's own copy
Flow == \E u \in [El -> {-1, 0, 1}] :
  q' = TLCEval([e \in El |-> [s \in Side |-> [k \in Lev |-> q[e][s][k] - (u[NodeOf(e, 2)] * q[e][2][k] - u[NodeOf(e, 1)] * q[e][1][k]) \div W(e)]]])
Average == q' = TLCEval([e \in El |-> [s \in Side |-> [k \in Lev |->
  LET o == IF s = 2 THEN Right(e) ELSE Left(e)  a == q[e][s][k]  b == q[o][3 - s][k] IN
  IF Variant = "plain" THEN (a + b) \div 2 ELSE (W(e) * a + W(o) * b) \div (W(e) + W(o))]]])
Diffuse == \E d \in [El -> {0, 1}] :
  q' = TLCEval([e \in El |-> [s \in Side |-> [k \in Lev |-> LET x == d[e] * (q[e][3 - s][k] - q[e][s][k]) IN q[e][s][k] + ((IF Variant = "oneside" /\ s = 2 THEN 2 * x ELSE x) \div W(e))]]])
\* exchange between the two levels of a column: the flux through their interface; nothing passes the bottom and the top
Column == \E v \in [El -> {-1, 0, 1}] :
  q' = TLCEval([e \in El |-> [s \in Side |-> [k \in Lev |->
    LET f == v[NodeOf(e, s)] * (IF v[NodeOf(e, s)] > 0 THEN q[e][s][1] ELSE q[e][s][2])
        out == IF Variant = "leak" /\ k = 2 THEN v[NodeOf(e, s)] * q[e][s][2] ELSE 0 IN
    q[e][s][k] + (IF k = 1 THEN -f ELSE f - out) \div (IF Variant = "thickness" THEN 1 ELSE T(k))]]])
Next == /\ n < Steps
        /\ CASE phase = "flow" -> Flow /\ phase' = (IF Variant = "split" THEN "diffuse" ELSE "average") /\ n' = n
             [] phase = "average" -> Average /\ phase' = "diffuse" /\ n' = n
             [] phase = "diffuse" -> Diffuse /\ phase' = "again" /\ n' = n
             [] phase = "again" -> Average /\ phase' = "column" /\ n' = n
             [] phase = "column" -> Column /\ phase' = "flow" /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Conserved == [][Total' = Total]_vars
\* copies of a node agree whenever a part of the step uses the state
Agree == phase \in {"flow", "diffuse", "column"} => \A e \in El, k \in Lev : q[e][2][k] = q[Right(e)][1][k]
=============================================================================
