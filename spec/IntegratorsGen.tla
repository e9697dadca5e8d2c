--------------------------- MODULE IntegratorsGen ---------------------------
(* Runs of the integrators: lengths and flags of the steps as the run loop gives *)
(* them, changes of the state from outside between steps, several runs in a row.  *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Depth, Names, Split, Units
VARIABLES cfg, hist, n, open
vars == <<cfg, hist, n, open>>
Rnd(S) == RandomElement(IF n = 0 THEN S ELSE S)
Init == cfg = <<>> /\ hist = <<>> /\ n = 0 /\ open = FALSE
Setup == \E nm \in {Rnd(Names)}, o \in {Rnd({-1, 0, 10, 25, 50, 100})}, u \in {Rnd(Units)}, t \in {Rnd({0, 1, 2})} :
  cfg' = [name |-> nm, oc |-> IF nm \in Split THEN o ELSE -1, unit |-> u, tr |-> t] /\ UNCHANGED <<hist, open>>
Op == \E k \in {Rnd(1..5)}, m \in {Rnd(1..4)}, last \in {Rnd({TRUE, FALSE, FALSE})} :
  IF k = 1 /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "force") THEN hist' = Append(hist, [op |-> "force"]) /\ UNCHANGED <<cfg, open>>
  ELSE hist' = Append(hist, [op |-> "step", m |-> m, first |-> ~open, last |-> last]) /\ open' = ~last /\ UNCHANGED cfg
Next == n' = n + 1 /\ IF n = 0 THEN Setup ELSE Op
Spec == Init /\ [][Next]_vars
Emit == n = Depth => PrintT(ToJson([c |-> cfg, h |-> hist]))
=============================================================================
