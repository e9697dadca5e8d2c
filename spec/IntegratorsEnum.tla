-------------------------- MODULE IntegratorsEnum --------------------------
(* Every integrator, every flag sequence of a run of up to MaxLen steps, with and without *)
(* a change from outside after a step.                                                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxLen, Names, Split, Ocs, Ms
VARIABLE s
Step(m, f, l) == [op |-> "step", m |-> m, first |-> f, last |-> l]
Run(ms) == [k \in 1..Len(ms) |-> Step(ms[k], k = 1, k = Len(ms))]
Runs == UNION {{Run(ms) : ms \in [1..k -> Ms]} : k \in 1..MaxLen}
Pushed(r) == IF Len(r) < 2 THEN {} ELSE {<<r[1], [op |-> "force"]>> \o Tail(r)}
Twice == {Run(<<1, 2>>) \o Run(<<2, 1>>)}
Hists == Runs \cup UNION {Pushed(r) : r \in Runs} \cup Twice
Init == s \in UNION {{[c |-> [name |-> nm, oc |-> o, unit |-> "1", tr |-> 1], h |-> h] : h \in Hists, o \in {-1} \cup (IF nm \in Split THEN Ocs ELSE {})} : nm \in Names}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson(s))
=============================================================================
