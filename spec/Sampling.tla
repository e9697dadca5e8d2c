------------------------------ MODULE Sampling ------------------------------
(* Output on a regular grid: a line of N elements is cut into patches, patches   *)
(* belong to processes. Every output point is given to one patch that contains    *)
(* it (patches are closed; neighbours share a point); at every output each        *)
(* process fills the points of its own patches in an empty buffer and the sum of  *)
(* all buffers is what is written. Points are half-element positions 0..2N.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Procs, Outputs, Variant
VARIABLES cut, owner, place, buf, s, pc, outp
vars == <<cut, owner, place, buf, s, pc, outp>>
Points == 0..(2 * N)
\* cut[e]: element e starts a patch; the patch of an element is the number of cuts up to it
PatchOf(c, e) == Cardinality({k \in 1..e : c[k]})
NumPatches(c) == PatchOf(c, N)
Contains(c, p, x) == \E e \in 1..N : PatchOf(c, e) = p /\ 2 * (e - 1) <= x /\ (x < 2 * e \/ (Variant # "open" /\ x = 2 * e))
Field(x, t) == 10 * t + 3 * x + 1
Init == /\ cut \in {c \in [1..N -> BOOLEAN] : c[1]} /\ owner \in [1..NumPatches(cut) -> Procs]
        /\ place = [x \in Points |-> {}] /\ buf = [r \in Procs |-> [x \in Points |-> 0]] /\ s = 0 /\ pc = "locate" /\ outp = <<>>
First(S) == IF S = {} THEN {} ELSE {CHOOSE p \in S : \A q \in S : p <= q}
Locate == /\ pc = "locate" /\ pc' = "fill"
          /\ place' = [x \in Points |-> LET S == {p \in 1..NumPatches(cut) : Contains(cut, p, x)} IN IF Variant = "all" THEN S ELSE First(S)]
          /\ UNCHANGED <<cut, owner, buf, s, outp>>
Fill == /\ pc = "fill" /\ pc' = "reduce"
        /\ buf' = [r \in Procs |-> [x \in Points |->
             (IF Variant = "stale" THEN buf[r][x] ELSE 0)
             + Field(x, s) * Cardinality({p \in place[x] : owner[p] = r /\ (Variant # "first" \/ \A q \in 1..NumPatches(cut) : owner[q] = r => p <= q)})]]
        /\ UNCHANGED <<cut, owner, place, s, outp>>
RECURSIVE SumOver(_, _)
SumOver(S, x) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN buf[r][x] + SumOver(S \ {r}, x)
Reduce == /\ pc = "reduce" /\ outp' = Append(outp, [x \in Points |-> SumOver(Procs, x)]) /\ s' = s + 1
          /\ pc' = (IF s + 1 = Outputs THEN "done" ELSE "fill") /\ UNCHANGED <<cut, owner, place, buf>>
Next == Locate \/ Fill \/ Reduce
Spec == Init /\ [][Next]_vars
Sampled == \A t \in 1..Len(outp) : \A x \in Points : outp[t][x] = Field(x, t - 1)
OnePlace == pc # "locate" => \A x \in Points : Cardinality(place[x]) = 1
=============================================================================
