---------------------------- MODULE Decomposition ----------------------------
(* The same steps on any division of a ring of elements into patches and any      *)
(* placing of the patches on processes. A process works through its patches with   *)
(* the scratch it has, sends the edge values of what it computed, and combines      *)
(* each edge with the value that came from the neighbour; it goes on without        *)
(* waiting for anyone but its neighbours.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS E,        \* elements
          Procs,    \* processes
          Steps,
          Scratch,  \* "own": computing an element uses only that element; "left": also what the scratch was left with
          Sends,    \* "after": edges are sent as computed; "before": as they were before the computation
          Within    \* edges between patches of one process are: "through" the exchange, "skipped"
VARIABLES cut, owner, val, pc, step, work, scratch, chan
vars == <<cut, owner, val, pc, step, work, scratch, chan>>
El == 0..(E - 1)
Nx(e) == (e + 1) % E
Pv(e) == (e + E - 1) % E
P == 0..(Procs - 1)
\* the reference: every element at once
F(e, v) == [l |-> (v.l + 2 * v.r + e) % 17, r |-> (3 * v.r + v.l + 1) % 17]
C(a, b) == (a + b) % 17        \* what an edge gets from its two sides
RECURSIVE Ref(_)
Ref(n) == IF n = 0 THEN [e \in El |-> [l |-> e, r |-> (e + 1) % E]]
          ELSE LET q == Ref(n - 1)  c == [e \in El |-> F(e, q[e])] IN [e \in El |-> [l |-> C(c[Pv(e)].r, c[e].l), r |-> C(c[e].r, c[Nx(e)].l)]]
\* patches: cut[e] holds when a patch begins at element e; owner of a patch is kept with its elements
First(e) == cut[e]
PatchOf(e) == CHOOSE s \in El : cut[s] /\ \E k \in 0..(E - 1) : (s + k) % E = e /\ \A j \in 1..k : ~cut[(s + j) % E]
Divisions == {c \in [El -> BOOLEAN] : \E e \in El : c[e]}
Mine(p) == {e \in El : owner[e] = p}
\* an edge e lies between element e and the next one; it is within a patch, within a process or between processes
Inner(e) == ~cut[Nx(e)]
Init == /\ cut \in Divisions
        /\ owner \in [El -> P] /\ \A e \in El : ~cut[e] => owner[e] = owner[Pv(e)]
        /\ val = Ref(0) /\ pc = [p \in P |-> "compute"] /\ step = [p \in P |-> 0] /\ work = [p \in P |-> Mine(p)] /\ scratch = [p \in P |-> 0]
        /\ chan = [e \in El |-> [up |-> <<>>, down |-> <<>>]]
\* elements are worked through in order, patch by patch
Least(S) == CHOOSE e \in S : \A f \in S : e <= f
Compute(p) == /\ pc[p] = "compute" /\ step[p] < Steps
              /\ IF work[p] = {} THEN /\ pc' = [pc EXCEPT ![p] = "combine"] /\ work' = [work EXCEPT ![p] = Mine(p)] /\ UNCHANGED <<val, scratch, chan>>
                 ELSE LET e == Least(work[p])  v == F(e, val[e])
                          w == IF Scratch = "left" THEN [v EXCEPT !.l = (v.l + scratch[p]) % 17] ELSE v
                          s == IF Sends = "before" THEN val[e] ELSE w IN
                      /\ val' = [val EXCEPT ![e] = w] /\ scratch' = [scratch EXCEPT ![p] = w.r]
                      /\ work' = [work EXCEPT ![p] = @ \ {e}]
                      /\ chan' = [f \in El |-> [up |-> IF f = e THEN Append(chan[f].up, s.r) ELSE chan[f].up,
                                                down |-> IF f = Pv(e) THEN Append(chan[f].down, s.l) ELSE chan[f].down]]
                      /\ UNCHANGED pc
              /\ UNCHANGED <<cut, owner, step>>
\* an element is combined when both its neighbours' values have come
Has(e) == chan[e].down # <<>> /\ chan[Pv(e)].up # <<>>
Skip(e, f) == Within = "skipped" /\ owner[e] = owner[f] /\ PatchOf(e) # PatchOf(f)
Combine(p) == /\ pc[p] = "combine"
              /\ IF work[p] = {} THEN /\ pc' = [pc EXCEPT ![p] = "compute"] /\ step' = [step EXCEPT ![p] = @ + 1] /\ work' = [work EXCEPT ![p] = Mine(p)] /\ UNCHANGED <<val, chan>>
                 ELSE \E e \in {e \in work[p] : Has(e)} :
                      /\ val' = [val EXCEPT ![e] = [l |-> IF Skip(e, Pv(e)) THEN @.l ELSE C(Head(chan[Pv(e)].up), @.l), r |-> IF Skip(e, Nx(e)) THEN @.r ELSE C(@.r, Head(chan[e].down))]]
                      /\ chan' = [f \in El |-> [up |-> IF f = Pv(e) THEN Tail(chan[f].up) ELSE chan[f].up, down |-> IF f = e THEN Tail(chan[f].down) ELSE chan[f].down]]
                      /\ work' = [work EXCEPT ![p] = @ \ {e}] /\ UNCHANGED <<pc, step>>
              /\ UNCHANGED <<cut, owner, scratch>>
Next == \/ \E p \in P : Compute(p) \/ Combine(p)
        \/ (\A p \in P : step[p] = Steps) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A p \in P : WF_vars(Compute(p) \/ Combine(p))
\* ---- what must hold: whenever a process is between steps, its elements are those of the reference
SameValues == \A p \in P : pc[p] = "compute" /\ work[p] = Mine(p) => LET q == Ref(step[p]) IN \A e \in Mine(p) : val[e] = q[e]
\* neighbours are never more than one step apart
Near == \A e \in El : step[owner[e]] - step[owner[Nx(e)]] \in -1..1
Ends == <>(\A p \in P : step[p] = Steps)
=============================================================================
