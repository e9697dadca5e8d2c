-------------------------- MODULE TraceIntegrators --------------------------
(* Recorded steps of the real integrators on symbolic states against Integrators.tla. *)
EXTENDS Integrators, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, name, oc, S, st, map
vars == <<l, name, oc, S, st, map>>
Bad(what) == PrintT(<<"BAD", l, what>>)
None == <<>>
Sat(a, b) == IF AbsI(a) >= 1000000000 \/ AbsI(b) >= 1000000000 THEN 1000000001 ELSE a + b
RECURSIVE Tr(_, _)
Tr(p, mp) == IF p = <<>> THEN [j \in {} |-> 0]
             ELSE LET q == Tr(Tail(p), mp) a == Head(p)[1] + 1 i == IF a <= Len(mp) THEN mp[a] ELSE 0 IN
                  TLCEval([j \in DOMAIN q \cup {i} |-> IF j = i THEN Sat(Get(q, i), Head(p)[2]) ELSE q[j]])
\* tendencies that were evaluated, in order: which of the prescribed ones is it (0: none of them)
\* (a solve's value contains itself: entry 0 - 1 stands for the one being identified)
Named(v, i) == TLCEval([j \in {IF k = -1 THEN i ELSE k : k \in DOMAIN v} |-> Get(v, j) + (IF j = i THEN Get(v, -1) ELSE 0)])
RECURSIVE Match(_, _, _)
Match(tend, mp, B) ==
  IF tend = <<>> THEN mp
  ELSE LET t == Head(tend)
           vs == TLCEval([k \in 1..Len(t.args) |-> Tr(t.args[k], Append(mp, -1))])
           hit == IF \E k \in 1..Len(vs) : 0 \in DOMAIN vs[k] THEN {}
                  ELSE {i \in 1..Len(B) : B[i].kind = t.kind /\ \A k \in 1..Len(vs) : Close(Named(vs[k], i), B[i].arg)}
       IN Match(Tail(tend), Append(mp, IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE), B)
\* small steps taken, where the method leaves their number open
Small(e) == LET n == Cardinality({k \in 1..Len(e.tend) : e.tend[k].kind = "fv"}) IN IF n < 3 THEN 1 ELSE n \div 3
Empty == [j \in {} |-> 0]
Judge(e, r, mp) ==
  IF e.exc THEN <<"refused", name, e.why>>
  ELSE LET wrong == {k \in 1..Len(e.out) : LET v == Tr(e.out[k], mp) IN 0 \in DOMAIN v \/ ~Close(v, r.u)} IN
       IF wrong = {} THEN None
       ELSE LET v == Tr(e.out[CHOOSE k \in wrong : TRUE], mp)
                d == {i \in DOMAIN v \cup DOMAIN r.u : AbsI(Get(v, i) - Get(r.u, i)) > Tol} IN
            <<name, IF Len(e.out) > 1 THEN "state and tracers differ" ELSE "result", "weights off",
              {<<IF i = 0 THEN "not prescribed" ELSE r.S[i].kind, i, Get(v, i), Get(r.u, i)>> : i \in d}>>
Init == l = 1 /\ name = "" /\ oc = 0 /\ S = Basis0 /\ st = [u |-> Start, carry |-> NoCarry] /\ map = <<1, 0, 0>>
Next ==
  /\ l <= Len(Log) /\ l' = l + 1
  /\ LET e == Log[l] IN
     CASE e.ev = "scheme" -> name' = e.name /\ oc' = e.oc /\ S' = Basis0 /\ st' = [u |-> Start, carry |-> NoCarry] /\ map' = <<1, 0, 0>>
       [] e.ev = "force" -> LET f == Force(S, st.u) IN S' = f.S /\ st' = [st EXCEPT !.u = f.u] /\ map' = Append(map, Len(f.S)) /\ UNCHANGED <<name, oc>>
       [] e.ev = "step" ->
            LET full == Step(name, S, st, e.first, e.last, e.m * U, oc, Small(e))
                fmp == Match(e.tend, map, full.S)
                fv == Judge(e, full, fmp)
                \* the explicit integrators leave the vertical dynamics out (a listed finding): go on from what they do
                part == fv # None /\ name \in Erks
                half == StepWith(name, <<"fh">>, S, st, e.first, e.last, e.m * U, oc, 1)
                hmp == Match(e.tend, map, half.S)
                out == part /\ Judge(e, half, hmp) = None
                r == IF out THEN half ELSE full
                mp == IF out THEN hmp ELSE fmp
            IN S' = r.S /\ st' = [u |-> r.u, carry |-> r.carry] /\ map' = mp /\ UNCHANGED <<name, oc>>
               /\ IF fv = None THEN TRUE ELSE IF out THEN Bad(<<"vertical dynamics left out", name>>) ELSE Bad(fv)
       [] e.ev = "failed" -> UNCHANGED <<name, oc, S, st, map>> /\ Bad(<<"not available", name, e.why>>)
       [] e.ev = "died" -> UNCHANGED <<name, oc, S, st, map>> /\ Bad(<<"died", name, e.why>>)
       [] OTHER -> UNCHANGED <<name, oc, S, st, map>>
Spec == Init /\ [][Next]_vars
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
