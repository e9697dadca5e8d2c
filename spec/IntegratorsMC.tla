--------------------------- MODULE IntegratorsMC ---------------------------
(* The tableaux satisfy their order conditions (explicit, implicit and mixed), *)
(* and any sequence of steps advances every part of the dynamics by the time    *)
(* that has passed.                                                            *)
EXTENDS Integrators
CONSTANTS MaxSteps, MaxM, Ocs, Fault
VARIABLES name, oc, S, st, n, time, gtime, lastM, open
vars == <<name, oc, S, st, n, time, gtime, lastM, open>>
Init == /\ name \in Names /\ oc \in (IF name \in Strangs THEN Ocs ELSE {0})
        /\ S = Basis0 /\ st = [u |-> Start, carry |-> NoCarry] /\ n = 0 /\ time = 0 /\ gtime = 0 /\ lastM = 0 /\ open = FALSE
StepM(m, last) ==
  LET first == ~open
      st0 == IF Fault = "carry" /\ ~first /\ name \in Strangs THEN [st EXCEPT !.carry = [j \in {} |-> 0]] ELSE st
      r == Step(name, S, st0, first, last, m * U, oc, 2)
      u2 == IF Fault = "weight" THEN LET i == CHOOSE i \in DOMAIN r.u : i # 1 /\ r.u[i] # 0 IN Axpy(r.u, i, 1000) ELSE r.u IN
  /\ S' = r.S /\ st' = [u |-> u2, carry |-> r.carry] /\ n' = n + 1 /\ time' = time + m
  \* twice the time for which the implicit part acted
  /\ gtime' = gtime + (IF name \in Strangs THEN (IF first THEN m ELSE lastM) + m ELSE 2 * m)
  /\ lastM' = m /\ open' = ~last /\ UNCHANGED <<name, oc>>
Next == n < MaxSteps /\ \E m \in 1..MaxM, last \in BOOLEAN : StepM(m, last)
Spec == Init /\ [][Next]_vars
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : TRUE IN f[i] + SumOver(f, D \ {i})
Kind(k) == {i \in 2..Len(S) : S[i].kind = k}
Weight(k) == SumOver([i \in 1..Len(S) |-> Get(st.u, i)], Kind(k))
Near(x, y) == AbsI(x - y) <= 300
Used(k) == k \in {Ex(name)[i] : i \in 1..Len(Ex(name))} \cup {"d"} \cup (IF name \in Strangs \cup Imexs THEN {Im(name)[i] : i \in 1..Len(Im(name))} ELSE {})
Consistent == /\ Get(st.u, 1) = U
              /\ \A k \in {"fh", "fv", "d"} : Used(k) => Near(Weight(k), time * U)
              /\ \A k \in {"gv", "gh"} : Used(k) => Near(2 * Weight(k), gtime * U)
Settled == (n > 0 /\ ~open) => st.carry = NoCarry
(* order conditions of the first step, of length one *)
Cc(i, k) == SumOver([j \in 1..Len(S) |-> Get(S[i].arg, j)], Kind(k))
Order(name_) == CASE name_ = "erk/rk4" -> 4 [] name_ \in {"erk", "erk/kgu35", "erk/rk3", "erk/ssprk53", "ars343", "ars343b", "ars443"} -> 3
                  [] name_ \in {"ars222", "ars232", "ark232", "gark2", "ssp3_332"} -> 2 [] OTHER -> 1
\* (two implicit operators solved one after the other form a split implicit part: judged on the first)
Parts == {k \in {"fh", "fv", "gv", "gh"} : Used(k) /\ (k = "gh" => name = "ars343b")}
Sum1(k, f(_)) == SumOver([i \in 1..Len(S) |-> IF i \in Kind(k) THEN Mul(Get(st.u, i), f(i)) ELSE 0], Kind(k))
AC(i, k, f(_)) == SumOver([j \in 1..Len(S) |-> IF j \in Kind(k) THEN Mul(Get(S[i].arg, j), f(j)) ELSE 0], Kind(k))
Orders ==
  (n = 1 /\ time = 1 /\ name \notin Strangs \cup {"spex"}) =>
    LET o == Order(name) IN
    /\ o >= 2 => \A a, b \in Parts : Near(Sum1(a, LAMBDA i : Cc(i, b)), Frac(1, 2))
    /\ o >= 3 => \A a, b, c \in Parts : /\ Near(Sum1(a, LAMBDA i : Mul(Cc(i, b), Cc(i, c))), Frac(1, 3))
                                        /\ Near(Sum1(a, LAMBDA i : AC(i, b, LAMBDA j : Cc(j, c))), Frac(1, 6))
    /\ o >= 4 => LET a == "fh" cc(i) == Cc(i, a) IN
         /\ Near(Sum1(a, LAMBDA i : Mul(cc(i), Mul(cc(i), cc(i)))), Frac(1, 4))
         /\ Near(Sum1(a, LAMBDA i : Mul(cc(i), AC(i, a, cc))), Frac(1, 8))
         /\ Near(Sum1(a, LAMBDA i : AC(i, a, LAMBDA j : Mul(cc(j), cc(j)))), Frac(1, 12))
         /\ Near(Sum1(a, LAMBDA i : AC(i, a, LAMBDA j : AC(j, a, cc))), Frac(1, 24))
=============================================================================
