---------------------------- MODULE Integrators ----------------------------
(* What one step of each time integrator computes. A state is a combination of *)
(* the starting state and of tendencies; a tendency is an unknown function of   *)
(* the state it is evaluated on, so it is a symbol known by its kind and that    *)
(* state. Kinds: "fh"/"fv" explicit part of the horizontal/vertical dynamics,     *)
(* "gv"/"gh" implicit part, "d" what is done after the step (diffusion), "x"       *)
(* changes made from outside between steps. Fractions in units of 1/U.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 10000000
Tol == 40
Hi(a) == a \div 10000
Lo(a) == a % 10000
\* a * b / U
Mul(a, b) == IF b = U THEN a ELSE (Hi(a) * Hi(b) * 10) + ((Hi(a) * Lo(b) + Lo(a) * Hi(b)) \div 1000) + ((Lo(a) * Lo(b)) \div U)
Frac(p, q) == LET a == (U * p) \div q IN IF 2 * ((U * p) % q) >= q THEN a + 1 ELSE a
AbsI(x) == IF x < 0 THEN -x ELSE x
(* combinations: symbol -> coefficient *)
Get(v, i) == IF i \in DOMAIN v THEN v[i] ELSE 0
Plus(v, w) == TLCEval([i \in DOMAIN v \cup DOMAIN w |-> Get(v, i) + Get(w, i)])
Scale(c, v) == TLCEval([i \in DOMAIN v |-> Mul(c, v[i])])
Axpy(v, i, x) == IF x = 0 THEN v ELSE TLCEval([j \in DOMAIN v \cup {i} |-> IF j = i THEN Get(v, i) + x ELSE v[j]])
Close(v, w) == \A i \in DOMAIN v \cup DOMAIN w : AbsI(Get(v, i) - Get(w, i)) <= Tol
Start == [j \in {1} |-> U]
Basis0 == <<[kind |-> "u", arg |-> [j \in {} |-> 0]]>>
(* the value of kind k at arg *)
Eval(S, k, arg) ==
  LET hit == {i \in 1..Len(S) : S[i].kind = k /\ Close(S[i].arg, arg)} IN
  IF hit # {} THEN [S |-> S, i |-> CHOOSE i \in hit : TRUE]
  ELSE [S |-> Append(S, [kind |-> k, arg |-> arg]), i |-> Len(S) + 1]
(* v = rhs + x * k(v) *)
Solve(S, k, rhs, x) ==
  LET hit == {i \in 1..Len(S) : S[i].kind = k /\ Close(S[i].arg, Axpy(rhs, i, x))} IN
  IF hit # {} THEN LET i == CHOOSE i \in hit : TRUE IN [S |-> S, i |-> i, v |-> Axpy(rhs, i, x)]
  ELSE LET i == Len(S) + 1 v == Axpy(rhs, i, x) IN [S |-> Append(S, [kind |-> k, arg |-> v]), i |-> i, v |-> v]
RECURSIVE SolveAll(_, _, _, _), EvalAll(_, _, _)
SolveAll(S, ks, rhs, x) ==
  IF ks = <<>> THEN [S |-> S, is |-> <<>>, v |-> rhs]
  ELSE LET r == Solve(S, Head(ks), rhs, x) q == SolveAll(r.S, Tail(ks), r.v, x) IN [S |-> q.S, is |-> <<r.i>> \o q.is, v |-> q.v]
EvalAll(S, ks, arg) ==
  IF ks = <<>> THEN [S |-> S, is |-> <<>>]
  ELSE LET r == Eval(S, Head(ks), arg) q == EvalAll(r.S, Tail(ks), arg) IN [S |-> q.S, is |-> <<r.i>> \o q.is]
RECURSIVE AddEach(_, _, _), RowSum(_, _, _, _)
AddEach(v, is, x) == IF is = <<>> THEN v ELSE AddEach(Axpy(v, Head(is), x), Tail(is), x)
RowSum(v, co, idx, h) == IF co = <<>> THEN v ELSE RowSum(IF Head(co) = 0 THEN v ELSE AddEach(v, Head(idx), Mul(Head(co), h)), Tail(co), Tail(idx), h)
(* A tableau pair: row k of E and I belongs to stage k; the last entry of a row of I is the implicit one *)
C(row, j) == IF j <= Len(row) THEN row[j] ELSE 0
NeedF(T, k) == C(T.bE, k) # 0 \/ \E m \in (k + 1)..Len(T.E) : C(T.E[m], k) # 0
NeedG(T, k) == C(T.bI, k) # 0 \/ \E m \in (k + 1)..Len(T.I) : C(T.I[m], k) # 0
RECURSIVE Stages(_, _, _, _, _, _, _, _, _)
Stages(T, S, u, h, ex, im, k, fs, gs) ==
  IF k > Len(T.E) THEN LET w == RowSum(RowSum(u, T.bE, fs, h), T.bI, gs, h) IN [S |-> S, v |-> w]
  ELSE LET cut(row) == [j \in 1..(k - 1) |-> C(row, j)]
           rhs == RowSum(RowSum(u, cut(T.E[k]), fs, h), cut(T.I[k]), gs, h)
           a == C(T.I[k], k)
           st == IF a # 0 THEN SolveAll(S, im, rhs, Mul(a, h)) ELSE [S |-> S, is |-> <<>>, v |-> rhs]
           eg == IF a = 0 /\ NeedG(T, k) THEN EvalAll(st.S, im, st.v) ELSE [S |-> st.S, is |-> st.is]
           ef == IF NeedF(T, k) THEN EvalAll(eg.S, ex, st.v) ELSE [S |-> eg.S, is |-> <<>>]
       IN Stages(T, ef.S, u, h, ex, im, k + 1, Append(fs, ef.is), Append(gs, eg.is))
RungeKutta(T, S, u, h, ex, im) == Stages(T, S, u, h, ex, im, 1, <<>>, <<>>)
(* ---- the published tableaux *)
Erk(E, b) == [E |-> E, I |-> [k \in 1..Len(E) |-> <<>>], bE |-> b, bI |-> <<>>]
FE == Erk(<<<<>>>>, <<U>>)
RK4 == Erk(<<<<>>, <<U \div 2>>, <<0, U \div 2>>, <<0, 0, U>>>>, <<Frac(1, 6), Frac(1, 3), Frac(1, 3), Frac(1, 6)>>)
\* Shu and Osher 1988
SSP3 == Erk(<<<<>>, <<U>>, <<U \div 4, U \div 4>>>>, <<Frac(1, 6), Frac(1, 6), Frac(2, 3)>>)
\* Kinnmark and Gray 1984, variant of Ullrich
KGU35 == Erk(<<<<>>, <<U \div 5>>, <<0, U \div 5>>, <<0, 0, Frac(1, 3)>>, <<0, 0, 0, Frac(2, 3)>>>>, <<U \div 4, 0, 0, 0, 3 * (U \div 4)>>)
\* Spiteri and Ruuth 2002, from its convex form
SSPRK53 == Erk(<<<<>>, <<3772689>>, <<3772689, 3772689>>, <<2429952, 2429952, 2429952>>, <<1535891, 1535891, 1535891, 2384589>>>>,
               <<2067340, 2067340, 1170973, 1818026, 2876321>>)
G2 == 2928932                       \* 1 - 1/sqrt(2)
\* Ascher, Ruuth and Spiteri 1997
ARS222 == [E |-> <<<<>>, <<G2>>, <<-7071068, 17071068>>>>, I |-> <<<<>>, <<0, G2>>, <<0, U - G2, G2>>>>, bE |-> <<-7071068, 17071068, 0>>, bI |-> <<0, U - G2, G2>>]
ARS232 == [E |-> <<<<>>, <<G2>>, <<-9428090, 19428090>>>>, I |-> <<<<>>, <<0, G2>>, <<0, U - G2, G2>>>>, bE |-> <<0, U - G2, G2>>, bI |-> <<0, U - G2, G2>>]
G3 == 4358665
B1 == 12084966
B2 == -6443632
ARS343 == [E |-> <<<<>>, <<G3>>, <<3212789, 3966544>>, <<-1058583, 5529291, 5529291>>>>,
           I |-> <<<<>>, <<0, G3>>, <<0, 2820667, G3>>, <<0, B1, B2, G3>>>>, bE |-> <<0, B1, B2, G3>>, bI |-> <<0, B1, B2, G3>>]
ARS443 == [E |-> <<<<>>, <<U \div 2>>, <<Frac(11, 18), Frac(1, 18)>>, <<Frac(5, 6), Frac(-5, 6), U \div 2>>, <<U \div 4, 7 * (U \div 4), 3 * (U \div 4), -7 * (U \div 4)>>>>,
           I |-> <<<<>>, <<0, U \div 2>>, <<0, Frac(1, 6), U \div 2>>, <<0, -5000000, 5000000, 5000000>>, <<0, 15000000, -15000000, 5000000, 5000000>>>>,
           bE |-> <<U \div 4, 7 * (U \div 4), 3 * (U \div 4), -7 * (U \div 4), 0>>, bI |-> <<0, 15000000, -15000000, 5000000, 5000000>>]
\* Giraldo, Kelly and Constantinescu 2013
ARK232 == [E |-> <<<<>>, <<2 * G2>>, <<285955, 9714045>>>>, I |-> <<<<0>>, <<G2, G2>>, <<3535534, 3535534, G2>>>>, bE |-> <<3535534, 3535534, G2>>, bI |-> <<3535534, 3535534, G2>>]
\* Pareschi and Russo 2005
SSP3332 == [E |-> <<<<>>, <<U>>, <<U \div 4, U \div 4>>>>, I |-> <<<<G2>>, <<U - 2 * G2, G2>>, <<5000000 - G2, 0, G2>>>>,
            bE |-> <<Frac(1, 6), Frac(1, 6), Frac(2, 3)>>, bI |-> <<Frac(1, 6), Frac(1, 6), Frac(2, 3)>>]
\* Sandu and Guenther 2013, example 7: stages Y1 = u, Z1, Y2, Z2
GARK2 == [E |-> <<<<>>, <<G2>>, <<U, 0>>, <<U \div 2, 0, U \div 2>>>>, I |-> <<<<>>, <<0, G2>>, <<0, U, 0>>, <<0, U - G2, 0, G2>>>>,
          bE |-> <<U \div 2, 0, U \div 2, 0>>, bI |-> <<0, U - G2, 0, G2>>]
Core(name) == CASE name \in {"erk", "strang", "erk/kgu35", "strang/kgu35"} -> KGU35 [] name \in {"erk/fe", "strang/fe"} -> FE [] name \in {"erk/rk4", "strang/rk4"} -> RK4
                [] name \in {"erk/rk3", "strang/rk3"} -> SSP3 [] name \in {"erk/ssprk53", "strang/ssprk53"} -> SSPRK53
                [] name = "ars222" -> ARS222 [] name = "ars232" -> ARS232 [] name \in {"ars343", "ars343b"} -> ARS343 [] name = "ars443" -> ARS443
                [] name = "ark232" -> ARK232 [] name = "ssp3_332" -> SSP3332 [] name = "gark2" -> GARK2 [] OTHER -> FE
Erks == {"erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53"}
Strangs == {"strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53"}
Imexs == {"ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332"}
Names == Erks \cup Strangs \cup Imexs \cup {"spex"}
(* which operators take part *)
Ex(name) == IF name = "ars343b" THEN <<"fh">> ELSE <<"fh", "fv">>
Im(name) == IF name = "ars343b" THEN <<"gh">> ELSE IF name \in Strangs \cup {"ars343"} THEN <<"gv", "gh">> ELSE <<"gv">>
After(S, w, h) == LET e == Eval(S, "d", w) IN [S |-> e.S, v |-> Axpy(w, e.i, h)]
NoCarry == <<"none">>
RECURSIVE Substeps(_, _, _, _)
Substeps(S, u, h, n) == IF n = 0 THEN [S |-> S, v |-> u] ELSE LET r == RungeKutta(SSP3, S, u, h, <<"fv">>, <<>>) IN Substeps(r.S, r.v, h, n - 1)
(* One step of length h. st = [u, carry]; the splitting's opening half step is carried over from the step before. *)
(* oc: off-centring in percent; ns: number of small steps where the method takes them.                            *)
StepWith(name, ex, S, st, first, last, h, oc, ns) ==
  IF name \in Strangs THEN
    LET open == IF first THEN SolveAll(S, Im(name), st.u, h \div 2) ELSE [S |-> S, is |-> <<>>, v |-> Plus(st.u, st.carry)]
        mid == RungeKutta(Core(name), open.S, open.v, h, ex, <<>>)
        d == After(mid.S, mid.v, h)
        cl == SolveAll(d.S, Im(name), d.v, Mul(h, U \div 2 + oc * (U \div 200)))
        u2 == Plus(Scale(U - oc * (U \div 200), cl.v), Scale(oc * (U \div 200), d.v))
    IN [S |-> cl.S, u |-> u2, carry |-> IF last THEN NoCarry ELSE Plus(u2, Scale(-U, d.v))]
  ELSE IF name = "spex" THEN
    LET a == RungeKutta(KGU35, S, st.u, h, <<"fh">>, <<>>)
        b == Substeps(a.S, a.v, h \div ns, ns)
        d == After(b.S, b.v, h)
    IN [S |-> d.S, u |-> d.v, carry |-> NoCarry]
  ELSE
    LET r == RungeKutta(Core(name), S, st.u, h, ex, Im(name))
        d == After(r.S, r.v, h)
    IN [S |-> d.S, u |-> d.v, carry |-> NoCarry]
Step(name, S, st, first, last, h, oc, ns) == StepWith(name, Ex(name), S, st, first, last, h, oc, ns)
Force(S, u) == [S |-> Append(S, [kind |-> "x", arg |-> [j \in {} |-> 0]]), u |-> Axpy(u, Len(S) + 1, U)]
=============================================================================
