------------------------------ MODULE Columns ------------------------------
(* The vertical column: elements (or volumes) of differing thickness, levels     *)
(* inside them, interfaces on and between them; the operators that interpolate   *)
(* and differentiate between the two, built row by row from Lagrange polynomials *)
(* in exact rational arithmetic. A row with count n reproduces the monomials of   *)
(* degree 0..n-1. Declared(..) of ColumnOps is the count every row promises; the  *)
(* trace check holds the real operators to the same promise.                     *)
EXTENDS ColumnOps
\* ------------------------------------------------------------------ rationals
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
Whole(n) == <<n, 1>>
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
Mul(x, y) == LET g == Gcd(AbsI(x[1]), y[2]) h == Gcd(AbsI(y[1]), x[2])
                 a == IF g = 0 THEN 1 ELSE g b == IF h = 0 THEN 1 ELSE h IN Q((x[1] \div a) * (y[1] \div b), (x[2] \div b) * (y[2] \div a))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Whole(0) ELSE Add(SumTo(f, n - 1), f[n])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE f[n] + ISum(f, n - 1)
\* value, or derivative, at x of the i-th Lagrange polynomial through the points p
Denom(p, i) == ProdTo([j \in 1..Len(p) |-> IF j = i THEN 1 ELSE p[i] - p[j]], Len(p))
Val(p, i, x) == Q(ProdTo([j \in 1..Len(p) |-> IF j = i THEN 1 ELSE x - p[j]], Len(p)), Denom(p, i))
Der(p, i, x) == Q(ISum([m \in 1..Len(p) |-> IF m = i THEN 0 ELSE ProdTo([j \in 1..Len(p) |-> IF j \in {i, m} THEN 1 ELSE x - p[j]], Len(p))], Len(p)), Denom(p, i))
\* ------------------------------------------------------------------ the column built row by row
CONSTANTS MaxOrder, MaxElements, Thick, Plant
VARIABLES c, w, op, k, row
vars == <<c, w, op, k, row>>
None == <<>>
\* element a (from 0) starts at Start(a); levels sit at odd multiples of its thickness, interfaces at even ones
Start(a) == 2 * ISum([i \in 1..a |-> w[i] * (IF c.disc = "FV" THEN 1 ELSE c.n)], a)
Per == IF c.disc = "FV" THEN 1 ELSE c.n
Level(i) == Start(i \div Per) + (2 * (i % Per) + 1) * w[i \div Per + 1]
Face(i) == IF i = c.lev THEN Start(c.fe) ELSE Start(i \div Per) + 2 * (i % Per) * w[i \div Per + 1]
Levels(a, b) == [i \in 1..(b - a + 1) |-> Level(a + i - 1)]
Faces(a, b) == [i \in 1..(b - a + 1) |-> Face(a + i - 1)]
Zero(m) == [i \in 1..m |-> Whole(0)]
Plus(r, s) == [i \in DOMAIN r |-> Add(r[i], s[i])]
Times(q, r) == [i \in DOMAIN r |-> Mul(q, r[i])]
\* the weights f over the points a..b of a column of m
Spread(m, a, b, f) == [i \in 1..m |-> IF i - 1 >= a /\ i - 1 <= b THEN f[i - a] ELSE Whole(0)]
LagL(a, b, x) == LET p == Levels(a, b) IN Spread(c.lev, a, b, [i \in 1..Len(p) |-> Val(p, i, x)])
DagL(a, b, x) == LET p == Levels(a, b) IN Spread(c.lev, a, b, [i \in 1..Len(p) |-> Der(p, i, x)])
LagF(a, b, x) == LET p == Faces(a, b) IN Spread(c.lev + 1, a, b, [i \in 1..Len(p) |-> Val(p, i, x)])
DagF(a, b, x) == LET p == Faces(a, b) IN Spread(c.lev + 1, a, b, [i \in 1..Len(p) |-> Der(p, i, x)])
\* an interior edge between elements a and a+1: the thinner side counts more
ErrL(a) == Pow(w[a + 1], c.n)
WL(a) == Q(ErrL(a + 1), ErrL(a) + ErrL(a + 1))
WR(a) == IF Plant = "weights" THEN Q(ErrL(a + 1), ErrL(a) + ErrL(a + 1)) ELSE Q(ErrL(a), ErrL(a) + ErrL(a + 1))
Elem(x) == CHOOSE a \in 0..(c.fe - 1) : x >= Start(a) /\ (x < Start(a + 1) \/ a = c.fe - 1)
OnEdge(i) == i % c.n = 0 /\ i > 0 /\ i < c.lev
InterpLF(i) ==      \* levels to face i
  LET n == c.n IN
  IF OnEdge(i) THEN LET a == i \div n - 1 IN Plus(Times(WL(a), LagL(a * n, a * n + n - 1, Face(i))), Times(WR(a), LagL((a + 1) * n, (a + 1) * n + n - 1, Face(i))))
  ELSE IF n = 1 /\ c.fe > 1 THEN IF i = 0 THEN LagL(0, 1, Face(i)) ELSE LagL(c.lev - 2, c.lev - 1, Face(i))
  ELSE LET a == MinI(i \div n, c.fe - 1) IN LagL(a * n, a * n + n - 1, Face(i))
\* a row over the faces composed with the interpolation to the faces
RECURSIVE Compose(_, _)
Compose(r, i) == IF i = 0 THEN Zero(c.lev) ELSE IF r[i] = Whole(0) THEN Compose(r, i - 1) ELSE Plus(Compose(r, i - 1), Times(r[i], InterpLF(i - 1)))
FeRow ==
  LET n == c.n IN
  CASE op = "ine" -> InterpLF(k)
    [] op = "ien" -> LET a == k \div n IN LagF(a * n, IF Plant = "window" THEN a * n + n - 1 ELSE a * n + n, Level(k))
    [] op = "en" -> LET a == k \div n IN DagF(a * n, a * n + n, Level(k))
    [] op = "nn" -> LET a == k \div n IN Compose(DagF(a * n, a * n + n, Level(k)), c.lev + 1)
    [] op = "ee" -> IF OnEdge(k) THEN LET a == k \div n - 1 IN Plus(Times(WL(a), DagF(a * n, a * n + n, Face(k))), Times(WR(a), DagF((a + 1) * n, (a + 1) * n + n, Face(k))))
                    ELSE LET a == MinI(k \div n, c.fe - 1) IN DagF(a * n, a * n + n, Face(k))
    [] op = "ne" -> IF OnEdge(k) THEN LET a == k \div n - 1
                        l == DagL(a * n, a * n + n - 1, Face(k)) r == DagL((a + 1) * n, (a + 1) * n + n - 1, Face(k))
                        jump == Plus(LagL((a + 1) * n, (a + 1) * n + n - 1, Face(k)), Times(Whole(-1), LagL(a * n, a * n + n - 1, Face(k))))
                        h == IF Plant = "jump" THEN Q(1, 2 * w[a + 1] * n) ELSE Q(1, n * (w[a + 1] + w[a + 2])) IN
                      Plus(Times(Q(1, 2), Plus(l, r)), Times(h, jump))
                    ELSE LET a == MinI(k \div n, c.fe - 1) IN DagL(a * n, a * n + n - 1, Face(k))
FvRow ==
  LET h == (c.n - 2) \div 2
      left(i) == LagL(MaxI(i - h - 1, 0), MinI(i + h - 1, c.fe - 1), Face(i))
      right(i) == LagL(MaxI(i - h, 0), MinI(i + h, c.fe - 1), Face(i))
      interp(i) == IF i = 0 THEN right(i) ELSE IF i = c.fe THEN left(i) ELSE Times(Q(1, 2), Plus(left(i), right(i))) IN
  CASE op = "ine" -> interp(k)
    [] op = "ien" -> LagF(k, k + 1, Level(k))
    [] op = "en" -> DagF(k, k + 1, Level(k))
    [] op = "nn" -> Times(Q(1, 2 * w[k + 1]), Plus(interp(k + 1), Times(Whole(-1), interp(k))))
    [] op = "ne" -> DagL(MaxI(k - c.n \div 2, 0), MinI(k + c.n \div 2 - 1, c.fe - 1), Face(k))
    [] op = "ee" -> DagF(MaxI(k - c.n \div 2, 0), MinI(k + c.n \div 2, c.fe), Face(k))
Ops == {"ine", "ien", "nn", "ne", "en", "ee"}
Kind(o) == IF o \in {"ine", "ien"} THEN 0 ELSE 1
FromFaces(o) == o \in {"ien", "en", "ee"}
Place == IF op \in {"ine", "ne", "ee"} THEN Face(k) ELSE Level(k)
Init == \E d \in {"FE", "FV"}, n \in 1..MaxOrder, F \in 1..MaxElements : \E t \in [1..F -> Thick] :
          /\ d = "FV" => n % 2 = 0
          /\ c = [disc |-> d, stag |-> "LOR", n |-> n, fe |-> F, lev |-> IF d = "FV" THEN F ELSE F * n, even |-> \A i, j \in 1..F : t[i] = t[j]]
          /\ w = t /\ op \in Ops /\ k = 0 /\ row = None
Build == row = None /\ row' = (IF c.disc = "FV" THEN FvRow ELSE FeRow) /\ UNCHANGED <<c, w, op, k>>
Onward == row # None /\ k + 1 < Rows(c, op) /\ k' = k + 1 /\ row' = None /\ UNCHANGED <<c, w, op>>
Next == Build \/ Onward
Spec == Init /\ [][Next]_vars
\* the moments about the row's own place
Moment(d) == LET m == IF FromFaces(op) THEN c.lev + 1 ELSE c.lev IN
  SumTo([i \in 1..m |-> IF row[i] = Whole(0) THEN Whole(0) ELSE Mul(row[i], Whole(Pow((IF FromFaces(op) THEN Face(i - 1) ELSE Level(i - 1)) - Place, d)))], m)
Exact == row # None => \A d \in 0..(Declared(c, op, k) - 1) : Moment(d) = IF d = Kind(op) THEN Whole(1) ELSE Whole(0)
\* however low the order: constants come out as constants and have no slope
Constants == row # None => Moment(0) = IF Kind(op) = 0 THEN Whole(1) ELSE Whole(0)
=============================================================================
