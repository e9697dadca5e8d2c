------------------------------ MODULE ColumnOps ------------------------------
(* What a column promises: how many monomials every row of every operator        *)
(* reproduces, where levels and interfaces lie, how areas add up; stretching and  *)
(* the spacing of grids. Positions are in hundred-millionths of the column.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
\* ------------------------------------------------------------------ promises
\* c: [disc, stag, n (order), fe (elements or volumes), even (all the same thickness)]; row k from 0; MAX counts
Rows(c, op) == IF op \in {"ine", "ne", "nez", "ee", "dee"} THEN c.lev + 1 ELSE c.lev
FvLeft(c, k)  == IF k = 0 THEN c.fe ELSE MinI(k + (c.n - 2) \div 2 - 1, c.fe - 1) - MaxI(k - (c.n - 2) \div 2 - 1, 0) + 1
FvRight(c, k) == IF k = c.fe THEN c.fe ELSE MinI(k + (c.n - 2) \div 2, c.fe - 1) - MaxI(k - (c.n - 2) \div 2, 0) + 1
\* neither side's points are cut off by an end of the column
FvWhole(c, k) == k - (c.n - 2) \div 2 - 1 >= 0 /\ k + (c.n - 2) \div 2 <= c.fe - 1
FvInterp(c, k) == IF c.even /\ FvWhole(c, k) THEN c.n ELSE MinI(FvLeft(c, k), FvRight(c, k))
FvDeclared(c, op, k) ==
  CASE op = "ine" -> FvInterp(c, k)
    [] op = "ien" -> 2
    [] op = "en" -> 2
    [] op = "nn" -> MinI(2, IF c.even /\ FvWhole(c, k) /\ FvWhole(c, k + 1) THEN c.n ELSE MinI(FvInterp(c, k), FvInterp(c, k + 1)))
    [] op = "ne" -> MinI(k + c.n \div 2 - 1, c.fe - 1) - MaxI(k - c.n \div 2, 0) + 1
    [] op = "ee" -> MinI(k + c.n \div 2, c.fe) - MaxI(k - c.n \div 2, 0) + 1
    [] op = "pen" -> IF c.fe = 1 THEN 1 ELSE MinI(IF k = 0 THEN c.fe ELSE MinI(FvLeft(c, k), FvRight(c, k)), IF k = c.fe - 1 THEN c.fe ELSE MinI(FvLeft(c, k + 1), FvRight(c, k + 1)))
    [] op = "dnn" -> 1
    [] op = "dee" -> 1
    [] op \in {"nnz", "nez"} -> 0
AtElementEdge(c, k) == IF c.stag = "INT" THEN k % (c.n - 1) = 0 ELSE k % c.n = 0
Bottom(c, k) == k < c.n
Top(c, k) == k >= c.lev - c.n
FeDeclared(c, op, k) ==
  LET n == c.n  F == c.fe IN
  CASE op = "ine" -> IF n = 1 /\ F > 1 THEN 2 ELSE n
    [] op = "ien" -> n + 1
    [] op = "en" -> n + 1
    [] op = "ee" -> n + 1
    [] op = "nn" -> IF n = 1 /\ F > 1 THEN 2 ELSE n
    [] op = "ne" -> IF n = 1 /\ k > 0 /\ k < c.lev THEN 2 ELSE n
    [] op = "nnz" -> MaxI(0, n - 2)
    [] op = "nez" -> MaxI(0, n - 2)
    [] op = "pen" -> n
    [] op = "dnn" -> IF n = 1 \/ Bottom(c, k) \/ Top(c, k) THEN 1 ELSE n
    [] op = "dee" -> IF AtElementEdge(c, k) THEN 1 ELSE n + 1
IntDeclared(c, op, k) == CASE op = "nn" -> c.n [] op = "dnn" -> IF AtElementEdge(c, k) THEN 1 ELSE c.n
Declared(c, op, k) == IF c.disc = "FV" THEN FvDeclared(c, op, k) ELSE IF c.stag = "INT" THEN IntDeclared(c, op, k) ELSE FeDeclared(c, op, k)

Nothing == <<>>
Unit == 100000000
Cap == 8
Close(a, b, t) == AbsI(a - b) <= t
RECURSIVE Digits(_, _, _)
\* floor(Unit * r / d), digit by digit, 0 <= r <= d
Digits(r, d, m) == IF m = 0 THEN 0 ELSE LET t == 10 * r IN (t \div d) * (CASE m = 8 -> 10000000 [] m = 7 -> 1000000 [] m = 6 -> 100000 [] m = 5 -> 10000 [] m = 4 -> 1000 [] m = 3 -> 100 [] m = 2 -> 10 [] m = 1 -> 1) + Digits(t % d, d, m - 1)
Frac(r, d) == IF r = d THEN Unit ELSE Digits(r, d, 8)
\* where the stretching puts a/F
Stretched(how, a, F) ==
  CASE how = "uniform" -> Frac(a, F)
    [] how = "cubic" -> Frac(a * F * F + 8 * a * a * F + a * a * a, 10 * F * F * F)
    [] how = "pwlinear" -> IF 3 * a < 2 * F THEN Frac(a, 2 * F) ELSE Frac(2 * a - F, F)
RECURSIVE Sum(_, _)
Sum(s, m) == IF m = 0 THEN 0 ELSE s[m] + Sum(s, m - 1)
Rising(s) == \A m \in 1..(Len(s) - 1) : s[m] < s[m + 1]
OpNames(c) == IF c.stag = "INT" THEN {"nn", "dnn"} ELSE {"nn", "dnn", "ine", "ien", "nnz", "ne", "nez", "en", "ee", "dee", "pen"}
MayRefuse(c) == c.disc = "FV" /\ c.n % 2 = 1
ColumnV(e) ==
  LET c == [disc |-> e.disc, stag |-> e.stag, n |-> e.vord, fe |-> e.fe, lev |-> e.lev, even |-> e.stretch = "uniform"]
      ints == e.stag = "INT"
      per == IF e.disc = "FV" THEN 1 ELSE IF ints THEN e.vord - 1 ELSE e.vord
      at == IF ints THEN e.at ELSE e.edge
      short == {z \in UNION {{<<o, r>> : r \in 0..(Rows(c, o) - 1)} : o \in OpNames(c)} : e.ops[z[1]][z[2] + 1] < MinI(Cap, Declared(c, z[1], z[2]))} IN
  IF e.ok = 0 THEN (IF MayRefuse(c) THEN Nothing ELSE <<"refused", e.why>>)
  ELSE IF Len(at) # e.lev + (IF ints THEN 0 ELSE 1) \/ ~Rising(e.at) \/ ~Rising(at) \/ ~Close(at[1], 0, 1) \/ ~Close(at[Len(at)], Unit, 2) THEN <<"column", e.at, e.edge>>
  ELSE IF \E a \in 0..e.fe : ~Close(at[a * per + 1], Stretched(e.stretch, a, e.fe), 3) THEN <<"element edges", at>>
  ELSE IF ~ints /\ \E m \in 1..e.lev : ~(e.edge[m] < e.at[m] /\ e.at[m] < e.edge[m + 1]) THEN <<"levels between interfaces", e.at, e.edge>>
  ELSE IF (\E m \in 1..Len(e.la) : e.la[m] <= 0) \/ ~Close(Sum(e.la, Len(e.la)), Unit, Len(e.la)) THEN <<"areas of levels", e.la>>
  ELSE IF ~ints /\ ((\E m \in 1..Len(e.ia) : e.ia[m] <= 0) \/ ~Close(Sum(e.ia, Len(e.ia)), Unit, Len(e.ia))) THEN <<"areas of interfaces", e.ia>>
  ELSE IF \E m \in 1..Len(e.ql) : e.ql[m] < MinI(Cap, IF e.disc = "FV" THEN 2 ELSE IF ints THEN 2 * e.vord - 2 ELSE 2 * e.vord) THEN <<"integrals over levels", e.ql>>
  ELSE IF \E m \in 1..Len(e.qi) : e.qi[m] < MinI(Cap, IF e.disc = "FV" THEN 2 ELSE 2 * e.vord) THEN <<"integrals over interfaces", e.qi>>
  ELSE IF short # {} THEN LET z == CHOOSE z \in short : TRUE IN <<"operator", z[1], "row", z[2], "exact", e.ops[z[1]][z[2] + 1], "declared", Declared(c, z[1], z[2])>>
  ELSE IF ~e.same THEN <<"ways of applying an operator differ">>
  ELSE Nothing
\* the mean slope between two samples lies between the slopes at them
StretchV(e) ==
  LET bad == {m \in 1..e.n : ~(e.v[m] < e.v[m + 1] /\ (e.v[m + 1] - e.v[m]) >= (MinI(e.d[m], e.d[m + 1]) \div e.n) - 3 /\ (e.v[m + 1] - e.v[m]) <= (MaxI(e.d[m], e.d[m + 1]) \div e.n) + 3)} IN
  IF ~Close(e.v[1], 0, 1) \/ ~Close(e.v[e.n + 1], Unit, 1) THEN <<"ends", e.v[1], e.v[e.n + 1]>>
  ELSE IF bad # {} THEN <<"rise", CHOOSE m \in bad : \A x \in bad : m <= x>>
  ELSE IF \E m \in 1..(e.n + 1) : e.n <= 40 /\ ~Close(e.v[m], Stretched(e.kind, m - 1, e.n), 3) THEN <<"values", e.kind>> ELSE Nothing
\* spacing of a grid: positions in millionths, delta and zero in thousandths
Floor(a, b) == IF a >= 0 THEN a \div b ELSE -((b - 1 - a) \div b)
SpacingV(e) ==
  LET P == CASE e.kind = "uniform" -> 1 [] e.kind = "lobatto" -> e.ord - 1 [] OTHER -> e.ord
      D == 1000 * e.delta  N == Len(e.node)
      T == 3
      Start(m) == 1000 * e.zero + D * m
      El(m) == Floor(e.from + m - 1, P)
      bad == {m \in 1..(N - P) : ~Close(e.node[m + P], e.node[m] + D, T) \/ ~Close(e.edge[m + P], e.edge[m] + D, T)}
      out == {m \in 1..N : e.node[m] < Start(El(m)) - T \/ e.node[m] > Start(El(m) + 1) + T \/ ((e.from + m - 1 - P * El(m)) = 0 /\ ~Close(e.edge[m], Start(El(m)), T))}
      order == {m \in 1..(N - 1) : e.edge[m] > e.edge[m + 1] + (IF e.kind = "repeated" THEN T ELSE 0) \/ (e.kind # "repeated" /\ ~(e.edge[m] < e.edge[m + 1] /\ e.node[m] < e.node[m + 1]))}
      inner == {m \in 1..(N - 1) : e.kind \in {"uniform", "mixed"} /\ ~(e.edge[m] < e.node[m] /\ e.node[m] < e.edge[m + 1])}
      area == {m \in 1..(N - P + 1) : ~Close(Sum([i \in 1..P |-> e.na[m + i - 1]], P), D, P + 2) \/ ~Close(Sum([i \in 1..P |-> e.ea[m + i - 1]], P), D, P + 2)}
      pos == {m \in 1..N : e.na[m] <= 0 \/ e.ea[m] <= 0}
      \* an element looks the same from both ends
      mirror == {m \in 1..(N - P) : e.kind # "repeated" /\ (e.from + m - 1 - P * El(m)) = 0 /\ \E i \in 0..P : ~Close(e.edge[m + i] + e.edge[m + P - i], 2 * Start(El(m)) + D, 2 * T)} IN
  IF bad # {} THEN <<"period", bad>> ELSE IF out # {} THEN <<"element", out>> ELSE IF order # {} THEN <<"order", order>> ELSE IF inner # {} THEN <<"nodes between edges", inner>>
  ELSE IF pos # {} THEN <<"positive areas", pos>> ELSE IF area # {} THEN <<"areas add up", area>> ELSE IF mirror # {} THEN <<"symmetry", mirror>> ELSE Nothing
=============================================================================
