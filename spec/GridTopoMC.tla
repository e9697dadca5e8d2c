----------------------------- MODULE GridTopoMC -----------------------------
(* The shape itself: neighbourhood is mutual and one-to-one, and shared points   *)
(* are what exchanging one layer and averaging pairwise along alpha, then along  *)
(* beta, then at the cube corners makes equal.                                   *)
EXTENDS GridTopo, TLC
CONSTANTS Res, Ords, Opens
VARIABLES g, node, val, phase
vars == <<g, node, val, phase>>
Grids == {[cube |-> TRUE, na |-> o * r, nb |-> o * r, ord |-> o, per |-> <<TRUE, TRUE, TRUE, TRUE>>] : o \in Ords, r \in Res}
   \cup {[cube |-> FALSE, na |-> o * r, nb |-> o * s, ord |-> o, per |-> pe] : o \in Ords, r \in Res, s \in Res, pe \in Opens}
Closed == {<<TRUE, TRUE, TRUE, TRUE>>}
SomeOpen == {<<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE, TRUE>>, <<TRUE, FALSE, TRUE, FALSE>>, <<FALSE, FALSE, FALSE, FALSE>>}
Code(n) == 12 * (1 + ((n[1] * 131 + n[2] * 17 + n[3] * 5 + n[2] * n[3]) % 97))
Init == g \in Grids /\ node \in Nodes(g) /\ val = <<>> /\ phase = 0
\* neighbourhood seen from the other side: step over any of the four edges and come back
Outside(x, n) == {o \in {<<x.na, n[3]>>, <<-1, n[3]>>, <<n[2], x.nb>>, <<n[2], -1>>} :
                    \/ (n[2] = x.na - 1 /\ o = <<x.na, n[3]>>) \/ (n[2] = 0 /\ o = <<-1, n[3]>>)
                    \/ (n[3] = x.nb - 1 /\ o = <<n[2], x.nb>>) \/ (n[3] = 0 /\ o = <<n[2], -1>>)}
Mutual == \A o \in Outside(g, node) :
   LET c == Counterpart(g, node[1], o[1], o[2]) IN
   c # <<>> => /\ Inside(g, c[2], c[3])
               /\ \E b \in Outside(g, c) : Counterpart(g, c[1], b[1], b[2]) = node
\* a node over the edge is at the same point as the last node before it
Touch == \A o \in Outside(g, node) :
   LET c == Counterpart(g, node[1], o[1], o[2]) IN c # <<>> => Point(g, c[1], c[2], c[3]) = Point(g, node[1], node[2], node[3])
SamePoint == \A m \in Copies(g, node[1], node[2], node[3]) : Inside(g, m[2], m[3]) /\ Point(g, m[1], m[2], m[3]) = Point(g, node[1], node[2], node[3])
Self == node \in Copies(g, node[1], node[2], node[3])
Count == LET n == Cardinality(Copies(g, node[1], node[2], node[3])) IN n \in {1, 2, 3, 4}
\* the sphere has as many points as Euler says, and copies are all of them
Complete == node = <<0, 0, 0>> =>
  /\ Cardinality({Point(g, m[1], m[2], m[3]) : m \in Nodes(g)}) =
       IF g.cube THEN 6 * RA(g) * RA(g) + 2 ELSE (RA(g) + (IF g.per[1] THEN 0 ELSE 1)) * (RB(g) + (IF g.per[2] THEN 0 ELSE 1))
  /\ \A m \in Nodes(g) : Copies(g, m[1], m[2], m[3]) = {k \in Nodes(g) : Point(g, k[1], k[2], k[3]) = Point(g, m[1], m[2], m[3])}

\* ---- the averaging procedure on one layer of halo
RECURSIVE SumOf(_, _)
SumOf(v, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN v[m] + SumOf(v, S \ {m})
Mean(v, n) == LET S == Copies(g, n[1], n[2], n[3]) IN SumOf(v, S) \div Cardinality(S)
\* value at (A, B) seen from p, own value where there is no node
At(v, p, A, B) == LET c == Counterpart(g, p, A, B) IN v[c]
Has(p, A, B) == Counterpart(g, p, A, B) # <<>>
Corner(A, B) == g.cube /\ A \in {0, g.na - 1} /\ B \in {0, g.na - 1}
Mate(n, x) == IF n % g.ord = 0 THEN n - 1 ELSE IF n % g.ord = g.ord - 1 THEN n + 1 ELSE n
\* along alpha on the panel and one layer around it
PassA(v, p, A, B) == LET m == Mate(A, 0) IN IF Has(p, A, B) /\ Has(p, m, B) THEN (At(v, p, A, B) + At(v, p, m, B)) \div 2 ELSE At(v, p, A, B)
PassB(v, p, A, B) == LET m == Mate(B, 0) IN IF Has(p, A, m) THEN (PassA(v, p, A, B) + PassA(v, p, A, m)) \div 2 ELSE PassA(v, p, A, B)
Three(v, p, A, B) == (At(v, p, A, B) + At(v, p, Mate(A, 0), B) + At(v, p, A, Mate(B, 0))) \div 3
Averaged(v, n) == IF Corner(n[2], n[3]) THEN Three(v, n[1], n[2], n[3]) ELSE PassB(v, n[1], n[2], n[3])
AvgIsMean == LET v == [m \in Nodes(g) |-> Code(m)] IN node = <<0, 0, 0>> => \A m \in Nodes(g) : Averaged(v, m) = Mean(v, m)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
