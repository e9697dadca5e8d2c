------------------------------- MODULE GridOps -------------------------------
(* What the operations on a decomposed grid do to the values at its nodes.      *)
(* A configuration c: [np, cube, nPatch, resA, resB, ord, halo, bc, nLev, ...]  *)
EXTENDS GridTopo
GridOf(c) == [cube |-> c.cube, na |-> c.resA * c.ord, nb |-> (IF c.cube THEN c.resA ELSE c.resB) * c.ord, ord |-> c.ord,
              per |-> [d \in 1..4 |-> c.cube \/ c.bc[d] = 0]]
NPanels(g) == IF g.cube THEN 6 ELSE 1
NodeId(g, p, A, B) == (p * g.na + A) * g.nb + B

\* ---- layout: patches as boxes <<panel, a0, a1, b0, b1>>
In(x, p, A, B) == x[1] = p /\ A >= x[2] /\ A < x[3] /\ B >= x[4] /\ B < x[5]
Fits(g, x) == x[1] \in Panels(g) /\ 0 <= x[2] /\ x[2] < x[3] /\ x[3] <= g.na /\ 0 <= x[4] /\ x[4] < x[5] /\ x[5] <= g.nb
              /\ x[2] % g.ord = 0 /\ x[3] % g.ord = 0 /\ x[4] % g.ord = 0 /\ x[5] % g.ord = 0
Area(x) == (x[3] - x[2]) * (x[5] - x[4])
Meet(x, y) == x[1] = y[1] /\ x[2] < y[3] /\ y[2] < x[3] /\ x[4] < y[5] /\ y[4] < x[5]
RECURSIVE SumAreas(_, _)
SumAreas(bs, k) == IF k = 0 THEN 0 ELSE Area(bs[k]) + SumAreas(bs, k - 1)
Tiles(g, bs) == /\ \A k \in 1..Len(bs) : Fits(g, bs[k])
                /\ \A k \in 1..Len(bs) : \A m \in 1..(k - 1) : ~Meet(bs[k], bs[m])
                /\ SumAreas(bs, Len(bs)) = NPanels(g) * g.na * g.nb
\* 0-based number of the patch holding the node that lies at (A, B) seen from panel p; -1 for none
Owner(g, bs, p, A, B) ==
  LET c == Counterpart(g, p, A, B) IN
  IF c = <<>> \/ ~\E k \in 1..Len(bs) : In(bs[k], c[1], c[2], c[3]) THEN -1
  ELSE (CHOOSE k \in 1..Len(bs) : In(bs[k], c[1], c[2], c[3])) - 1
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF (k + 1) * (k + 1) <= n THEN ISqrt(n, k + 1) ELSE k
MayRefuse(c) ==
  IF c.cube THEN LET s == ISqrt(c.nPatch \div 6, 0) IN c.resA % (IF s < 1 THEN 1 ELSE s) # 0
            ELSE (c.resA * c.resB) % c.nPatch # 0 \/ c.nPatch > c.resA

\* ---- averaging; v: one row of values by NodeId (1-based)
RECURSIVE SumOf(_, _, _)
SumOf(g, v, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN v[NodeId(g, m[1], m[2], m[3]) + 1] + SumOf(g, v, S \ {m})
Interior(g, A, B) == LET a == A % g.ord b == B % g.ord IN a # 0 /\ a # g.ord - 1 /\ b # 0 /\ b # g.ord - 1
\* ---- sums
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Dot2(_, _, _, _)
Dot2(kind, v, w, k) == IF k = 0 THEN 0 ELSE
  LET x == v[k] y == CASE kind = "sum" -> x * w[k] [] kind = "l1" -> Abs(x) * w[k] [] kind = "l2" -> x * x * w[k] [] OTHER -> Abs(x)
      r == Dot2(kind, v, w, k - 1) IN IF kind = "linf" THEN (IF y > r THEN y ELSE r) ELSE y + r
\* ---- combining copies: x the values of all copies at one place
RECURSIVE Lin2(_, _, _)
Lin2(co, x, k) == IF k = 0 THEN 0 ELSE co[k] * x[k] + Lin2(co, x, k - 1)
=============================================================================
