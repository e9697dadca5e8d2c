------------------------------ MODULE GridTopo ------------------------------
(* The shape of the grids: panels, their nodes, what lies beyond their edges,   *)
(* which nodes share a point. Written from the geometry (a cube in space, a      *)
(* plane that may close on itself), not from the tables of the implementation.   *)
(* g: [cube, na, nb, ord, per = <<right, top, left, bottom>> closed on itself]   *)
EXTENDS Integers, Sequences, FiniteSets
Panels(g) == IF g.cube THEN 0..5 ELSE {0}
\* axes of panel p in space: direction of alpha, of beta, outward normal
Axes == <<
  << <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>,
  << <<-1, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>> >>,
  << <<0, -1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>> >>,
  << <<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>> >>,
  << <<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>> >>,
  << <<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>> >> >>
EA(p) == Axes[p + 1][1]
EB(p) == Axes[p + 1][2]
EN(p) == Axes[p + 1][3]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Lin(x, u, y, v, z, w) == [i \in 1..3 |-> x * u[i] + y * v[i] + z * w[i]]
Inside(g, A, B) == A >= 0 /\ A < g.na /\ B >= 0 /\ B < g.nb

\* ---- nodes as cells: node (A, B) of panel p covers one cell of the face; a node d cells beyond an edge is
\*      the cell d below that edge on the face that meets it there
CellCube(N, p, A, B) ==
  LET a == 2 * A + 1 - N  b == 2 * B + 1 - N IN
  IF A >= 0 /\ A < N /\ B >= 0 /\ B < N THEN Lin(a, EA(p), b, EB(p), N, EN(p))
  ELSE IF B >= 0 /\ B < N THEN IF A >= N THEN Lin(N, EA(p), b, EB(p), N - 2 * (A - N) - 1, EN(p))
                                         ELSE Lin(-N, EA(p), b, EB(p), N - 2 * (-1 - A) - 1, EN(p))
  ELSE IF B >= N THEN Lin(a, EA(p), N, EB(p), N - 2 * (B - N) - 1, EN(p))
                 ELSE Lin(a, EA(p), -N, EB(p), N - 2 * (-1 - B) - 1, EN(p))
\* the node that lies at (A, B) seen from panel p: <<panel, A, B>>, or <<>> where there is none
Counterpart(g, p, A, B) ==
  IF Inside(g, A, B) THEN <<p, A, B>>
  ELSE IF g.cube THEN
    IF (A < 0 \/ A >= g.na) /\ (B < 0 \/ B >= g.nb) THEN <<>>
    ELSE IF A < -g.na \/ A >= 2 * g.na \/ B < -g.na \/ B >= 2 * g.na THEN <<>>
    ELSE LET N == g.na  pt == CellCube(N, p, A, B)
             q == CHOOSE f \in 0..5 : Dot(EN(f), pt) = N
         IN <<q, (Dot(EA(q), pt) + N - 1) \div 2, (Dot(EB(q), pt) + N - 1) \div 2>>
  ELSE IF (A >= g.na /\ ~g.per[1]) \/ (B >= g.nb /\ ~g.per[2]) \/ (A < 0 /\ ~g.per[3]) \/ (B < 0 /\ ~g.per[4]) THEN <<>>
  ELSE <<0, A % g.na, B % g.nb>>

\* ---- nodes as points: the last node of an element and the first of the next are the same point
X(g, A) == (A \div g.ord) * (g.ord - 1) + (A % g.ord)
RA(g) == (g.na \div g.ord) * (g.ord - 1)
RB(g) == (g.nb \div g.ord) * (g.ord - 1)
Point(g, p, A, B) ==
  IF g.cube THEN Lin(2 * X(g, A) - RA(g), EA(p), 2 * X(g, B) - RA(g), EB(p), RA(g), EN(p))
  ELSE <<IF g.per[1] /\ X(g, A) = RA(g) THEN 0 ELSE X(g, A), IF g.per[2] /\ X(g, B) = RB(g) THEN 0 ELSE X(g, B), 0>>
\* nodes of a line of elements at position x
AtA(g, x) == (IF x < RA(g) THEN {(x \div (g.ord - 1)) * g.ord + (x % (g.ord - 1))} ELSE {})
             \cup (IF x % (g.ord - 1) = 0 /\ x > 0 THEN {(x \div (g.ord - 1)) * g.ord - 1} ELSE {})
AtB(g, x) == (IF x < RB(g) THEN {(x \div (g.ord - 1)) * g.ord + (x % (g.ord - 1))} ELSE {})
             \cup (IF x % (g.ord - 1) = 0 /\ x > 0 THEN {(x \div (g.ord - 1)) * g.ord - 1} ELSE {})
\* all nodes at the point of node (p, A, B)
Copies(g, p, A, B) ==
  LET pt == Point(g, p, A, B) IN
  IF g.cube THEN
    UNION {{<<q, i, j>> : i \in AtA(g, (Dot(EA(q), pt) + RA(g)) \div 2), j \in AtA(g, (Dot(EB(q), pt) + RA(g)) \div 2)} :
           q \in {f \in 0..5 : Dot(EN(f), pt) = RA(g)}}
  ELSE {<<0, i, j>> : i \in AtA(g, pt[1]) \cup (IF g.per[1] /\ pt[1] = 0 THEN AtA(g, RA(g)) ELSE {}),
                      j \in AtB(g, pt[2]) \cup (IF g.per[2] /\ pt[2] = 0 THEN AtB(g, RB(g)) ELSE {})}
\* node on an outer edge of the domain that does not close on itself
OnOpenEdge(g, A, B) == ~g.cube /\ ((A = g.na - 1 /\ ~g.per[1]) \/ (B = g.nb - 1 /\ ~g.per[2]) \/ (A = 0 /\ ~g.per[3]) \/ (B = 0 /\ ~g.per[4]))
Nodes(g) == {<<p, A, B>> : p \in Panels(g), A \in 0..(g.na - 1), B \in 0..(g.nb - 1)}
=============================================================================
