------------------------------ MODULE TracePanel ------------------------------
(* Recorded results of the real panel maps against PanelMaps.tla. Coordinates are *)
(* in millionths, vectors in thousandths.                                        *)
EXTENDS PanelMaps, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(what) == PrintT(<<"BAD", l, what>>)
None == <<>>
M == 1000000
Dirs(e) ==
  LET P(p) == e.p[p + 1]
      bad == UNION {
        {<<"panel in direction", p, d>> : d \in {d \in -1..3 : P(p).pfd[d + 2] # IF d = -1 THEN p ELSE Beyond(p, d)}}
        \cup {<<"direction of panel", p, q>> : q \in {q \in 0..5 : P(p).dfp[q + 1] # Toward(p, q)}}
        \cup {<<"relative panel", p, d>> : d \in {d \in 0..3 : P(p).rp[d + 1] # Beyond(p, d) \/ P(p).rd[d + 1] \notin Back(p, Beyond(p, d), d)}}
        \cup {<<"opposing direction", p, z[1], z[2]>> : z \in {z \in (0..5) \X (-1..7) :
               LET b == IF z[2] = -1 THEN (IF z[1] = p THEN {-1} ELSE {}) ELSE Back(p, z[1], z[2]) IN b # {} /\ P(p).opp[z[1] + 1][z[2] + 2] \notin b}} : p \in 0..5}
      rev == {d \in 0..7 : e.rev[d + 3] # Reverse(d)} \cup {d \in {-2, -1} : e.rev[d + 3] # d}
      inc == {d \in -1..7 : <<e.ia[d + 2], e.ib[d + 2]>> # Step(d)}
  IN IF bad # {} THEN CHOOSE b \in bad : TRUE ELSE IF rev # {} THEN <<"opposite", rev>> ELSE IF inc # {} THEN <<"increment", inc>> ELSE None
CellsV(e) ==
  LET N == e.n  g == [cube |-> TRUE, na |-> N, nb |-> N, ord |-> N, per |-> <<TRUE, TRUE, TRUE, TRUE>>]
      bad == {z \in ((-N)..(2 * N - 1)) \X ((-N)..(2 * N - 1)) :
        LET v == e.v[(z[1] + N) * 3 * N + z[2] + N + 1]
            c == Counterpart(g, e.p, z[1], z[2])
            d == IF z[1] >= N THEN 0 ELSE IF z[2] >= N THEN 1 ELSE IF z[1] < 0 THEN 2 ELSE 3
            ch == IF Inside(g, z[1], z[2]) THEN <<FALSE, FALSE, FALSE>> ELSE Changes(e.p, d)
            bit(b) == IF b THEN 1 ELSE 0
        IN IF c = <<>> THEN v[1] # -1 ELSE v # <<c[1], c[2], c[3], bit(ch[1]), bit(ch[2]), bit(ch[3])>>}
  IN IF bad = {} THEN None ELSE <<"cell", e.p, CHOOSE b \in bad : TRUE, Cardinality(bad)>>
Max3(v) == LET S == {AbsV(v[k]) : k \in 1..3} IN CHOOSE m \in S : \A x \in S : x <= m
\* r (unit length, millionths) points the way of v
SameWay(r, v) == /\ \A i, j \in 1..3 : AbsV(r[i] * v[j] - r[j] * v[i]) <= 3 * Max3(v)
                 /\ Dot(r, v) > 0
Is(got, num, den) == AbsV(got * den - M * num) <= 2 * den
Far(q, v) == Den(q, v) <= 0 \/ AbsV(XNum(q, v)) > 20 * Den(q, v) \/ AbsV(YNum(q, v)) > 20 * Den(q, v)
OnPanel(h, k, v) == h[k] \in Home(v) /\ Is(h[k + 1], XNum(h[k], v), Den(h[k], v)) /\ Is(h[k + 2], YNum(h[k], v), Den(h[k], v))
\* the pole belongs to every longitude
PointV(e, o) ==
  LET v == At(e.p, e.x, o.y, e.n)  q == <<e.p, e.x, o.y, e.n>> IN
  IF o.exc THEN <<"refused", q>>
  ELSE IF ~SameWay(SubSeq(o.r, 1, 3), v) \/ ~SameWay(SubSeq(o.r, 4, 6), v) THEN <<"longitude and latitude", q>>
  ELSE IF \E k \in {7, 9} : o.r[k] < 0 \/ o.r[k] > 6283186 \/ AbsV(o.r[k + 1]) > 1570797 THEN <<"range", q>>
  ELSE IF ~SameWay(o.c, v) THEN <<"position in space", q>>
  ELSE IF \E k \in 1..Len(o.home) : ~OnPanel(o.home[k], 1, v) \/ ~OnPanel(o.home[k], 4, v) THEN <<"panel coordinates", q>>
  ELSE IF \E k \in 1..Len(o.to) : LET t == o.to[k] IN
            IF Den(t[1], v) <= 0 THEN t[2] # 1
            ELSE ~Far(t[1], v) /\ (t[2] # 0 \/ ~Is(t[3], XNum(t[1], v), Den(t[1], v)) \/ ~Is(t[4], YNum(t[1], v), Den(t[1], v))) THEN <<"panel to panel", q>>
  ELSE LET bad == {k \in 1..Len(o.vec) : \E i \in 1..3 : AbsV(o.vec[k][2 + i] - o.vec[k][5 + i]) > 3} IN
       IF bad = {} THEN None ELSE <<"vector", q, o.vec[CHOOSE k \in bad : TRUE], Cardinality(bad)>>
Points(e) == LET bad == {k \in 1..Len(e.rows) : PointV(e, e.rows[k]) # None} IN
             IF bad = {} THEN None ELSE PointV(e, e.rows[CHOOSE k \in bad : \A j \in bad : k <= j])
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
\* a face is a sixth of the sphere, its cells share the symmetry of the square
Areas(e) ==
  LET N == e.n A(i, j) == e.v[i * N + j + 1] IN
  IF AbsV(e.whole - 2094395) > 1 \/ AbsV(SumSeq(e.v, N * N) - 2094395) > N * N THEN <<"area of a face", e.n>>
  ELSE IF \E i, j \in 0..(N - 1) : AbsV(A(i, j) - A(j, i)) > 1 \/ AbsV(A(i, j) - A(N - 1 - i, j)) > 1 \/ AbsV(e.w[i * N + j + 1] - 9 * A(i, j)) > 9
            \/ (i > 0 /\ 2 * i < N /\ A(i, j) < A(i - 1, j)) THEN <<"areas of cells", e.n>>
  ELSE None
Verdict(e) == CASE e.ev = "dirs" -> Dirs(e) [] e.ev = "cells" -> CellsV(e) [] e.ev = "points" -> Points(e) [] e.ev = "areas" -> Areas(e)
                [] e.ev = "died" -> <<"died", e.why>> [] OTHER -> None
Init == l = 1
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN IF v = None THEN TRUE ELSE Bad(v)
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
