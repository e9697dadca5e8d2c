------------------------------ MODULE PanelMaps ------------------------------
(* Coordinates of the six panels, as plain geometry of a cube in space.         *)
(* A point is a direction <<i, j, k>> of integers; on panel p it has the         *)
(* coordinates X = Num / Den, Y = Num / Den with the axes of GridTopo.           *)
EXTENDS GridTopo
AbsV(x) == IF x < 0 THEN -x ELSE x
Neg(v) == [i \in 1..3 |-> -v[i]]
Plus(u, v) == [i \in 1..3 |-> u[i] + v[i]]
\* the point (x/n, y/n) of panel p
At(p, x, y, n) == Lin(x, EA(p), y, EB(p), n, EN(p))
XNum(p, v) == Dot(EA(p), v)
YNum(p, v) == Dot(EB(p), v)
Den(p, v) == Dot(EN(p), v)
\* panels a point lies on: those it is nearest to; several on edges and corners
Home(v) == {p \in 0..5 : \A q \in 0..5 : Den(p, v) >= Den(q, v)}
\* ---- directions 0 right 1 top 2 left 3 bottom 4 topright 5 topleft 6 bottomleft 7 bottomright, -1 middle, -2 none
Step(d) == CASE d = 0 -> <<1, 0>> [] d = 1 -> <<0, 1>> [] d = 2 -> <<-1, 0>> [] d = 3 -> <<0, -1>>
             [] d = 4 -> <<1, 1>> [] d = 5 -> <<-1, 1>> [] d = 6 -> <<-1, -1>> [] d = 7 -> <<1, -1>> [] OTHER -> <<0, 0>>
DirOf(a, b) == IF a = 0 /\ b = 0 THEN -1 ELSE CHOOSE d \in 0..7 : Step(d) = <<a, b>>
InSpace(p, s) == Lin(s[1], EA(p), s[2], EB(p), 0, EN(p))
\* panel across the straight edge d of p
Beyond(p, d) == CHOOSE q \in 0..5 : EN(q) = InSpace(p, Step(d))
Toward(p, q) == IF p = q THEN -1 ELSE IF EN(q) = Neg(EN(p)) THEN -2 ELSE CHOOSE d \in 0..3 : Beyond(p, d) = q
\* edges of p a step in direction d can cross
Edges(d) == {e \in 0..3 : (Step(e)[1] # 0 /\ Step(e)[1] = Step(d)[1]) \/ (Step(e)[2] # 0 /\ Step(e)[2] = Step(d)[2])}
\* the step d from p over its edge e lands on q; the same step taken back, in the axes of q
Along(p, d, e) == InSpace(p, <<Step(d)[1] - Step(e)[1], Step(d)[2] - Step(e)[2]>>)
BackOver(p, d, e) ==
  LET q == Beyond(p, e)
      v == Plus(EN(p), Neg(Along(p, d, e)))      \* over the edge the way back points along the first panel's normal
  IN DirOf(Dot(EA(q), v), Dot(EB(q), v))
Reverse(d) == DirOf(-Step(d)[1], -Step(d)[2])
\* direction in which q sees p when p sees q in direction d; {} where the two do not meet that way
Back(p, q, d) == IF p = q THEN {Reverse(d)} ELSE {BackOver(p, d, e) : e \in {e \in Edges(d) : Beyond(p, e) = q}}
\* how axes change over the straight edge d of p: <<alpha and beta change places, along reversed, across reversed>>
Changes(p, d) ==
  LET q == Beyond(p, d)
      o == Neg(EN(p))                         \* going on over the edge, on q
      t == IF d \in {0, 2} THEN EB(p) ELSE EA(p)
      oa == Dot(EA(q), o)  ob == Dot(EB(q), o)
      ta == Dot(EA(q), t)  tb == Dot(EB(q), t)
      along == IF ta # 0 THEN ta ELSE tb
      across == IF oa # 0 THEN oa ELSE ob
      sign == IF d \in {0, 1} THEN 1 ELSE -1
  IN <<(oa # 0) # (d \in {0, 2}), along < 0, across # sign>>
=============================================================================
