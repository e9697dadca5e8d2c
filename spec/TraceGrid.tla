------------------------------ MODULE TraceGrid ------------------------------
(* Recorded operations of the real grids against GridOps.tla.                   *)
EXTENDS GridOps, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, cls
Bad(what) == PrintT(<<"BAD", l, what>>)
None == <<>>
\* the classes of nodes that share a point, by NodeId, for the nodes on element edges
Classes(g) == [n \in 1..(NPanels(g) * g.na * g.nb) |->
   LET B == (n - 1) % g.nb  A == ((n - 1) \div g.nb) % g.na  p == (n - 1) \div (g.na * g.nb) IN
   IF Interior(g, A, B) THEN {<<p, A, B>>} ELSE Copies(g, p, A, B)]
Layout(e, c, g) ==
  IF e.refused THEN (IF MayRefuse(c) THEN None ELSE <<"layout refused">>)
  ELSE IF ~Tiles(g, e.boxes[1]) THEN <<"patches do not tile the grid">>
  ELSE IF e.count # Len(e.boxes[1]) \/ \E r \in 1..e.np : e.boxes[r] # e.boxes[1] \/ e.procs[r] # e.procs[1] THEN <<"processes disagree on the layout">>
  ELSE IF \E k \in 1..e.count : e.procs[1][k] \notin 0..(e.np - 1) THEN <<"patch without a process">>
  ELSE IF \E r \in 1..e.np : LET a == e.active[r] IN
            \/ {a[k] : k \in 1..Len(a)} # {k \in 0..(e.count - 1) : e.procs[1][k + 1] = r - 1}
            \/ Cardinality({a[k] : k \in 1..Len(a)}) # Len(a) THEN <<"process does not hold its patches">>
  ELSE IF ~e.placed THEN <<"patch without data or of another process">>
  ELSE IF ~e.agree THEN <<"processes disagree on lookups">>
  ELSE LET wrong == {<<o, p, A, B>> \in {<<o, p, A, B>> : o \in 1..Len(e.look), p \in Panels(g), A \in (-g.na)..(2 * g.na - 1), B \in (-g.nb)..(2 * g.nb - 1)} :
              LET d == e.look[o].d IN
              /\ A >= -d /\ A < g.na + d /\ B >= -d /\ B < g.nb + d
              /\ e.look[o].r[(p * (g.na + 2 * d) + A + d) * (g.nb + 2 * d) + B + d + 1] # Owner(g, e.boxes[1], p, A, B)}
       IN IF wrong = {} THEN None ELSE <<"lookup", CHOOSE x \in wrong : TRUE, Cardinality(wrong)>>
Exch(e, g) ==
  IF e.exc THEN <<"exchange refused">>
  ELSE IF ~e.same THEN <<"other data changed">>
  ELSE LET wrong == {<<k, i, j>> \in UNION {{<<k, i, j>> : i \in 0..(e.patches[k].wa - 1), j \in 0..(e.patches[k].wb - 1)} : k \in 1..Len(e.patches)} :
              LET t == e.patches[k]  c == Counterpart(g, t.p, t.a + i, t.b + j) IN
              \E q \in 1..e.q : t.v[(i * t.wb + j) * e.q + q] #
                 IF c = <<>> THEN -(e.s + 1) ELSE e.s + (q - 1) * e.m + NodeId(g, c[1], c[2], c[3])}
       IN IF wrong = {} THEN None
          ELSE LET x == CHOOSE x \in wrong : TRUE  t == e.patches[x[1]] IN <<"halo", <<t.p, t.a + x[2], t.b + x[3]>>, Counterpart(g, t.p, t.a + x[2], t.b + x[3]), Cardinality(wrong)>>
Dss(e, g) ==
  IF e.exc THEN <<"averaging refused">>
  ELSE IF ~e.same THEN <<"other data changed">>
  ELSE LET wrong == {<<q, n>> \in {<<q, n>> : q \in 1..Len(e.pre), n \in 1..(NPanels(g) * g.na * g.nb)} :
              LET S == cls[n] IN Cardinality(S) * e.post[q][n] # SumOf(g, e.pre[q], S)}
           pos(n) == <<(n - 1) \div (g.na * g.nb), ((n - 1) \div g.nb) % g.na, (n - 1) % g.nb>>
           sure == {x \in wrong : ~OnOpenEdge(g, pos(x[2])[2], pos(x[2])[3])}
       IN IF wrong = {} THEN (IF e.odd THEN <<"fractions">> ELSE None)
          ELSE IF sure = {} THEN <<"open edge", pos((CHOOSE x \in wrong : TRUE)[2])>>
          ELSE LET x == CHOOSE x \in sure : TRUE IN <<"average", pos(x[2]), e.post[x[1]][x[2]], Cardinality(sure)>>
\* vectors in space, in thousandths: the mean of those held at the node's point, up to rounding of the record
Vec(e, g) ==
  IF e.exc THEN <<"averaging refused">>
  ELSE IF ~e.same THEN <<"other data changed">>
  ELSE IF e.odd THEN <<"not finite">>
  ELSE LET wrong == {<<q, n>> \in {<<q, n>> : q \in 1..Len(e.pre), n \in 1..(NPanels(g) * g.na * g.nb)} :
              LET S == cls[n] IN Abs(Cardinality(S) * e.post[q][n] - SumOf(g, e.pre[q], S)) > Cardinality(S) + 2}
           pos(n) == <<(n - 1) \div (g.na * g.nb), ((n - 1) \div g.nb) % g.na, (n - 1) % g.nb>>
       IN IF wrong = {} THEN None
          ELSE LET x == CHOOSE x \in wrong : TRUE IN <<"vector", pos(x[2]), e.post[x[1]][x[2]], SumOf(g, e.pre[x[1]], cls[x[2]]), Cardinality(wrong)>>
\* millionths of the exact area; quadrature of the sphere's curvature has a known error, the plane has none
AreaTolerance(c) == CASE ~c.cube -> 0 [] c.ord = 2 -> 130000 \div c.resA [] c.ord = 3 -> 6000 \div (c.resA * c.resA * c.resA) [] OTHER -> 20
Area6(e, c) == LET all == {e.node[k] : k \in 1..Len(e.node)} \cup {e.redge[k] : k \in 1..Len(e.redge)} IN
  IF \E x \in all : Abs(x - 1000000) > AreaTolerance(c) THEN <<"area", all>>
  ELSE IF \E x, y \in all : Abs(x - y) > 1 THEN <<"areas differ", all>> ELSE None
RECURSIVE Before(_, _)
Before(ks, c) == IF c = 1 THEN 0 ELSE ks[c - 1] + Before(ks, c - 1)
RECURSIVE Rows(_, _, _)
Rows(e, b, k) == IF k = 0 THEN 0 ELSE
  LET n == Len(e.v[1]) x == Dot2(e.kind, e.v[b + k], e.w[b + k], n) r == Rows(e, b, k - 1) IN IF e.kind = "linf" THEN (IF x > r THEN x ELSE r) ELSE x + r
SumV(e) == IF e.exc \/ e.odd \/ ~e.same \/ Len(e.r) # Len(e.ks) THEN <<"sum", e.exc, e.odd, e.same>>
  ELSE LET wrong == {c \in 1..Len(e.ks) : e.r[c] # Rows(e, Before(e.ks, c), e.ks[c])} IN IF wrong = {} THEN None ELSE <<"sum", e.kind, wrong>>
Comb(e) ==
  LET inst == Len(e.pre)
      refuse == Len(e.co) > inst \/ e.dst >= Len(e.co) \/ e.dst < 0 \/ e.dst >= inst
      co == IF e.op = "lin" THEN [m \in 1..inst |-> IF m <= Len(e.co) THEN e.co[m] ELSE 0] ELSE e.co
  IN IF e.exc # (e.op = "lin" /\ refuse) THEN <<"refusal", e.exc>>
     ELSE IF ~e.same THEN <<"other kind of data changed">>
     ELSE IF e.odd THEN <<"fractions">>
     ELSE LET wrong == {<<m, q>> \in {<<m, q>> : m \in 1..inst, q \in 1..Len(e.pre[1])} :
                \E n \in 1..Len(e.pre[1][1]) : e.post[m][q][n] #
                   IF e.exc \/ m # e.dst + 1 THEN e.pre[m][q][n] ELSE Lin2(co, [k \in 1..inst |-> e.pre[k][q][n]], inst)}
          IN IF wrong = {} THEN None ELSE <<"copy", CHOOSE x \in wrong : TRUE, Cardinality(wrong)>>
Verdict(e, c) ==
  CASE e.ev = "died" -> <<"died", e.why>>
    [] e.ev = "layout" -> Layout(e, c, GridOf(c))
    [] e.ev = "exch" -> Exch(e, GridOf(c))
    [] e.ev = "dss" -> Dss(e, GridOf(c))
    [] e.ev = "vec" -> Vec(e, GridOf(c))
    [] e.ev = "sum" -> SumV(e)
    [] e.ev = "area" -> Area6(e, c)
    [] e.ev = "comb" -> Comb(e)
    [] OTHER -> None
Init == l = 1 /\ cfg = None /\ cls = None
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]  v == Verdict(e, cfg) IN
           /\ IF v = None THEN TRUE ELSE Bad(v)
           /\ cfg' = IF e.ev = "cfg" THEN e.c ELSE cfg
           /\ cls' = IF e.ev = "cfg" THEN (IF e.c.avg THEN Classes(GridOf(e.c)) ELSE None) ELSE cls
Spec == Init /\ [][Next]_<<l, cfg, cls>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
