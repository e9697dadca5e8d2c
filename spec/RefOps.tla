------------------------------ MODULE RefOps ------------------------------
(* What files on the reference grid hold: where their values come from (C21) and  *)
(* which records they have (C22). Lengths in millionths, fields in 1e-4.          *)
EXTENDS PanelMaps, Calendar, TLC
Nothing == <<>>
Rounded(x, k) == (x + (k \div 2)) \div k
\* the painted fields
Paint(c, f, s, a, b, eta, deg) ==
  LET a4 == Rounded(a, 100)  b4 == Rounded(b, 100)  h == Rounded(eta, 100) IN
  1000000 + 70000 * f + (IF f = 30 THEN 0 ELSE 100000 * s) + Rounded((11 + f) * a, 100) - Rounded((13 + f) * b, 100) + (3 + (f % 4)) * Rounded(a4 * b4, 10000)
  + (IF c.ord >= 3 THEN (2 + (f % 3)) * Rounded(a4 * a4, 10000) ELSE 0)
  + (IF deg >= 1 THEN Rounded((17 + f) * eta, 100) ELSE 0) + (IF deg >= 2 THEN (5 + (f % 3)) * Rounded(h * h, 10000) ELSE 0)
Tol == 30
Near(x, y, t) == AbsV(x - y) <= t
Components(c) == IF c.eq = "sw" THEN 3 ELSE 5
FieldIds(c) == {f : f \in 0..(Components(c) - 1)} \cup {10 + t : t \in 0..(c.tracers - 1)} \cup {20 + u : u \in 3..(c.user - 1)} \cup {30}
IsEdge(e, f) == f < 10 /\ e.edge[f + 1] = 1
TwoD(f) == f >= 20
EtaOut(e, k) == IF e.nz > 0 THEN ((2 * k - 1) * 500000) \div e.nz ELSE e.en[k]
Levels(c, e, f) == IF TwoD(f) THEN 1 ELSE IF IsEdge(e, f) /\ ~e.nodes THEN c.lev + 1 ELSE IF e.nz > 0 THEN e.nz ELSE c.lev
Eta(e, f, k) == IF TwoD(f) THEN 0 ELSE IF IsEdge(e, f) /\ ~e.nodes THEN e.ee[k] ELSE EtaOut(e, k)
Degree(c, e, f) == IF TwoD(f) THEN 0 ELSE IF IsEdge(e, f) THEN c.de ELSE c.dn
InCell(a, cell, cells, width) == /\ cell >= 0 /\ cell < cells /\ a * cells >= cell * width - 30 /\ a * cells <= (cell + 1) * width + 30
\* the element the value comes from, and the place the locators give, against the place of the point
Located(c, e, p) ==
  LET code == Rounded(p.c, 1000)  panel == code \div 10000  ea == (code % 10000) \div 100  eb == code % 100 IN
  /\ Near(p.c, 1000 * code, 2)
  /\ IF c.geom = "cs"
     THEN /\ panel \in 0..5 /\ \A q \in 0..5 : Den(panel, p.v) >= Den(q, p.v) - 3
          /\ Near(p.x * Den(panel, p.v), 10000 * XNum(panel, p.v), 40000) /\ Near(p.y * Den(panel, p.v), 10000 * YNum(panel, p.v), 40000)
          /\ InCell(p.a + 785398, ea, c.res, 1570796) /\ InCell(p.b + 785398, eb, c.res, 1570796)
     ELSE /\ panel = 0 /\ Near(p.a * 2 * e.nx, (2 * p.i + 1) * 1000000, 4 * e.nx) /\ Near(p.b * 2 * e.ny, (2 * p.j + 1) * 1000000, 4 * e.ny)
          /\ Near(p.x, p.a, 2) /\ Near(p.y, p.b, 2)
          /\ InCell(p.a, ea, c.res, 1000000) /\ InCell(p.b, eb, c.resb, 1000000)
\* number of records in the first k files
RECURSIVE Before_(_, _)
Before_(e, k) == IF k = 0 THEN 0 ELSE Before_(e, k - 1) + Len(e.files[k].t)
RecordNo(e, p) == Before_(e, p.f) + p.r + 1
ValuesOk(c, e, p, s, q) ==
  /\ Len(q[2]) = Levels(c, e, q[1])
  /\ \A k \in 1..Len(q[2]) : Near(q[2][k], Paint(c, q[1], s, p.a, p.b, Eta(e, q[1], k), Degree(c, e, q[1])), Tol)
\* step a record is of, judged by the field that says so; other fields are C22's business only where they disagree by a whole step
PointV(c, e, p, strict) ==
  LET n == RecordNo(e, p) IN
  IF ~Located(c, e, p) THEN <<"located", p.i, p.j, p.c, p.a, p.b>>
  ELSE IF {q[1] : q \in {p.q[k] : k \in 1..Len(p.q)}} # FieldIds(c) THEN <<"fields">>
  ELSE LET s == IF n > Len(e.outs) THEN 0 ELSE e.outs[n][1]
           bad == {k \in 1..Len(p.q) : ~ValuesOk(c, e, p, s, p.q[k])} IN
       IF bad = {} THEN Nothing ELSE LET q == p.q[CHOOSE k \in bad : TRUE] IN
         <<"value", p.f, p.r, p.i, p.j, q[1], q[2], [k \in 1..Len(q[2]) |-> IF k <= Levels(c, e, q[1]) THEN Paint(c, q[1], s, p.a, p.b, Eta(e, q[1], k), Degree(c, e, q[1])) ELSE 0]>>
SamplingV(c, e) ==
  IF ~e.ok THEN <<"run failed">>
  ELSE IF \E k \in 1..Len(e.files) : e.files[k].bad # "" THEN <<"unreadable">>
  ELSE IF \E k \in 1..Len(e.files) : LET f == e.files[k] IN f.nx # e.nx \/ f.ny # e.ny \/ Len(f.lev) # (IF e.nz > 0 THEN e.nz ELSE c.lev) \/ \E j \in 1..Len(f.lev) : ~Near(f.lev[j], EtaOut(e, j), 2) THEN <<"grid">>
  ELSE IF \A k \in 1..Len(e.pts) : e.pts[k].i # e.nx - 1 \/ e.pts[k].j # e.ny - 1 THEN <<"points missing">>
  ELSE LET bad == {k \in 1..Len(e.pts) : PointV(c, e, e.pts[k], TRUE) # Nothing} IN
       IF bad = {} THEN Nothing ELSE PointV(c, e, e.pts[CHOOSE k \in bad : \A j \in bad : k <= j], TRUE) \o <<Cardinality(bad)>>
\* ---- derived fields of flows with known derivatives. 40 vorticity, 41 divergence, scaled by the length unit and the speed unit;
\* 31 temperature, 32 surface pressure. On the sphere the flow is a rotation about k and a gradient along g: curl 2 k.r, divergence -2 g.r
Grown(c, e, k, x) == IF c.dn >= 1 /\ c.diag # 3 THEN x + Rounded(Rounded(x, 10) * Rounded(Eta(e, 0, k), 100), 1000) ELSE x
DotK(c, v) == c.kx * v[1] + c.ky * v[2] + c.kz * v[3]
DotG(c, v) == c.gx * v[1] + c.gy * v[2] + c.gz * v[3]
Flow(c, id, s, p) ==
  IF c.geom = "cs" THEN (1 + s) * (IF id = 40 THEN 2 * DotK(c, p.v) ELSE -2 * DotG(c, p.v))
  ELSE IF c.diag = 3 THEN 0
  ELSE LET q == IF c.ord >= 3 THEN 1 ELSE 0 IN
       Rounded((1 + s) * (IF id = 40 THEN Rounded(c.gy * 1000000 + c.gz * p.b + 2 * q * c.kx * p.a, 3) - (c.kx * 1000000 + c.ky * p.a + 2 * q * c.kz * p.b)
                          ELSE Rounded(c.gx * 1000000 + c.ky * p.b, 3) + c.gz * p.a + c.ky * 1000000), 100)
RECURSIVE Weight(_, _, _, _)
Weight(c, s, p, k) == IF k = 0 THEN 0 ELSE Weight(c, s, p, k - 1) + Paint(c, 32 + ((k - 1) % 3), s, p.a, p.b, 0, 0)
Derived(c, e, p, id, s, k) == CASE id \in {40, 41} -> Grown(c, e, k, Flow(c, id, s, p))
                                [] id = 31 -> Paint(c, 31, s, p.a, p.b, Eta(e, 31 - 31, k), c.dn)
                                [] id = 32 -> Weight(c, s, p, c.lev)
DerivedIds(c) == {30, 40, 41} \cup (IF c.eq = "nh" /\ c.diag = 1 THEN {31} ELSE IF c.eq = "nh" /\ c.diag = 2 THEN {32} ELSE {})
Size_(c, id, s) == (1 + s) * (IF id = 40 THEN AbsV(c.kx) + AbsV(c.ky) + AbsV(c.kz) ELSE AbsV(c.gx) + AbsV(c.gy) + AbsV(c.gz)) * 20000
\* on the sphere derivatives are approximate: an error in proportion to the whole flow
DerivedTol(c, id, s, x) == IF id \notin {40, 41} THEN IF id = 32 THEN Tol * c.lev ELSE Tol ELSE IF c.geom = "cs" THEN 60 + (Size_(c, 40, s) + Size_(c, 41, s)) \div (IF c.ord = 3 THEN 12 ELSE 40) ELSE 60 + AbsV(x) \div 1000
DerivedLevels(c, e, id) == IF id \in {30, 32} THEN 1 ELSE IF e.nz > 0 THEN e.nz ELSE c.lev
DerivedV(c, e, p) ==
  LET n == RecordNo(e, p) IN
  IF ~Located(c, e, p) THEN <<"located", p.i, p.j, p.c, p.a, p.b>>
  ELSE IF {q[1] : q \in {p.q[k] : k \in 1..Len(p.q)}} # DerivedIds(c) THEN <<"fields">>
  ELSE LET s == IF n > Len(e.outs) THEN 0 ELSE e.outs[n][1]
           ok(q) == q[1] = 30 \/ (Len(q[2]) = DerivedLevels(c, e, q[1]) /\ \A k \in 1..Len(q[2]) : LET x == Derived(c, e, p, q[1], s, k) IN Near(q[2][k], x, DerivedTol(c, q[1], s, x)))
           bad == {k \in 1..Len(p.q) : ~ok(p.q[k])}
       IN IF bad = {} THEN Nothing ELSE LET q == p.q[CHOOSE k \in bad : TRUE] IN
          <<"derived", p.f, p.r, p.i, p.j, q[1], q[2], [k \in 1..Len(q[2]) |-> Derived(c, e, p, q[1], s, k)]>>
\* totals, per unit of mass or area: energy, then potential enstrophy (shallow water) or zonal momentum, then vertical momentum
Sq(x) == x * x
KK(c) == Sq(c.kx) + Sq(c.ky) + Sq(c.kz)
GG(c) == Sq(c.gx) + Sq(c.gy) + Sq(c.gz)
TotalV(c, s, t) ==
  LET a == 1 + s IN
  IF c.eq = "sw" THEN
     LET en == 392246 + (20000 * Sq(a) * (KK(c) + GG(c))) \div 3
         ze == (10000 * (Sq(2 * a * c.kx) + Sq(2 * a * c.ky) + Sq(2 * a * c.kz + 2 * c.W))) \div 3
     IN IF ~Near(t[1], en, 20 + en \div 1000) THEN <<"energy", t[1], en>> ELSE IF ~Near(t[2], ze, 20 + (ze + (40000 * Sq(a) * (KK(c) + GG(c))) \div 3) \div 100) THEN <<"potential enstrophy", t[2], ze>> ELSE Nothing
  ELSE LET w == IF c.geom = "cs" THEN c.kx ELSE c.kz
           ke == IF c.geom = "cs" THEN (250 * Sq(a) * (KK(c) + GG(c))) \div 3 ELSE 125 * (Sq(a * c.kx) + Sq(a * c.ky))
           en == 1793750 + 490308 + ke + 125 * Sq(w)
       IN IF ~Near(t[1], en, 5 + ke \div 100 + (IF c.geom = "cs" THEN en \div (IF c.ord = 3 THEN 10000 ELSE 100000) ELSE 0)) THEN <<"energy", t[1], en>>
          ELSE IF c.geom = "ca" /\ ~Near(t[2], 10000 * a * c.kx, 10) THEN <<"zonal momentum", t[2]>>
          ELSE IF c.stag = "LEV" /\ ~Near(t[3], 10000 * w, 10) THEN <<"vertical momentum", t[3]>>
          ELSE Nothing
DiagV(c, e) ==
  IF ~e.ok THEN <<"run failed">>
  ELSE IF \E k \in 1..Len(e.files) : e.files[k].bad # "" THEN <<"unreadable">>
  ELSE IF c.diag = 3 /\ Len(e.tot) # Len(e.outs) THEN <<"totals">>
  ELSE LET bt == {k \in 1..Len(e.tot) : TotalV(c, e.outs[k][1], e.tot[k]) # Nothing}
           bad == {k \in 1..Len(e.pts) : DerivedV(c, e, e.pts[k]) # Nothing} IN
       IF bt # {} THEN TotalV(c, e.outs[CHOOSE k \in bt : TRUE][1], e.tot[CHOOSE k \in bt : TRUE])
       ELSE IF bad = {} THEN Nothing ELSE DerivedV(c, e, e.pts[CHOOSE k \in bad : \A j \in bad : k <= j]) \o <<Cardinality(bad)>>
\* ---- records
Pad(x, w) == LET s == ToString(x) IN IF Len(s) >= w THEN s ELSE IF w - Len(s) = 1 THEN "0" \o s ELSE IF w - Len(s) = 2 THEN "00" \o s ELSE IF w - Len(s) = 3 THEN "000" \o s ELSE "0000" \o s
DateText(t) == Pad(t.y, 4) \o "-" \o Pad(t.m + 1, 2) \o "-" \o Pad(t.d + 1, 2)
FileName(t) == "r." \o DateText(t) \o "-" \o Pad(t.s, 5) \o ".nc"
StartOf(c) == [y |-> c.sy, m |-> c.sm - 1, d |-> c.sd - 1, s |-> c.ss, u |-> 0]
At_(o) == [y |-> o[2], m |-> o[3], d |-> o[4], s |-> o[5], u |-> 0]
Count(e, k) == IF e.per = -1 THEN Len(e.outs) ELSE IF k * e.per <= Len(e.outs) THEN e.per ELSE Len(e.outs) - (k - 1) * e.per
NumFiles(e) == IF e.per = -1 THEN 1 ELSE (Len(e.outs) + e.per - 1) \div e.per
RecordV(c, e, k, r) ==
  LET f == e.files[k]  n == Before_(e, k - 1) + r  o == e.outs[n]  t == At_(o)
      moved == Shift(c.cal, StartOf(c), 0, 0, o[1] * (e.dt \div 86400), o[1] * (e.dt % 86400), 0)
  IN IF t # moved THEN <<"output at another time", n, t, moved>>
     ELSE IF r = 1 /\ f.name # FileName(t) THEN <<"file name", f.name, FileName(t)>>
     ELSE IF f.day[r] # DN(c.cal, t) - DN(c.cal, StartOf(c)) \/ ~Near(f.sec[r], 1000 * t.s, 5) THEN <<"time of record", n, f.day[r], f.sec[r], t>>
     ELSE Nothing
\* the step a record's fields are of: every field of a point, where the point itself is right
StepV(c, e, p) ==
  LET n == RecordNo(e, p)  s == e.outs[n][1]
      off(q) == LET x == Paint(c, q[1], s, p.a, p.b, Eta(e, q[1], 1), Degree(c, e, q[1])) IN Rounded(q[2][1] - x, 100000)
      bad == {k \in 1..Len(p.q) : p.q[k][1] # 30 /\ off(p.q[k]) # 0}
  IN IF bad = {} THEN Nothing ELSE <<"fields of another time", n, p.q[CHOOSE k \in bad : TRUE][1]>>
\* derived fields: nearer to another time's than to their own, by far
DerivedStepV(c, e, p) ==
  LET n == RecordNo(e, p)  s == e.outs[n][1]
      x(q, t) == Derived(c, e, p, q[1], t, 1)
      away(q, t) == AbsV(x(q, t) - x(q, s)) > 4 * DerivedTol(c, q[1], s, x(q, s)) /\ AbsV(q[2][1] - x(q, t)) < AbsV(q[2][1] - x(q, s)) \div 4
      bad == {k \in 1..Len(p.q) : p.q[k][1] # 30 /\ \E m \in 1..Len(e.outs) : away(p.q[k], e.outs[m][1])}
  IN IF bad = {} THEN Nothing ELSE <<"derived fields of another time", n, p.q[CHOOSE k \in bad : TRUE][1]>>
RecordStepV(c, e, p) == IF "diag" \in DOMAIN c THEN DerivedStepV(c, e, p) ELSE StepV(c, e, p)
RecordsV(c, e) ==
  IF ~e.ok THEN <<"run failed">>
  ELSE IF Len(e.files) # NumFiles(e) THEN <<"files", Len(e.files), NumFiles(e)>>
  ELSE IF \E k \in 1..Len(e.files) : e.files[k].bad # "" THEN <<"unreadable">>
  ELSE IF \E k \in 1..Len(e.files) : Len(e.files[k].t) # Count(e, k) THEN <<"records", [k \in 1..Len(e.files) |-> Len(e.files[k].t)], Len(e.outs)>>
  ELSE IF \E k \in 1..Len(e.files) : e.files[k].units # "days since " \o DateText(StartOf(c)) \/ e.files[k].cal # c.cal THEN <<"units or calendar", e.files[1].units, e.files[1].cal>>
  ELSE LET bad == UNION {{<<k, r>> : r \in {r \in 1..Len(e.files[k].t) : RecordV(c, e, k, r) # Nothing}} : k \in 1..Len(e.files)} IN
       IF bad # {} THEN LET b == CHOOSE b \in bad : TRUE IN RecordV(c, e, b[1], b[2])
       ELSE LET bp == {k \in 1..Len(e.pts) : RecordStepV(c, e, e.pts[k]) # Nothing} IN IF bp = {} THEN Nothing ELSE RecordStepV(c, e, e.pts[CHOOSE k \in bp : TRUE])
=============================================================================
