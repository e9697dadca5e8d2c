------------------------------ MODULE RealOps ------------------------------
(* What must hold between the runs of one model: a restart file and what is read   *)
(* from it, a run and its continuations, runs on different decompositions, and    *)
(* the sums a run reports. States are given by digests where equality is exact.    *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[k] : k \in 1..Len(s)}
\* -- restart files: a file is <<>> when nothing intact was written there
Whole(w) == LET ix == {p.ix : p \in Rng(w.patches)} IN Len(w.patches) = w.desc[1] /\ ix = 0..(w.desc[1] - 1)
SameContent(w, r) ==
  IF r.time # w.time THEN <<"time", w.time, r.time>>
  ELSE IF r.desc # w.desc THEN <<"grid description", IF Len(r.desc) # Len(w.desc) THEN 0 ELSE CHOOSE k \in 1..Len(w.desc) : r.desc[k] # w.desc[k]>>
  ELSE LET at(s, i) == CHOOSE p \in Rng(s) : p.ix = i
           wrong == {i \in 0..(w.desc[1] - 1) : at(w.patches, i) # at(r.patches, i)}
       IN IF wrong = {} THEN <<>>
          ELSE LET i == CHOOSE i \in wrong : TRUE  a == at(w.patches, i)  b == at(r.patches, i) IN
               <<"patch", i, IF a.st # b.st THEN "state" ELSE "", IF a.tr # b.tr THEN "tracers" ELSE "", {k \in 1..Len(a.geo) : a.geo[k] # b.geo[k]}>>
ReadOk(file, r) ==
  IF file = <<>> THEN (IF r.ok THEN <<"damaged file accepted">> ELSE <<>>)
  ELSE IF ~r.ok THEN <<"intact file refused">>
  ELSE IF ~Whole(r) THEN <<"patches missing">>
  ELSE SameContent(file, r)
\* -- runs: sequences of [t, st]; times are <<year, month, day, second, micro, ..>> within one day
Sec(x) == x.t[4]
Same(a, b) == a.t = b.t /\ Rng(a.st) = Rng(b.st) /\ Len(a.st) = Len(b.st)
Suffix(s, t) == SelectSeq(s, LAMBDA x : Sec(x) >= t)
Stream(what, full, part, t) ==
  LET f == Suffix(full, t) IN
  IF Len(f) # Len(part) THEN <<what, "count", Len(f), Len(part)>>
  ELSE LET wrong == {k \in 1..Len(f) : ~Same(f[k], part[k])} IN
       IF wrong = {} THEN <<>> ELSE LET k == CHOOSE k \in wrong : \A j \in wrong : k <= j IN <<what, IF f[k].t # part[k].t THEN "time" ELSE "state", Sec(f[k]), Sec(part[k])>>
ContOk(r, c, every) ==
  IF ~c.ok THEN <<"continuation failed">>
  ELSE LET t == c.f * every  a == Stream("steps", r.steps, c.steps, t)  b == Stream("outputs", r.outs, c.outs, t) IN IF a # <<>> THEN a ELSE b
\* -- decompositions: v[n][x] is the value of column x in the n-th record (all variables of step 1, then of step 2, ..), 1e-8 of the largest
FieldTol == 20
Abs(i) == IF i < 0 THEN -i ELSE i
FieldOk(r, e) ==
  IF ~e.ok THEN <<"run failed">>
  ELSE IF ~r.fin THEN <<>>
  ELSE IF Len(e.v) # Len(r.v) THEN <<"steps", Len(r.v) \div r.vars, Len(e.v) \div e.vars>>
  ELSE LET off == {n \in 1..Len(r.v) : Len(e.v[n]) # Len(r.v[n]) \/ \E x \in 1..Len(r.v[n]) : Abs(r.v[n][x] - e.v[n][x]) > FieldTol} IN
       IF off = {} THEN <<>>
       ELSE LET n == CHOOSE n \in off : \A m \in off : n <= m  x == CHOOSE x \in 1..Len(r.v[n]) : Abs(r.v[n][x] - e.v[n][x]) > FieldTol IN
            <<"step", 1 + (n - 1) \div r.vars, "variable", (n - 1) % r.vars, "column", x - 1, r.v[n][x], e.v[n][x]>>
\* -- conserved sums: v[n][c] is the change of the total of fluid (c = 1) or a tracer since the start, 1e-12 of its first value, after step n - 1
SumTol == 100
SumsOk(e) ==
  IF ~e.ok THEN <<"run failed">>
  ELSE IF ~e.fin THEN <<>>
  ELSE IF Len(e.v) # e.n + 1 THEN <<"steps", e.n + 1, Len(e.v)>>
  ELSE LET off == {n \in 1..Len(e.v) : \E c \in 1..Len(e.v[n]) : Abs(e.v[n][c]) > SumTol} IN
       IF off = {} THEN <<>>
       ELSE LET n == CHOOSE n \in off : \A m \in off : n <= m  c == CHOOSE c \in 1..Len(e.v[n]) : Abs(e.v[n][c]) > SumTol IN
            <<"step", n - 1, IF c = 1 THEN "fluid" ELSE "tracer", e.v[n][c]>>
=============================================================================
