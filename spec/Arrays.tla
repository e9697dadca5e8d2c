------------------------------- MODULE Arrays -------------------------------
(* Arrays of one element type and dimension, memory blocks, and containers     *)
(* placing several arrays in one block. Memory is counted in elements; an      *)
(* array occupies whole machine words of W elements.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NA, NC, ExtLen
A == 1..NA
C == 1..NC
Ext == {1, 2}                       \* two outside buffers, never freed by arrays
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Cells(w, sz) == w * ((Prod(sz) + w - 1) \div w)
\* an array: extents, block (0 none), first element, owner, type, location
NewArr(d) == [sz |-> Zeros(d), blk |-> 0, off |-> 0, own |-> FALSE, ty |-> 0, lo |-> 0]
NewCon == [ch |-> <<>>, blk |-> 0, off |-> 0, own |-> FALSE]
Fresh(d, w) == [d |-> d, w |-> w, a |-> [i \in A |-> NewArr(d)], c |-> [k \in C |-> NewCon],
                m |-> [b \in Ext |-> [i \in 1..ExtLen |-> 100 * b + i]], next |-> 3]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Attached(s, i) == s.a[i].blk # 0
Read(s, i) == LET x == s.a[i] IN [k \in 1..Prod(x.sz) |-> s.m[x.blk][x.off + k]]
Same(x, y) == x.sz = y.sz
\* give up the memory of array i
Drop(s, i) == LET x == s.a[i] IN
  [s EXCEPT !.a[i].blk = 0, !.a[i].off = 0, !.a[i].own = FALSE,
            !.m = IF x.own THEN [b \in DOMAIN @ \ {x.blk} |-> @[b]] ELSE @]
\* memory of its own, zeroed
Own(s, i, sz) == [s EXCEPT !.a[i].sz = sz, !.a[i].blk = s.next, !.a[i].off = 0, !.a[i].own = TRUE,
                           !.m = Put(@, s.next, Zeros(Cells(s.w, sz))), !.next = @ + 1]
WriteAll(s, i, v) == LET x == s.a[i] IN [s EXCEPT !.m[x.blk] = [k \in DOMAIN @ |-> IF k > x.off /\ k <= x.off + Len(v) THEN v[k - x.off] ELSE @[k]]]
\* what fills the last word is left open
U == -999999999
Eq(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k] = y[k] \/ y[k] = U
Mul(x, y) == IF x = U \/ y = U THEN U ELSE x * y
Plus(x, y) == IF x = U \/ y = U THEN U ELSE x + y
Pad(w, sz) == [k \in 1..(Cells(w, sz) - Prod(sz)) |-> U]
ZeroAll(s, i) == WriteAll(s, i, Zeros(Prod(s.a[i].sz)) \o Pad(s.w, s.a[i].sz))
HasZero(sz) == \E k \in 1..Len(sz) : sz[k] = 0
Extents(s, i, sz) == [k \in 1..Len(sz) |-> IF sz[k] = 0 THEN s.a[i].sz[k] ELSE sz[k]]
Foreign(s, i) == Attached(s, i) /\ ~s.a[i].own

\* container layout: where chunk k starts
RECURSIVE Start(_, _, _)
Start(s, ch, k) == IF k = 1 THEN 0 ELSE Start(s, ch, k - 1) + Cells(s.w, s.a[ch[k - 1]].sz)
Total(s, ch) == Start(s, ch, Len(ch) + 1)
RECURSIVE PlaceAll(_, _, _, _, _)
PlaceAll(s, ch, k, b, o) == IF k > Len(ch) THEN s
  ELSE PlaceAll([s EXCEPT !.a[ch[k]].blk = b, !.a[ch[k]].off = o + Start(s, ch, k), !.a[ch[k]].own = FALSE], ch, k + 1, b, o)
RECURSIVE DropAll(_, _, _)
DropAll(s, ch, k) == IF k > Len(ch) THEN s ELSE DropAll(Drop(s, ch[k]), ch, k + 1)

\* whether an operation is refused
Refused(s, e) ==
  CASE e.op = "size"   -> Attached(s, e.i)
    [] e.op = "alloc"  -> Foreign(s, e.i) \/ HasZero(Extents(s, e.i, e.sz))
    [] e.op = "attach" -> Attached(s, e.i)
    [] e.op = "free"   -> Foreign(s, e.i)
    [] e.op \in {"zero", "scale"} -> ~Attached(s, e.i)
    [] e.op = "add"    -> ~Attached(s, e.i) \/ ~Attached(s, e.j) \/ ~Same(s.a[e.i], s.a[e.j])
    [] e.op = "assign" -> IF ~Attached(s, e.j) THEN Attached(s, e.i)
                          ELSE Foreign(s, e.i) /\ (~Same(s.a[e.i], s.a[e.j]) \/ s.a[e.i].ty # s.a[e.j].ty \/ s.a[e.i].lo # s.a[e.j].lo)
    [] e.op = "calloc" -> s.c[e.k].blk # 0
    [] e.op = "cattach" -> s.c[e.k].blk # 0
    [] OTHER -> FALSE
Take(s, i, j) == [s EXCEPT !.a[i].ty = s.a[j].ty, !.a[i].lo = s.a[j].lo]
AssignTo(s, i, j) ==
  IF i = j THEN s
  ELSE IF ~Attached(s, j) THEN Take([s EXCEPT !.a[i].sz = s.a[j].sz], i, j)
  ELSE LET v == Read(s, j)
           t == IF Foreign(s, i) THEN s
                ELSE IF Attached(s, i) /\ Same(s.a[i], s.a[j]) THEN Take(s, i, j)
                ELSE Take(Own(Drop(s, i), i, s.a[j].sz), i, j)
       IN WriteAll(t, i, v \o Pad(s.w, s.a[j].sz))
Effect(s, e) ==
  CASE e.op = "size"   -> [s EXCEPT !.a[e.i].sz = e.sz]
    [] e.op = "alloc"  -> LET x == Extents(s, e.i, e.sz) IN
                          IF Attached(s, e.i) /\ s.a[e.i].sz = x THEN ZeroAll(s, e.i) ELSE Own(Drop(s, e.i), e.i, x)
    [] e.op = "attach" -> [s EXCEPT !.a[e.i].blk = e.b, !.a[e.i].off = e.o, !.a[e.i].own = FALSE]
    [] e.op \in {"detach", "free"} -> Drop(s, e.i)
    [] e.op = "fresh"  -> [Drop(s, e.i) EXCEPT !.a[e.i] = NewArr(s.d)]
    [] e.op = "make"   -> Own([Drop(s, e.i) EXCEPT !.a[e.i] = NewArr(s.d)], e.i, e.sz)
    [] e.op = "copy"   -> AssignTo([Drop(s, e.i) EXCEPT !.a[e.i] = NewArr(s.d)], e.i, e.j)
    [] e.op = "kind"   -> [s EXCEPT !.a[e.i].ty = e.ty, !.a[e.i].lo = e.lo]
    [] e.op = "assign" -> AssignTo(s, e.i, e.j)
    [] e.op = "zero"   -> ZeroAll(s, e.i)
    [] e.op = "scale"  -> LET v == Read(s, e.i) IN WriteAll(s, e.i, [k \in DOMAIN v |-> Mul(v[k], e.x)])
    [] e.op = "add"    -> LET v == Read(s, e.i) u == Read(s, e.j) IN WriteAll(s, e.i, [k \in DOMAIN v |-> Plus(v[k], Mul(e.x, u[k]))])
    [] e.op = "set"    -> [s EXCEPT !.m[s.a[e.i].blk][s.a[e.i].off + e.p] = e.x]
    [] e.op = "push"   -> [s EXCEPT !.c[e.k].ch = Append(@, e.i)]
    [] e.op = "calloc" -> LET n == Total(s, s.c[e.k].ch) IN
                          PlaceAll([s EXCEPT !.c[e.k].blk = s.next, !.c[e.k].off = 0, !.c[e.k].own = TRUE, !.m = Put(@, s.next, Zeros(n)), !.next = @ + 1],
                                   s.c[e.k].ch, 1, s.next, 0)
    [] e.op = "cattach" -> PlaceAll([s EXCEPT !.c[e.k].blk = e.b, !.c[e.k].off = e.o, !.c[e.k].own = FALSE], s.c[e.k].ch, 1, e.b, e.o)
    [] e.op = "cdetach" -> LET t == DropAll(s, s.c[e.k].ch, 1) b == s.c[e.k].blk IN
                          [t EXCEPT !.c[e.k].blk = 0, !.c[e.k].own = FALSE, !.c[e.k].off = 0,
                                    !.m = IF s.c[e.k].own THEN [q \in DOMAIN @ \ {b} |-> @[q]] ELSE @]
    [] e.op = "ccopy"  -> LET n == Total(s, s.c[e.k].ch) x == s.c[e.k] y == s.c[e.l] IN      \* the block of l over the block of k
                          [s EXCEPT !.m[x.blk] = [p \in DOMAIN @ |-> IF p > x.off /\ p <= x.off + n THEN s.m[y.blk][y.off + p - x.off] ELSE @[p]]]
Do(s, e) == IF Refused(s, e) THEN s ELSE Effect(s, e)

\* memory owned by someone, exactly once
Owners(s, b) == Cardinality({i \in A : s.a[i].own /\ s.a[i].blk = b}) + Cardinality({k \in C : s.c[k].own /\ s.c[k].blk = b})
Live(s) == {b \in DOMAIN s.m : b > 2}

\* operations that the interface leaves undefined are not asked for
Member(s, i) == \E k \in C : \E q \in 1..Len(s.c[k].ch) : s.c[k].ch[q] = i
Overlap(s, i, j) == s.a[i].blk = s.a[j].blk /\ s.a[i].blk # 0 /\ s.a[i].off # s.a[j].off
                    /\ s.a[i].off < s.a[j].off + Cells(s.w, s.a[j].sz) /\ s.a[j].off < s.a[i].off + Cells(s.w, s.a[i].sz)
\* somebody else uses the memory that i owns
Lent(s, i) == s.a[i].own /\ \E j \in A \ {i} : s.a[j].blk = s.a[i].blk
Defined(s, e) ==
  CASE e.op = "size" -> s.d # 0 /\ ~HasZero(e.sz)
    [] e.op = "kind" -> s.d # 0
    [] e.op = "attach" -> Attached(s, e.i) \/ (~HasZero(s.a[e.i].sz) /\ e.o + Cells(s.w, s.a[e.i].sz) <= ExtLen /\ e.o % s.w = 0)
    [] e.op \in {"fresh", "copy", "make"} -> ~Member(s, e.i) /\ (e.op = "copy" => e.i # e.j) /\ (e.op = "make" => ~HasZero(e.sz))
    [] e.op = "set" -> Attached(s, e.i) /\ e.p <= Prod(s.a[e.i].sz)
    [] e.op = "assign" -> ~Overlap(s, e.i, e.j)
    [] e.op = "add" -> Refused(s, e) \/ ~Overlap(s, e.i, e.j)
    [] e.op = "push" -> ~Member(s, e.i) /\ s.c[e.k].blk = 0
    [] e.op \in {"calloc", "cattach"} -> s.c[e.k].blk # 0 \/
         (/\ s.c[e.k].ch # <<>> /\ \A q \in 1..Len(s.c[e.k].ch) : ~Attached(s, s.c[e.k].ch[q]) /\ ~HasZero(s.a[s.c[e.k].ch[q]].sz)
          /\ e.op = "cattach" => e.o + Total(s, s.c[e.k].ch) <= ExtLen /\ e.o % s.w = 0)
    [] e.op = "ccopy" -> /\ e.k # e.l /\ s.c[e.k].blk # 0 /\ s.c[e.l].blk # 0 /\ s.c[e.k].blk # s.c[e.l].blk
                         /\ Total(s, s.c[e.k].ch) = Total(s, s.c[e.l].ch)
                         /\ s.c[e.k].off + Total(s, s.c[e.k].ch) <= Len(s.m[s.c[e.k].blk]) /\ s.c[e.l].off + Total(s, s.c[e.l].ch) <= Len(s.m[s.c[e.l].blk])
    [] OTHER -> TRUE
=============================================================================
