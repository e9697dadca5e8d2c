------------------------------ MODULE ArraysMC ------------------------------
EXTENDS Arrays, Json, TLC
CONSTANTS Depth, Sizes, MaxNext
VARIABLES s, hist
vars == <<s, hist>>
Init == \E d \in {1}, w \in {1, 2} : s = Fresh(d, w) /\ hist = <<>>
Szs == {<<n>> : n \in Sizes}
\* only what decides ownership; contents are compared in the recordings
Ops == [op : {"size", "alloc", "make"}, i : A, sz : Szs] \cup [op : {"attach"}, i : A, b : {1}, o : {0}] \cup [op : {"detach", "free", "fresh"}, i : A]
       \cup [op : {"copy", "assign"}, i : A, j : A] \cup [op : {"push"}, k : C, i : A] \cup [op : {"calloc", "cdetach"}, k : C]
       \cup [op : {"cattach"}, k : C, b : {1}, o : {0}]
Next == /\ UNCHANGED hist /\ \E e \in Ops : Defined(s, e) /\ s' = Do(s, e)
        /\ s'.next <= MaxNext
Spec == Init /\ [][Next]_vars
\* at most one owner of every block, none of the outside buffers, no block without owner
OwnedOnce == (\A b \in Live(s) : Owners(s, b) = 1) /\ \A b \in Ext : Owners(s, b) = 0
NoDangling == \A i \in A : s.a[i].blk # 0 => s.a[i].blk \in DOMAIN s.m /\ s.a[i].off + Cells(s.w, s.a[i].sz) <= Len(s.m[s.a[i].blk])
Sized == \A i \in A : s.a[i].own => Len(s.m[s.a[i].blk]) = Cells(s.w, s.a[i].sz)
\* chunks of a container placed in it do not overlap
Disjoint == \A k \in C : \A p, q \in 1..Len(s.c[k].ch) : LET i == s.c[k].ch[p] j == s.c[k].ch[q] IN
   p < q /\ s.c[k].blk # 0 /\ s.a[i].blk = s.c[k].blk /\ s.a[j].blk = s.c[k].blk /\ ~s.a[i].own /\ ~s.a[j].own /\ s.c[k].own => s.a[i].off + Cells(s.w, s.a[i].sz) <= s.a[j].off
\* an operation on one array changes only the memory it uses
Small == \A b \in DOMAIN s.m : \A p \in DOMAIN s.m[b] : s.m[b][p] < 1000

Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
GSize(d, z) == CASE d = 1 -> Rnd([1..1 -> {1, 2, 3, 5, 8}]) [] OTHER -> Rnd([1..d -> {1, 2, 3}])
GSize0(d) == IF Rnd(1..3) = 1 THEN Zeros(d) ELSE IF Rnd(1..3) = 1 THEN Rnd([1..d -> {0, 1, 2, 3}]) ELSE GSize(d, 0)
CONSTANTS Ds, Ws
InitG == \E d \in Ds, w \in Ws : s = Fresh(d, w) /\ hist = <<[op |-> "begin", d |-> d, w |-> w]>>
Big == \E b \in DOMAIN s.m : \E p \in DOMAIN s.m[b] : s.m[b][p] > 100000 \/ (s.m[b][p] < -100000 /\ s.m[b][p] # U)
NextG == \E q \in {Rnd(1..30)}, i \in {Rnd(A)}, j \in {Rnd(A)}, k \in {Rnd(C)}, sz \in {GSize(s.d, 0)}, sz0 \in {GSize0(s.d)}, b \in {Rnd(Ext)}, o \in {Rnd({0, 0, 2, 4, 6, 10})},
            x \in {Rnd({0, 1, 2, -1, 3})}, p \in {Rnd(1..6)}, t \in {Rnd(0..2)}, u \in {Rnd({0, 1, 3})} :
  LET e ==
   CASE q \in 1..2 -> [op |-> "size", i |-> i, sz |-> sz]
     [] q \in 3..4 -> [op |-> "alloc", i |-> i, sz |-> sz0]
     [] q \in 6..7 -> [op |-> "attach", i |-> i, b |-> b, o |-> o]
     [] q = 8 -> [op |-> "detach", i |-> i]
     [] q = 9 -> [op |-> "free", i |-> i]
     [] q = 10 -> [op |-> "fresh", i |-> i]
     [] q = 11 -> [op |-> "make", i |-> i, sz |-> sz]
     [] q \in 12..13 -> [op |-> "copy", i |-> i, j |-> j]
     [] q \in {14, 5, 23} -> IF s.d = 0 THEN [op |-> "zero", i |-> i] ELSE [op |-> "kind", i |-> i, ty |-> t, lo |-> u]
     [] q \in 15..17 -> [op |-> "assign", i |-> i, j |-> j]
     [] q = 18 -> [op |-> "zero", i |-> i]
     [] q = 19 -> IF Big THEN [op |-> "zero", i |-> i] ELSE [op |-> "scale", i |-> i, x |-> x]
     [] q = 20 -> IF Big THEN [op |-> "zero", i |-> i] ELSE [op |-> "add", i |-> i, j |-> j, x |-> x]
     [] q \in 21..22 -> [op |-> "set", i |-> i, p |-> p, x |-> 7 * Len(hist) + x]
     [] q \in 24..25 -> IF s.c[k].blk = 0 /\ Len(s.c[k].ch) < 2 THEN [op |-> "push", k |-> k, i |-> i] ELSE [op |-> "calloc", k |-> k]
     [] q = 26 -> [op |-> "calloc", k |-> k]
     [] q = 27 -> [op |-> "cattach", k |-> k, b |-> b, o |-> o]
     [] q = 28 -> [op |-> "cdetach", k |-> k]
     [] OTHER -> [op |-> "ccopy", k |-> k, l |-> IF k = 1 THEN 2 ELSE 1]
  IN IF Defined(s, e) THEN s' = Do(s, e) /\ hist' = Append(hist, e)
     ELSE IF q \in {26, 27} /\ s.c[k].ch # <<>> THEN      \* clear the way for the container
          \E n \in {Rnd(1..Len(s.c[k].ch))} : LET f == [op |-> "detach", i |-> s.c[k].ch[n]] g == [op |-> IF s.d = 0 THEN "detach" ELSE "size", i |-> f.i, sz |-> sz] IN
          IF Attached(s, f.i) THEN s' = Do(s, f) /\ hist' = Append(hist, f) ELSE s' = Do(s, g) /\ hist' = Append(hist, g)
     ELSE LET g == [op |-> "alloc", i |-> i, sz |-> sz] IN s' = Do(s, g) /\ hist' = Append(hist, g)
SpecG == InitG /\ [][NextG]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson(hist))
=============================================================================
