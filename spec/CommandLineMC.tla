---------------------------- MODULE CommandLineMC ----------------------------
(* CommandLine.tla against lines assembled from known groups; generation.      *)
EXTENDS CommandLine, Json, TLC
CONSTANTS MaxGroups, Depth, Opts, Texts
VARIABLES groups, hist
vars == <<groups, hist>>
\* a group is an option with its value, a flag, or a stray word
Group == [o : {i \in Idx : Declared[i].n \in Opts}, x : Texts] \cup [o : {0}, x : {"stray", "--", "---", "--nope"}]
Words(g) == IF g.o = 0 THEN <<g.x>> ELSE IF Declared[g.o].t = "bool" THEN <<Declared[g.o].n>> ELSE <<Declared[g.o].n, g.x>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Words(Head(q)) \o Flat(Tail(q))
Init == groups = <<>> /\ hist = <<>>
Next == UNCHANGED hist /\ Len(groups) < MaxGroups /\ \E g \in Group : groups' = Append(groups, g)
Spec == Init /\ [][Next]_vars
R == Outcome(Flat(groups))
LastOf(i) == LET S == {k \in 1..Len(groups) : groups[k].o = i} IN IF S = {} THEN <<>> ELSE
  LET k == CHOOSE k \in S : \A j \in S : j <= k IN IF Declared[i].t = "bool" THEN <<"yes">> ELSE <<groups[k].x>>
Faithful == /\ R.short = 0
            /\ \A i \in Idx : R.set[i] = LastOf(i)
            /\ Len(R.unknown) = Cardinality({k \in 1..Len(groups) : groups[k].o = 0})
\* distinct options may come in any order
Swap(q, k) == [q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]
OrderFree == \A k \in 1..(Len(groups) - 1) : groups[k].o # groups[k + 1].o => Outcome(Flat(Swap(groups, k))).set = R.set
\* taking the last value away is noticed
Lacking == groups # <<>> /\ groups[Len(groups)].o # 0 /\ Declared[groups[Len(groups)].o].t # "bool"
           => LET w == Flat(groups) IN Outcome(SubSeq(w, 1, Len(w) - 1)).short = groups[Len(groups)].o

Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
TextOf(ty) == LET S == {i \in 1..Len(Values) : Fits(ty, Values[i].x)} IN Values[Rnd(S)].x
Piece(z) == LET k == Rnd(1..20) i == Rnd(Idx) IN
  CASE k = 1 -> <<Rnd({"stray", "--", "---", "--nope", "-n", "--nam", "--names", "--N"})>>
    [] k = 2 -> <<Declared[i].n>>
    [] OTHER -> LET d == Declared[i] IN IF d.t = "bool" THEN <<d.n>> ELSE <<d.n, TextOf(d.t)>>
RECURSIVE Line(_)
Line(n) == IF n = 0 THEN <<>> ELSE Piece(n) \o Line(n - 1)
NextG == UNCHANGED groups /\ \E a \in {Line(Rnd(0..8))} : hist' = Append(hist, a)
SpecG == Init /\ [][NextG]_vars
EmitG == TLCGet("level") = Depth => PrintT(ToJson(hist))
\* exhaustive: every line of up to MaxGroups words over a small vocabulary
NextE == Len(hist) < MaxGroups /\ UNCHANGED groups /\ \E w \in Texts \cup Opts : hist' = Append(hist, w)
SpecE == Init /\ [][NextE]_vars
EmitE == PrintT(ToJson(hist))
=============================================================================
