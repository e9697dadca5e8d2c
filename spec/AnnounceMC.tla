----------------------------- MODULE AnnounceMC -----------------------------
(* Announce.tla against an independent account of what was asked; generation. *)
EXTENDS Announce, FiniteSets, Json, TLC
CONSTANTS Depth, MaxOps
VARIABLES s, hist
vars == <<s, hist>>
Do2(e) == s' = Do(s, e) /\ hist' = Append(hist, e)
T(n) == CASE n = 1 -> "a" [] n = 2 -> "b" [] n = 3 -> "c" [] n = 4 -> "d" [] n = 5 -> "e" [] n = 6 -> "f" [] n = 7 -> "g" [] OTHER -> "h"
\* every operation carries a text of its own
Init == s = Fresh /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ LET t == T(Len(hist) + 1) IN
           \/ \E o \in {"start", "end", "msg"} : Do2([op |-> o, t |-> t])
           \/ Do2([op |-> "quiet"])
           \/ Do2([op |-> "msg", t |-> t, v |-> 1])
           \/ Do2([op |-> "start", t |-> t, v |-> 1])
           \/ Do2([op |-> "verbosity", v |-> 1 - s.verb])
Spec == Init /\ [][Next]_vars

\* the number of open blocks before operation k
RECURSIVE VerbAt(_), LevAt(_)
VerbAt(k) == IF k = 1 THEN 0 ELSE IF hist[k - 1].op = "verbosity" THEN hist[k - 1].v ELSE VerbAt(k - 1)
Heard(k) == "v" \notin DOMAIN hist[k] \/ hist[k].v <= VerbAt(k)
LevAt(k) == IF k = 1 THEN 0 ELSE LET b == LevAt(k - 1) o == hist[k - 1].op IN
  IF ~Heard(k - 1) THEN b ELSE IF o = "start" THEN b + 1 ELSE IF o \in {"end", "quiet"} /\ b > 0 THEN b - 1 ELSE b
Speaks(k) == hist[k].op \in {"start", "msg", "end"} /\ Heard(k) /\ (hist[k].op # "end" \/ LevAt(k) > 0)
All == IF s.open THEN Append(s.lines, s.cur) ELSE s.lines
Ends(x, t) == Len(x) >= Len(t) /\ SubSeq(x, Len(x) - Len(t) + 1, Len(x)) = t
\* an end is joined to its opening line exactly if nothing was said in between
Prev(k) == LET P == {j \in 1..(k - 1) : Speaks(j)} IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A i \in P : i <= j
Joined(k) == hist[k].op = "end" /\ Prev(k) # 0 /\ hist[Prev(k)].op = "start"
Own(k) == {i \in 1..Len(All) : All[i] = Dots(LevAt(k)) \o hist[k].t}
With(k) == {i \in 1..Len(All) : \E j \in {Prev(k)} : All[i] = Dots(LevAt(j)) \o hist[j].t \o ".. " \o hist[k].t}
JoinedTo(k) == \E j \in (k + 1)..Len(hist) : Speaks(j) /\ Prev(j) = k /\ Joined(j)
EachOnce == \A k \in 1..Len(hist) : Speaks(k) =>
   /\ Cardinality({i \in 1..Len(All) : \E q \in 1..Len(All[i]) : SubSeq(All[i], q, q) = hist[k].t}) = 1
   /\ IF Joined(k) THEN Cardinality(With(k)) = 1
      ELSE IF hist[k].op = "start" /\ JoinedTo(k) THEN Own(k) = {}
      ELSE Cardinality(Own(k)) = 1
NoMore == Len(All) = Cardinality({k \in 1..Len(hist) : Speaks(k) /\ ~Joined(k)})
Nesting == s.lev = LevAt(Len(hist) + 1)

\* generation
Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
Texts == {"Constructing grid", "Done", "100% done", "%s%d%n", "x", "WARNING: a, b and c", "Step 0001-01-01 00:00:00.000000", "..", "", "two words",
          "a message much longer than the sixty characters of a banner line, and then some more"}
LongText == Dashes(1500)
Gen(e) == s' = Do(s, e) /\ hist' = Append(hist, e)
NextG == \E k \in {Rnd(1..16)}, t \in {Rnd(Texts)}, v \in {Rnd(-1..3)}, z \in {Rnd(1..20)} :
  CASE s.open /\ hist[Len(hist)].op = "quiet" /\ k > 4 -> Gen([op |-> "msg", t |-> t])
    [] s.open /\ hist[Len(hist)].op = "quiet" -> Gen([op |-> "start", t |-> t])
    [] k \in 1..4 -> IF s.lev >= MaxLevel THEN Gen([op |-> "end", t |-> t]) ELSE Gen([op |-> "start", t |-> t])
    [] k \in 5..7 -> Gen([op |-> "end", t |-> t])
    [] k = 8 -> Gen([op |-> "quiet"])
    [] k \in 9..11 -> Gen([op |-> "msg", t |-> IF z = 1 THEN LongText ELSE t])
    [] k = 12 -> Gen([op |-> "msg", t |-> t, v |-> v])
    [] k = 13 -> IF s.lev >= MaxLevel THEN Gen([op |-> "end", t |-> t, v |-> v]) ELSE Gen([op |-> "start", t |-> t, v |-> v])
    [] k = 14 -> Gen([op |-> "end", t |-> t, v |-> v])
    [] k = 15 -> Gen([op |-> "verbosity", v |-> v])
    [] OTHER -> Gen([op |-> "banner", t |-> t])
SpecG == Init /\ [][NextG]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson(hist))
=============================================================================
