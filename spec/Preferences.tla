----------------------------- MODULE Preferences -----------------------------
(* Files of "key = value" lines, as sequences of characters.                   *)
EXTENDS Integers, Sequences, FiniteSets
LF == "\n"
SP == " "
RECURSIVE SplitAt(_, _, _)
\* the lines of t from position i, cur being the line under way; text after the last line feed is a line if not empty
SplitAt(t, i, cur) == IF i > Len(t) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                      ELSE IF t[i] = LF THEN <<cur>> \o SplitAt(t, i + 1, <<>>)
                      ELSE SplitAt(t, i + 1, Append(cur, t[i]))
Lines(t) == SplitAt(t, 1, <<>>)
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] = SP THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] = SP THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
EqPos(s) == IF \E i \in 1..Len(s) : s[i] = "=" THEN CHOOSE i \in 1..Len(s) : s[i] = "=" /\ \A j \in 1..(i - 1) : s[j] # "=" ELSE 0
Line(s) == IF s = <<>> \/ s[1] = "#" THEN [k |-> "skip"]
           ELSE IF Trim(s) = <<>> \/ LTrim(s)[1] = "#" THEN [k |-> "open"]    \* blanks only, or an indented comment: not settled by the documentation
           ELSE IF EqPos(s) = 0 \/ Trim(SubSeq(s, 1, EqPos(s) - 1)) = <<>> THEN [k |-> "bad"]
           ELSE [k |-> "set", n |-> Trim(SubSeq(s, 1, EqPos(s) - 1)), v |-> Trim(SubSeq(s, EqPos(s) + 1, Len(s)))]
Parsed(t) == LET L == Lines(t) IN [i \in 1..Len(L) |-> Line(L[i])]
Unsettled(P) == \E i \in 1..Len(P) : P[i].k = "open"
Rejected(P) == \E i \in 1..Len(P) : P[i].k = "bad"
Has(P, key) == \E i \in 1..Len(P) : P[i].k = "set" /\ P[i].n = key
Get(P, key) == P[CHOOSE i \in 1..Len(P) : P[i].k = "set" /\ P[i].n = key /\ \A j \in 1..(i - 1) : ~(P[j].k = "set" /\ P[j].n = key)].v

\* numbers written in full
Dig(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
Signed(s) == s # <<>> /\ s[1] \in {"-", "+"}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Sgn(s) == IF s # <<>> /\ s[1] = "-" THEN -1 ELSE 1
AllDig(s) == s # <<>> /\ \A i \in 1..Len(s) : Dig(s[i])
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + Val(s[Len(s)])
IsInt(s) == AllDig(Body(s)) /\ Len(Body(s)) <= 6
IntOf(s) == Sgn(s) * Num(Body(s))
\* decimals with up to three places, in thousandths
Point(s) == IF \E i \in 1..Len(s) : s[i] = "." THEN CHOOSE i \in 1..Len(s) : s[i] = "." ELSE 0
IsDec(s) == IsInt(s) \/ LET b == Body(s) p == Point(b) IN p > 1 /\ p < Len(b) /\ AllDig(SubSeq(b, 1, p - 1)) /\ AllDig(SubSeq(b, p + 1, Len(b))) /\ p <= 6 /\ Len(b) - p <= 3
Milli(s) == IF IsInt(s) THEN 1000 * IntOf(s)
            ELSE LET b == Body(s) p == Point(b) f == SubSeq(b, p + 1, Len(b)) IN
                 Sgn(s) * (1000 * Num(SubSeq(b, 1, p - 1)) + Num(f) * (CASE Len(f) = 1 -> 100 [] Len(f) = 2 -> 10 [] OTHER -> 1))
Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "K" -> "k" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "R" -> "r" [] c = "E" -> "e" [] OTHER -> c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
=============================================================================
