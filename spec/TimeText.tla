------------------------------ MODULE TimeText ------------------------------
(* Text forms of dates and durations (src/base/TimeObj, FromFormattedString's  *)
(* documented formats). A text is a sequence of one-character strings.         *)
EXTENDS Calendar, FiniteSets
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> CHOOSE n \in 0..9 : <<"0","1","2","3","4","5","6","7","8","9">>[n + 1] = c]
DigitOf(n) == <<"0","1","2","3","4","5","6","7","8","9">>[n + 1]
Units == {"y", "M", "d", "h", "m", "s", "u"}
Seps == {"-", " ", ":", "."}

RECURSIVE Pad(_, _)
Pad(n, w) == IF w <= 1 /\ n < 10 THEN <<DigitOf(n)>> ELSE Append(Pad(n \div 10, w - 1), DigitOf(n % 10))

\* ---- printing
DateText(t)  == Pad(t.y, 4) \o <<"-">> \o Pad(t.m + 1, 2) \o <<"-">> \o Pad(t.d + 1, 2)
ShortText(t) == DateText(t) \o <<"-">> \o Pad(t.s, 5)
LongText(t)  == ShortText(t) \o <<"-">> \o Pad(t.u, 6)
FullText(t)  == DateText(t) \o <<" ">> \o Pad(t.s \div 3600, 2) \o <<":">> \o Pad((t.s % 3600) \div 60, 2) \o <<":">> \o Pad(t.s % 60, 2)
                \o (IF t.u = 0 THEN <<>> ELSE <<".">> \o Pad(t.u, 6))
FreeText(t)  == LET P(n, c) == IF n = 0 THEN <<>> ELSE Pad(n, 1) \o <<c>>
                IN P(t.y, "y") \o P(t.m, "M") \o P(t.d, "d") \o P(t.s, "s") \o P(t.u, "u")

\* ---- reading: the automaton that cuts a text into numbers and separators
RECURSIVE Cut(_, _, _)
Cut(s, num, acc) ==
  IF s = <<>> THEN Append(acc, [num |-> num, sep |-> ""])
  ELSE IF Head(s) \in Digits THEN Cut(Tail(s), Append(num, Head(s)), acc)
  ELSE Cut(Tail(s), <<>>, Append(acc, [num |-> num, sep |-> Head(s)]))
RECURSIVE Num(_)
Num(n) == IF n = <<>> THEN 0 ELSE 10 * Num(SubSeq(n, 1, Len(n) - 1)) + DigitVal[n[Len(n)]]

Chars(s) == {s[i] : i \in 1..Len(s)}
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})

\* what must be refused: foreign characters, mixed forms, repeated or dangling units, too many fields
MustReject(s) ==
  \/ ~(Chars(s) \subseteq (Digits \cup Units \cup Seps))
  \/ Chars(s) \cap Units # {} /\ Chars(s) \cap Seps # {}
  \/ \E u \in Units : Count(s, u) > 1
  \/ Chars(s) \cap Units # {} /\ s[Len(s)] \in Digits
  \/ \E i, j \in 1..Len(s) : i < j /\ s[i] \in {":", "."} /\ s[j] \in {"-", " "}
  \/ Count(s, "-") + Count(s, " ") > 3
  \/ Count(s, ":") + Count(s, ".") > 3

Rejected == [k |-> "reject"]
Unspec == [k |-> "unspecified"]

UnitField(toks, u) == LET S == {i \in 1..Len(toks) : toks[i].sep = u} IN IF S = {} THEN 0 ELSE Num(toks[CHOOSE i \in S : TRUE].num)
Read(cal, s) ==
  LET toks == Cut(s, <<>>, <<>>)
      n == Len(toks)
      full == \A i \in 1..n : toks[i].num # <<>> /\ Len(toks[i].num) <= 6
      seps == [i \in 1..(n - 1) |-> toks[i].sep]
      V(i) == Num(toks[i].num)
      Date(nf, y, m, d, sec, u) ==
          LET t == [y |-> y, m |-> m - 1, d |-> d - 1, s |-> sec, u |-> u]
          IN IF Valid(cal, t) /\ InRange(t) THEN [k |-> "fixed", t |-> t] ELSE Unspec
      Clock(h, mi, se) == IF h < 24 /\ mi < 60 /\ se < 60 THEN h * 3600 + mi * 60 + se ELSE 86400
      IsTime(q) == q \in {<<":">>, <<":", ":">>, <<":", ":", ".">>}
      TimeAt(k) == LET h == V(k)  mi == V(k + 1)  se == IF n > k + 1 THEN V(k + 2) ELSE 0 IN Clock(h, mi, se)
      MicAt(k)  == IF n > k + 2 THEN (IF Len(toks[k + 3].num) = 6 THEN V(k + 3) ELSE 1000000) ELSE 0
  IN IF s = <<>> THEN [k |-> "empty", t |-> Zero]
     ELSE IF MustReject(s) THEN Rejected
     ELSE IF Chars(s) \cap Units # {} THEN
       IF \A i \in 1..(n - 1) : toks[i].num # <<>> /\ Len(toks[i].num) <= 4 THEN
         [k |-> "delta", t |-> NormDuration([y |-> UnitField(toks, "y"), m |-> UnitField(toks, "M"), d |-> UnitField(toks, "d"),
             s |-> 3600 * UnitField(toks, "h") + 60 * UnitField(toks, "m") + UnitField(toks, "s"), u |-> UnitField(toks, "u")])]
       ELSE IF \A i \in 1..(n - 1) : toks[i].num # <<>> /\ Len(toks[i].num) <= 6 /\ (toks[i].sep = "h" => Len(toks[i].num) <= 4) THEN
         [k |-> "delta", t |-> NormDuration([y |-> UnitField(toks, "y"), m |-> UnitField(toks, "M"), d |-> UnitField(toks, "d"),
             s |-> 3600 * UnitField(toks, "h") + 60 * UnitField(toks, "m") + UnitField(toks, "s"), u |-> UnitField(toks, "u")])]
       ELSE Unspec
     ELSE IF ~full THEN Unspec
     ELSE IF seps = <<"-">> THEN Date(2, V(1), V(2), 1, 0, 0)
     ELSE IF seps = <<"-", "-">> THEN Date(3, V(1), V(2), V(3), 0, 0)
     ELSE IF seps = <<"-", "-", "-">> THEN Date(4, V(1), V(2), V(3), V(4), 0)
     ELSE IF IsTime(seps) THEN Date(3, 0, 1, 1, TimeAt(1), MicAt(1))
     ELSE IF n > 4 /\ SubSeq(seps, 1, 2) = <<"-", "-">> /\ seps[3] \in {"-", " "} /\ IsTime(SubSeq(seps, 4, n - 1))
          THEN Date(3, V(1), V(2), V(3), TimeAt(4), MicAt(4))
     ELSE Unspec

\* ---- the long form, 23 characters, fixed columns
ReadLong(cal, s) ==
  LET dash == {5, 8, 11, 17}
      F(a, b) == Num(SubSeq(s, a, b))
  IN IF Len(s) # 23 THEN Rejected
     ELSE IF \E i \in 1..23 : IF i \in dash THEN s[i] # "-" ELSE s[i] \notin Digits THEN Rejected
     ELSE LET t == [y |-> F(1, 4), m |-> F(6, 7) - 1, d |-> F(9, 10) - 1, s |-> F(12, 16), u |-> F(18, 23)]
          IN IF Valid(cal, t) THEN [k |-> "fixed", t |-> t] ELSE Rejected
=============================================================================
