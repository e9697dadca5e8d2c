---------------------------- MODULE PreferencesMC ----------------------------
(* The reader of Preferences.tla against a writer, and generation of files.    *)
EXTENDS Preferences, Json, TLC
CONSTANTS Alphabet, MaxLen, Depth, Mode
VARIABLES txt, want, hist
vars == <<txt, want, hist>>
\* a writer: entries, comments and empty lines with free spacing; what was written is known
Names == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", SP, "b">>}
Vals == {<<>>, <<"1">>, <<"a", "=", "b">>, <<"#">>, <<"1", SP, "2">>}
Sp == {<<>>, <<SP>>, <<SP, SP>>}
Init == txt = <<>> /\ want = <<>> /\ hist = <<>>
Next == /\ Len(want) < MaxLen /\ UNCHANGED hist
        /\ \/ \E n \in Names, v \in Vals, s \in Sp, r \in Sp :
              /\ txt' = txt \o s \o n \o r \o <<"=">> \o r \o v \o s \o <<LF>>
              /\ want' = Append(want, [n |-> n, v |-> v])
           \/ \E c \in {<<"#", "a", "=", "9", LF>>, <<LF>>} : txt' = txt \o c /\ want' = Append(want, [n |-> <<>>, v |-> <<>>])
Spec == Init /\ [][Next]_vars
Knows(n) == {i \in 1..Len(want) : want[i].n = n}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
ReadsBack == LET P == Parsed(txt) IN ~Rejected(P) /\ ~Unsettled(P) /\
  \A n \in Names : /\ Has(P, n) = (Knows(n) # {})
                   /\ Has(P, n) => Get(P, n) = want[First(Knows(n))].v
\* every short text is either settled one way or marked as not settled
InitE == txt = <<>> /\ want = <<>> /\ hist = <<>>
NextE == Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c) /\ UNCHANGED <<want, hist>>
SpecE == InitE /\ [][NextE]_vars
EmitE == PrintT(ToJson(txt))

Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
Keys == {<<"a">>, <<"b">>, <<"a", "b">>, <<"k", "e", "y">>, <<"K", "E", "Y">>, <<"x", SP, "y">>}
Digit(z) == Rnd({"0", "1", "2", "7", "9"})
Values(z) == {<<>>, <<Digit(0)>>, <<"-", Digit(1), Digit(2)>>, <<Digit(0), ".", Digit(1), Digit(2)>>, <<"-", "0", ".", "5">>, <<"T", "R", "U", "E">>, <<"/", "t", "m", "p">>,
              <<"a", "=", "b">>, <<"1", SP, "2">>, <<"a", SP, "#", "b">>, <<"1", "2", "3", "4", "5", "6">>}
Blank(z) == Rnd({<<>>, <<>>, <<SP>>, <<SP, SP, SP>>})
RECURSIVE Long(_)
Long(n) == IF n = 0 THEN <<>> ELSE <<"b">> \o Long(n - 1)
Entry(z) == Blank(0) \o Rnd(Keys) \o Blank(1) \o <<"=">> \o Blank(2) \o (IF Rnd(1..15) = 1 THEN Long(300) ELSE Rnd(Values(0))) \o Blank(3)
OneLine(z) == LET k == Rnd(1..20) IN
  CASE k = 1 -> <<>> [] k = 2 -> <<"#", "a", "=", "1">> [] k = 3 -> <<"#">> [] OTHER -> Entry(0)
BadLine(z) == Rnd({<<"=", "1">>, <<SP, "=", "1">>, <<"a">>, <<"a", SP, "1">>})
NextG == /\ UNCHANGED want
         /\ \E x \in {IF Rnd(1..25) = 1 THEN BadLine(0) ELSE OneLine(0)}, y \in {Rnd(1..8)} :
            /\ txt' = (IF Len(hist) % 8 = 0 THEN <<>> ELSE txt) \o x \o (IF y = 1 /\ Len(hist) % 8 = 7 THEN <<>> ELSE <<LF>>)
            /\ hist' = Append(hist, txt')
SpecG == Init /\ [][NextG]_vars
EmitG == TLCGet("level") = Depth => PrintT(ToJson(hist))
=============================================================================
