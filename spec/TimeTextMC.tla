----------------------------- MODULE TimeTextMC -----------------------------
(* The two halves of TimeText.tla against each other, and generation of texts. *)
EXTENDS TimeText, Json
CONSTANTS Alphabet, MaxLen, Mode
VARIABLES txt, form
Init == txt = <<>> /\ form = "all"
Next == UNCHANGED form /\ Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c)
Spec == Init /\ [][Next]_<<txt, form>>
\* no text is both one of the documented forms and something to be refused; every read value is normal
Sound == LET r == Read("noleap", txt) IN
  /\ r.k \in {"reject", "unspecified", "fixed", "delta", "empty"}
  /\ r.k = "fixed" => Valid("noleap", r.t)
  /\ r.k = "delta" => r.t.s < 86400 /\ r.t.u < 1000000 /\ r.t.m < 12
Emit == PrintT(ToJson(txt))

\* print-read laws over a lattice of dates and durations
Dates == {[y |-> y, m |-> m, d |-> d, s |-> s, u |-> u] : y \in {0, 7, 1999, 2000, 9999}, m \in {0, 1, 8, 9, 11}, d \in {0, 8, 9, 27}, s \in {0, 59, 3600, 86399}, u \in {0, 1, 500000, 999999}}
Durs == {[y |-> y, m |-> m, d |-> d, s |-> s, u |-> u] : y \in {0, 1, 12}, m \in {0, 1, 11}, d \in {0, 1, 40, 365}, s \in {0, 1, 86399}, u \in {0, 1, 999999}}
Fix(t) == [k |-> "fixed", t |-> t]
RoundTrip ==
  /\ \A c \in {"noleap", "standard"} : \A t \in Dates :
       /\ ReadLong(c, LongText(t)) = Fix(t)
       /\ Read(c, FullText(t)) = Fix(t)
       /\ Read(c, ShortText(t)) = Fix([t EXCEPT !.u = 0])
       /\ Read(c, DateText(t)) = Fix([t EXCEPT !.u = 0, !.s = 0])
  /\ \A t \in Durs : Read("noleap", FreeText(t)) = (IF t = Zero THEN [k |-> "empty", t |-> Zero] ELSE [k |-> "delta", t |-> t])
ASSUME Mode = "laws" => RoundTrip

\* longer texts assembled from pieces
\* state-level, so that TLC does not evaluate a random choice once and keep it
Rnd(S) == RandomElement(IF txt = <<>> THEN S ELSE S)
Pieces == {<<"1">>, <<"2">>, <<"0", "3">>, <<"2", "0", "0", "0">>, <<"1", "2">>, <<"5", "9">>, <<"9", "0">>, <<"2", "5", "0", "0", "0", "0">>, <<"0", "0", "0", "0", "0", "1">>,
           <<"-">>, <<":">>, <<".">>, <<" ">>, <<"y">>, <<"M">>, <<"d">>, <<"h">>, <<"m">>, <<"s">>, <<"u">>, <<"H">>, <<"Y">>, <<"x">>}
Goods == {<<"y">>, <<"M">>, <<"d">>, <<"h">>, <<"m">>, <<"s">>, <<"u">>}
Nums(z) == {<<DigitOf(Rnd(0..9))>>, Pad(Rnd(0..99), 2), Pad(Rnd(1..9999), 4), Pad(Rnd(1..12), 2), Pad(Rnd(1..28), 2), Pad(Rnd(0..59), 2), Pad(Rnd(0..999999), 6)}
InitP == txt = <<>> /\ form \in {"any", "free", "date", "time", "datetime"}
Sep(f, k) == IF f = "free" THEN Rnd(Goods) ELSE IF f = "date" THEN <<"-">>
             ELSE IF f = "time" THEN (IF k >= 3 THEN <<".">> ELSE <<":">>)
             ELSE IF f = "datetime" THEN (IF k = 1 \/ k = 2 THEN <<"-">> ELSE IF k = 3 THEN Rnd({<<"-">>, <<" ">>}) ELSE IF k < 6 THEN <<":">> ELSE <<".">>)
             ELSE Rnd(Pieces)
NextP == /\ UNCHANGED form
         /\ LET lev == TLCGet("level") IN
            \E a \in {Rnd(Nums(0))}, b \in {Sep(form, lev)}, z \in {Rnd(1..4)} :
            txt' = txt \o (IF form = "any" THEN (IF z = 1 THEN b ELSE a \o b) ELSE a \o (IF z = 1 /\ lev > 1 THEN <<>> ELSE b))
EmitP == PrintT(ToJson(txt))
SpecP == InitP /\ [][NextP]_<<txt, form>>

\* mutations of the long form
LongOnes == {LongText([y |-> 2000, m |-> 1, d |-> 28, s |-> 86399, u |-> 999999]), LongText([y |-> 1, m |-> 11, d |-> 30, s |-> 7, u |-> 12]), LongText([Zero EXCEPT !.y = 9999])}
Mutants(s) == {[s EXCEPT ![i] = c] : i \in 1..Len(s), c \in {"-", "x", " ", ":", "0", "3", "9"}} \cup {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
              \cup {SubSeq(s, 1, i - 1) \o <<c>> \o SubSeq(s, i, Len(s)) : i \in 1..Len(s), c \in {"0", "-", "1"}}
InitL == txt = <<>> /\ form = "long"
NextL == txt = <<>> /\ UNCHANGED form /\ \E s \in LongOnes : \E q \in Mutants(s) \cup {s} : txt' = q /\ PrintT(ToJson(q))
SpecL == InitL /\ [][NextL]_<<txt, form>>
=============================================================================
