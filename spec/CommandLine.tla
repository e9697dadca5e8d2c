----------------------------- MODULE CommandLine -----------------------------
(* Command lines built from declared options: each option with its value       *)
(* (booleans without), later occurrences replacing earlier ones.               *)
EXTENDS Integers, Sequences, FiniteSets
\* the declared options of the driver, in order
Declared == <<[n |-> "--n", t |-> "int"], [n |-> "--name", t |-> "string"], [n |-> "--verbose", t |-> "bool"], [n |-> "--v", t |-> "bool"],
              [n |-> "--dt", t |-> "delta"], [n |-> "--nu", t |-> "double"], [n |-> "--start", t |-> "fixed"], [n |-> "--nn", t |-> "int"], [n |-> "--out", t |-> "string"], [n |-> "--ztop", t |-> "double"]>>
Idx == 1..Len(Declared)
\* values: text and what each type of option makes of it (integers as they are, numbers in thousandths, times as fields)
None == <<>>
Values == <<
  [x |-> "12",     int |-> <<12>>,   dbl |-> <<12000>>,  time |-> None],
  [x |-> "-7",     int |-> <<-7>>,   dbl |-> <<-7000>>,  time |-> None],
  [x |-> "0",      int |-> <<0>>,    dbl |-> <<0>>,      time |-> None],
  [x |-> "1000000", int |-> <<1000000>>, dbl |-> <<1000000000>>, time |-> None],
  [x |-> "2.5",    int |-> None, dbl |-> <<2500>>,   time |-> None],
  [x |-> "-0.125", int |-> None, dbl |-> <<-125>>,   time |-> None],
  [x |-> "1e3",    int |-> None, dbl |-> <<1000000>>, time |-> None],
  [x |-> "200s",   int |-> None, dbl |-> None,   time |-> <<0, 0, 0, 200, 0>>],
  [x |-> "6h",     int |-> None, dbl |-> None,   time |-> <<0, 0, 0, 21600, 0>>],
  [x |-> "1d",     int |-> None, dbl |-> None,   time |-> <<0, 0, 1, 0, 0>>],
  [x |-> "2000-03-01", int |-> None, dbl |-> None, time |-> <<2000, 2, 0, 0, 0>>],
  [x |-> "",       int |-> None, dbl |-> None,   time |-> None],
  [x |-> "a b",    int |-> None, dbl |-> None,   time |-> None],
  [x |-> "-",      int |-> None, dbl |-> None,   time |-> None],
  [x |-> "n",      int |-> None, dbl |-> None,   time |-> None],
  [x |-> "name",   int |-> None, dbl |-> None,   time |-> None],
  [x |-> "-nu",    int |-> None, dbl |-> None,   time |-> None]>>
DateLike(t) == t = "2000-03-01"
Val(t) == Values[CHOOSE i \in 1..Len(Values) : Values[i].x = t]
IsVal(t) == \E i \in 1..Len(Values) : Values[i].x = t
\* something that starts like an option is not a value
Optionish(t) == Len(t) > 2 /\ SubSeq(t, 1, 2) = "--"
Opt(t) == IF \E i \in Idx : Declared[i].n = t THEN CHOOSE i \in Idx : Declared[i].n = t ELSE 0

\* the meaning of text t for an option of type ty; None: not settled here
Meaning(ty, t) == CASE ty = "string" -> <<t>>
   [] ty = "int" -> Val(t).int [] ty = "double" -> Val(t).dbl
   [] ty = "delta" -> IF DateLike(t) THEN None ELSE Val(t).time
   [] ty = "fixed" -> IF DateLike(t) THEN Val(t).time ELSE None
Fits(ty, t) == Meaning(ty, t) # None

\* result: set (index -> text of its last value, TRUE for booleans), unknown (undeclared arguments in order), short (index of the option lacking its value, 0)
RECURSIVE Parse(_, _, _)
Parse(a, k, r) ==
  IF k > Len(a) THEN r
  ELSE LET i == Opt(a[k]) IN
    IF i = 0 THEN Parse(a, k + 1, [r EXCEPT !.unknown = Append(@, a[k])])
    ELSE IF Declared[i].t = "bool" THEN Parse(a, k + 1, [r EXCEPT !.set[i] = <<"yes">>])
    ELSE IF k = Len(a) \/ Optionish(a[k + 1]) THEN [r EXCEPT !.short = i]
    ELSE Parse(a, k + 2, [r EXCEPT !.set[i] = <<a[k + 1]>>])
Outcome(a) == Parse(a, 1, [set |-> [i \in Idx |-> <<>>], unknown |-> <<>>, short |-> 0])
=============================================================================
