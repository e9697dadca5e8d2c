--------------------------- MODULE TraceCommandLine ---------------------------
EXTENDS CommandLine, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Bad(what) == PrintT(<<"BAD", l, what>>)
\* the driver's defaults, in the form it reports values
Default == <<<<3>>, <<"none">>, <<FALSE>>, <<FALSE>>, <<0, 0, 0, 100, 0>>, <<1500>>, <<1990, 0, 1, 0, 0>>, <<-1>>, <<"">>, <<0>>>>
Want(i, x) == IF x = <<>> THEN Default[i]
              ELSE LET ty == Declared[i].t IN
                IF ty = "bool" THEN <<TRUE>> ELSE Meaning(ty, x[1])
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Has(i) == Declared[i].t \notin {"delta", "fixed"}
\* texts whose meaning is not settled for the option they are given to
Open(a, lib) == \E k \in 1..(Len(a) - 1) : LET i == Opt(a[k]) IN
   i # 0 /\ Declared[i].t # "bool" /\ ~Optionish(a[k + 1]) /\ (~IsVal(a[k + 1]) \/ ~Fits(Declared[i].t, a[k + 1]))
\* declared by this driver (the base library has no times)
Known(i, lib) == lib = "atm" \/ Has(i)
Uses(a) == {k \in 1..Len(a) : Opt(a[k]) # 0 /\ ~Has(Opt(a[k]))}
Verdict(e) ==
  IF e.ev = "died" THEN <<"died", e.why>>
  ELSE IF Open(e.a, e.lib) \/ (e.lib # "atm" /\ Uses(e.a) # {}) THEN <<>>
  ELSE LET r == Outcome(e.a) IN
    IF e.lib = "base" /\ r.unknown # <<>> THEN      \* the base library's copy stops at the first undeclared argument
      (IF e.ran \/ e.status = 0 \/ e.unknown = <<>> \/ e.unknown[1] # r.unknown[1] THEN <<"undeclared arguments", r.unknown>> ELSE <<>>) ELSE
    IF r.short # 0 THEN
      (IF e.status = 0 THEN <<"lacking value not an error", r.short>>
       ELSE IF e.ran THEN <<"went on without the value", r.short>>
       ELSE IF Len(e.errors) # 1 \/ e.errors[1] # Declared[r.short].n THEN <<"error report", Declared[r.short].n>> ELSE <<>>)
    ELSE IF e.status # 0 \/ ~e.ran THEN <<"stopped">>
    ELSE IF e.errors # <<>> THEN <<"error reported">>
    ELSE IF e.unknown # r.unknown THEN <<"undeclared arguments", r.unknown>>
    ELSE LET W == {i \in Idx : Known(i, e.lib) /\ e.vals[i] # Want(i, r.set[i])} IN
         IF W # {} THEN <<"value", {<<Declared[i].n, Want(i, r.set[i])>> : i \in W}>>
         ELSE IF \E i \in Idx : Known(i, e.lib) /\ Count(e.usage, Declared[i].n) # 1 THEN <<"usage">>
         ELSE <<>>
Init == l = 1
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET v == Verdict(Log[l]) IN v = <<>> \/ Bad(v)
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
