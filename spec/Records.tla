------------------------------ MODULE Records ------------------------------
(* Output records in files: the run starts at second Base of its first day and    *)
(* writes at some of its steps; a file is opened when a record needs one, takes   *)
(* at most Per records and is closed. Times are stored relative to the start of   *)
(* the first day (0), which is what the file's units say.                         *)
EXTENDS Integers, Sequences
CONSTANTS MaxSteps, MaxPer, Bases, Variant
VARIABLES per, base, step, open, ix, files, asked, done
vars == <<per, base, step, open, ix, files, asked, done>>
Init == /\ per \in {-1} \cup 1..MaxPer /\ base \in Bases /\ step = 0 /\ open = FALSE /\ ix = 0 /\ files = <<>> /\ asked = <<>> /\ done = FALSE
Put(f, k, r) == [j \in 1..(IF Len(f) > k THEN Len(f) ELSE k + 1) |-> IF j = k + 1 THEN r ELSE IF j <= Len(f) THEN f[j] ELSE <<>>]
Stored == CASE Variant = "base" -> step [] OTHER -> base + step
Write == LET fs == IF open THEN files ELSE Append(files, <<>>)
             full == IF Variant = "early" THEN ix + 1 = per - 1 ELSE ix + 1 = per
             r == <<step, Stored>>
         IN /\ files' = [fs EXCEPT ![Len(fs)] = Put(fs[Len(fs)], ix, r)]
            /\ open' = ~full /\ ix' = IF full /\ Variant # "index" THEN 0 ELSE ix + 1
            /\ asked' = Append(asked, <<step, base + step>>)
\* the first and the last state are always written, others as the schedule says
Start == step = 0 /\ asked = <<>> /\ Write /\ UNCHANGED <<per, base, step, done>>
Step == asked # <<>> /\ ~done /\ step < MaxSteps /\ step' = step + 1 /\ UNCHANGED <<per, base, open, ix, files, asked, done>>
Due == asked # <<>> /\ ~done /\ step > asked[Len(asked)][1] /\ Write /\ UNCHANGED <<per, base, step, done>>
End == asked # <<>> /\ step = asked[Len(asked)][1] /\ step > 0 /\ done' = TRUE /\ open' = FALSE /\ UNCHANGED <<per, base, step, ix, files, asked>>
Next == Start \/ Step \/ Due \/ End
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_, _)
Flat(fs, k) == IF k = 0 THEN <<>> ELSE Flat(fs, k - 1) \o fs[k]
AllWritten == Flat(files, Len(files)) = asked
Sized == \A k \in 1..Len(files) : IF per = -1 THEN Len(files) = 1 ELSE Len(files[k]) <= per /\ (k < Len(files) => Len(files[k]) = per)
Ordered == \A k \in 1..Len(files) : \A j \in 1..(Len(files[k]) - 1) : files[k][j] # <<>> /\ files[k][j + 1] # <<>> => files[k][j][2] < files[k][j + 1][2]
=============================================================================
