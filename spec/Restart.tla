------------------------------- MODULE Restart -------------------------------
(* Writing and reading a restart file. One process (0) writes the file: the        *)
(* header, its own patches, and the two records of every other patch as they        *)
(* arrive, each at the place given by the sizes of the records before it. Any       *)
(* number of processes reads it back; a file that has been damaged is refused.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NPatch, Writers, Readers, MaxSize,
          Placement,      \* "size": by the sizes of the records before; "arrival": one after the other
          Counting,       \* "patch": two messages per remote patch; "process": two per other process
          Checks          \* whether a reader notices the end of the file
Patches == 0..(NPatch - 1)
Kinds == {0, 1}                                   \* geometry, state
Recs == Patches \X Kinds
VARIABLES np, owner, size, pc, flight, left, file, end, cut, rd, rowner, got
vars == <<np, owner, size, pc, flight, left, file, end, cut, rd, rowner, got>>
Byte(r, k) == <<r[1], r[2], k>>                   \* the content of a record, byte by byte
Hole == <<-1, -1, -1>>
Rank(r) == 2 * r[1] + r[2]
RECURSIVE SumTo(_)
SumTo(n) == IF n = 0 THEN 0 ELSE SumTo(n - 1) + size[<<(n - 1) \div 2, (n - 1) % 2>>]
Total == SumTo(2 * NPatch)
Place(r) == IF Placement = "size" THEN SumTo(Rank(r)) ELSE end
Put(f, at, r) == [k \in 0..(NPatch * 2 * MaxSize - 1) |-> IF k >= at /\ k < at + size[r] THEN Byte(r, k - at) ELSE f[k]]
Remote == {r \in Recs : owner[r[1]] # 0}
Init == /\ np \in Writers /\ owner \in [Patches -> 0..(np - 1)] /\ size \in [Recs -> 1..MaxSize]
        /\ pc = "own" /\ flight = {} /\ file = [k \in 0..(NPatch * 2 * MaxSize - 1) |-> Hole] /\ end = 0
        /\ left = 0 /\ cut = FALSE /\ rd = 0 /\ rowner = <<>> /\ got = "none"
RECURSIVE PutAll(_, _, _)
PutAll(f, at, S) == IF S = {} THEN [f |-> f, at |-> at]
   ELSE LET r == CHOOSE x \in S : \A y \in S : Rank(x) <= Rank(y)
            p == IF Placement = "size" THEN SumTo(Rank(r)) ELSE at IN PutAll(Put(f, p, r), at + size[r], S \ {r})
Own == /\ pc = "own"
       /\ LET q == PutAll(file, 0, Recs \ Remote) IN file' = q.f /\ end' = q.at
       /\ left' = IF Counting = "patch" THEN Cardinality(Remote) ELSE 2 * (np - 1)
       /\ pc' = "take" /\ UNCHANGED <<np, owner, size, flight, cut, rd, rowner, got>>
Sent == {r \in Remote : TRUE}
Send(r) == /\ pc \in {"own", "take"} /\ r \in Remote /\ <<r, "sent">> \notin flight /\ <<r, "taken">> \notin flight
           /\ flight' = flight \cup {<<r, "sent">>} /\ UNCHANGED <<np, owner, size, pc, left, file, end, cut, rd, rowner, got>>
Take(r) == /\ pc = "take" /\ left > 0 /\ <<r, "sent">> \in flight
           /\ file' = Put(file, Place(r), r) /\ end' = end + size[r]
           /\ flight' = (flight \ {<<r, "sent">>}) \cup {<<r, "taken">>} /\ left' = left - 1
           /\ UNCHANGED <<np, owner, size, pc, cut, rd, rowner, got>>
Close == /\ pc = "take" /\ left = 0 /\ pc' = "closed" /\ UNCHANGED <<np, owner, size, flight, left, file, end, cut, rd, rowner, got>>
\* an accident: the file loses its tail
Cut(n) == /\ pc = "closed" /\ got = "none" /\ ~cut /\ n < Total /\ cut' = TRUE /\ end' = n
          /\ file' = [k \in DOMAIN file |-> IF k >= n THEN Hole ELSE file[k]]
          /\ UNCHANGED <<np, owner, size, pc, flight, left, rd, rowner, got>>
Piece(r) == [k \in 0..(size[r] - 1) |-> file[SumTo(Rank(r)) + k]]
Read == /\ pc = "closed" /\ got = "none" /\ rd' \in Readers /\ rowner' \in [Patches -> 0..(rd' - 1)]
        /\ got' = IF Checks /\ \E p \in 0..(rd' - 1), r \in Recs : rowner'[r[1]] = p /\ SumTo(Rank(r)) + size[r] > end THEN "refused" ELSE "read"
        /\ UNCHANGED <<np, owner, size, pc, flight, left, file, end, cut>>
Next == Own \/ Close \/ Read \/ (\E r \in Recs : Send(r) \/ Take(r)) \/ (\E n \in {0, Total - 1, Total \div 2} : Cut(n)) \/ (got # "none" /\ UNCHANGED vars)
Fairness == WF_vars(Own) /\ WF_vars(Close) /\ WF_vars(Read) /\ \A r \in Recs : WF_vars(Send(r)) /\ WF_vars(Take(r))
Spec == Init /\ [][Next]_vars /\ Fairness
\* ---- what must hold
Faithful == got = "read" => \A r \in Recs : Piece(r) = [k \in 0..(size[r] - 1) |-> Byte(r, k)]
Refuses == got # "none" => (got = "refused") = cut
Closed == pc = "closed" => \A r \in Recs : <<r, "sent">> \notin flight
Complete == <>(got # "none")
=============================================================================
